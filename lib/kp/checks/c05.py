"""C05: exported files as an independent reader sees them."""
from .. import enc as E, gen, kdbwork, session, work
from ..check import Case
from . import c02


def written(db, fmt, pw=b"secret", kf=None, again=False):
    def f(r):
        r.new("a", db)
        r.key("k", pw=pw, kf=kf)
        if r.export("a", "k", "f", fmt):
            r.read("f", "k", fmt)
        if again and r.imp("f", "k", "b", fmt):
            if r.export("b", "k", "g", fmt):
                r.read("g", "k", fmt)
    return f


def rand_case(seed, fmt, **kw):
    g = gen.Gen(seed, fmt, ws=True, **kw)
    db = g.db(ngroups=g.ch([3, 6, 12]), nentries=g.ch([3, 6, 12]))
    pw = g.ch([b"", b"secret", "p\u00e4ss".encode(), None])
    kf = g.r.randbytes(32) if pw is None or g.r.random() < .4 else None
    return written(db, fmt, pw, kf)


def each(dbs, fmt):
    def f(r):
        for d in dbs:
            written(d, fmt)(r)
    return f


def run(c):
    n = c.pick(150, 1500)
    for fmt in ("kdbx", "kdb"):
        cases = [Case("%s-%d" % (fmt, c.seed * 100000 + i), rand_case(c.seed * 100000 + i, fmt, big=i % 8 == 0)) for i in range(n)]
        session.validate(c, cases, "random databases written as " + fmt)
    for fmt in ("kdbx", "kdb"):
        cases = [Case("each-%s-%s" % (fmt, n), each(dbs, fmt)) for n, dbs in work.sweep(fmt == "kdb", c.pick(9, 1))]
        session.validate(c, cases, "every kind of value at every place, written as " + fmt)
    cases = [Case("many-%s-%d" % (k, n), written(work.many(k, n), "kdbx", again=True)) for k in work.MANY for n in c.pick([257], [2, 128, 257, 300])]
    cases += [Case("header-%s" % k, written(d, "kdbx")) for k, d in work.headers()]
    for f in ("pnotes", "own", "pown", "bin", "pbin", "zbin"):
        for n in c.pick([16384, 1048000, 1048576, 2100001], [16383, 16384, 131072, 1048000, 1048575, 1048576, 1048577, 2097152, 5000001]):
            cases.append(Case("size-%s-%d" % (f, n), written(work.sized(f, n, "true" if n % 3 else "false", n % 17), "kdbx")))
    session.validate(c, cases, "long lists, unusual header values and large values written as kdbx")
    cases = [Case("size-%s-%d-%s" % (f, n, ci), written(c02.sized(f, n, ci), "kdb")) for f in ("att", "notes") for ci in ("aes", "twofish")
             for n in c.pick([0, 15, 255, 65536, 300001], [0, 1, 15, 16, 255, 256, 65535, 65536, 300001, (1 << 24) + 3])]
    cases += [Case("wide-%d-%d" % w, written(c02.wide(*w), "kdb")) for w in c.pick([(300, 20), (5, 700)], [(300, 300), (3000, 5), (5, 3000), (1, 66000)])]
    cases += [Case("rounds-%d" % n, written(dict(kdbwork.tree({"levels": [0, 1], "owners": [1, 2]}), rounds=str(n)), "kdb")) for n in (0, 1, 255, 256, 65536, 100001)]
    cases += [Case("deep-%d" % n, written(work.deep(n, kdb=True), "kdb"), flat=True) for n in c.pick([300], [300, 1000])]
    session.validate(c, cases, "large values, wide and deep trees written as kdb")
