"""C01: KDBX save and load."""
from .. import codec, enc as E, gen, rec, session, work
from ..check import Case


def cycles(db, n=2, pw=b"secret", o="_"):
    def f(r):
        r.new("a", db)
        r.key("k", pw=pw)
        h = "a"
        for i in range(n):
            p = "f%d" % i
            if not r.export(h, "k", p, "kdbx", o=o):
                return
            if not r.imp(p, "k", "b%d" % i, "kdbx", o=o):
                return
            h = "b%d" % i
    return f


def rand_case(seed, **kw):
    g = gen.Gen(seed, **kw)
    db = g.db(ngroups=g.ch([3, 6, 12, 20]), nentries=g.ch([3, 6, 12]))
    return cycles(db, g.ch([1, 2, 3]))


def whitespace(c):
    """White space at the ends of unprotected texts: lost by the current tree (known finding F14)."""
    cases = [Case("white-%s-%d" % (p, i), cycles(work.spaced(p, t), 1)) for p in work.SPACED_AT for i, t in enumerate(work.SPACED)]
    session.with_finding(c, cases, "white space at the ends of texts", "F14")


def exact(target, whole):
    """A database whose document (or what is encrypted) is exactly that many bytes long."""
    def f(r):
        r.new("p", work.sized("notes", 100, "false"))
        r.key("k", pw=b"secret")
        if r.export("p", "k", "probe", "kdbx"):
            bl = codec.kdbx_read(r.bytes("probe"), rec.parts_of(b"secret"))["blocks"]
            n = 100 + target - sum(len(b["data"]) for b in bl) - (112 if whole else 0)
            if n > 0:
                cycles(work.sized("notes", n, "false", target % 17), 1)(r)
    return f


def each(dbs, **kw):
    def f(r):
        for d in dbs:
            cycles(d, 1, **kw)(r)
    return f


def run(c):
    n = c.pick(160, 1500)
    cases = [Case("random-%d" % (c.seed * 100000 + i), rand_case(c.seed * 100000 + i, big=i % 8 == 0), locale="grouped" if i % 10 == 9 else "") for i in range(n)]
    session.validate(c, cases, "random databases, repeated save and load")
    dbs = work.enumerated(c)
    session.validate(c, [Case("enum-%d" % i, cycles(d, 1)) for i, d in enumerate(dbs)], "enumerated databases")
    if not c.quick:
        dbs = work.enumerated(c, 4, 4000)
        session.validate(c, [Case("enum4-%d" % i, cycles(d, 1)) for i, d in enumerate(dbs[:4000])], "enumerated databases, four edits")
    sizes = c.pick([0, 1, 63, 64, 65, 16383, 16384, 16385, 131072, 1048000, 1048575, 1048576, 1048577, 2097152, 3000000],
                   sorted({k * m + d for k in (64, 16384, 131072, 1048576) for m in (1, 2, 3) for d in (-2, -1, 0, 1, 2, 700)} | {0, 1, 2, 8000000}))
    cases = []
    for f in ("notes", "pnotes", "own", "pown", "bin", "pbin", "zbin"):
        for n in sizes:
            for z in ("true", "false"):
                cases.append(Case("size-%s-%d-%s" % (f, n, z), cycles(work.sized(f, n, z, n % 17), 1)))
    session.validate(c, cases, "values around buffer and block sizes")
    cases = [Case("each-%s" % n, each(dbs)) for n, dbs in work.sweep(thin=c.pick(4, 1))]
    session.validate(c, cases, "every kind of value at every place")
    around = [b + d for b in c.pick([4096, 65536, 1 << 20], [2048, 4096, 8192, 16384, 32768, 65536, 1 << 17, 1 << 20, 1 << 21]) for d in (-1, 0, 1)]
    session.validate(c, [Case("exact-%d-%s" % (t, w), exact(t, w)) for t in around for w in (False, True)], "documents as long as a buffer or block may be")
    cases = [Case("deep-%d-%d" % (n, h), cycles(work.deep(n, hist=h), 2), flat=True)
             for n, h in c.pick([(1000, 0), (300, 60)], [(1000, 0), (998, 2), (300, 50), (0, 100), (500, 80), (64, 64)])]
    cases.append(Case("wide", cycles(work.wide(c.pick(800, 3000)), 2), flat=True))
    session.validate(c, cases, "deep and wide trees")
    cases = [Case("many-%s-%d" % (k, n), cycles(work.many(k, n), 2), flat=True) for k in work.MANY for n in c.pick([11, 300], [2, 11, 128, 257, 300, 1100])]
    cases += [Case("header-%s" % k, cycles(d, 2)) for k, d in work.headers()]
    session.validate(c, cases, "long lists and unusual header values")
    whitespace(c)
