"""C02: KDB save and load."""
from .. import codec, gen, kdbwork, rec, session, work
from ..check import Case


def cycles(db, n=2, pw=b"secret", kf=None):
    def f(r):
        r.new("a", db)
        r.key("k", pw=pw, kf=kf)
        h = "a"
        for i in range(n):
            if not r.export(h, "k", "f%d" % i, "kdb"):
                return
            if not r.imp("f%d" % i, "k", "b%d" % i, "kdb"):
                return
            h = "b%d" % i
    return f


def rand_case(seed, **kw):
    g = gen.Gen(seed, "kdb", **kw)
    db = g.db(ngroups=g.ch([3, 6, 12, 25]), nentries=g.ch([3, 6, 15]))
    return cycles(db, g.ch([1, 2, 3]), *g.ch([(b"secret", None), (b"", None), (None, b"k" * 32), (b"x", bytes(32))]))


def sized(field, n, cipher):
    db = kdbwork.tree({"levels": [0], "owners": [1, 1]})
    db["cipher"] = cipher
    e = db["root"]["groups"][0]["entries"][0]
    if field == "att":
        e["att"] = [{"name": "n", "bin": "own", "data": "U:@%d:%d" % (n, n % 31), "compress": "false"}]
    else:
        e[field] = "U:@%d:x%02x" % (n, 0x61 + n % 20)
    return db


def wide(groups, entries, cipher="aes"):
    """Many groups (some nested) and many entries in them."""
    levels = [0 if i % 3 == 0 else 1 + (i % 3 == 2 and i % 2) for i in range(groups)]
    db = kdbwork.tree({"levels": levels, "owners": [1 + (i * i + 3 if i % 2 else groups - 1 - i * i) % groups for i in range(entries)]})
    db["cipher"] = cipher
    return db


def exact(target, cipher):
    """A database whose content is exactly that many bytes long."""
    def f(r):
        def db(n):
            return sized("att" if target % 3 else "title", n, cipher)
        r.new("p", db(100))
        r.key("k", pw=b"secret")
        if r.export("p", "k", "probe", "kdb"):
            n = 100 + target - len(codec.kdb_read(r.bytes("probe"), rec.parts_of(b"secret"))["content"])
            if n > 0:
                cycles(db(n), 1)(r)
    return f


def each(dbs, **kw):
    def f(r):
        for d in dbs:
            cycles(d, 1, **kw)(r)
    return f


def run(c):
    n = c.pick(160, 2000)
    cases = [Case("random-%d" % (c.seed * 100000 + i), rand_case(c.seed * 100000 + i, big=i % 8 == 0), locale="grouped" if i % 10 == 9 else "") for i in range(n)]
    session.validate(c, cases, "random databases, repeated save and load")
    shapes = kdbwork.enumerated(c, *c.pick((6, 0, 0), (8, 0, 0))) + kdbwork.enumerated(c, *c.pick((4, 2, 0), (5, 3, 0)))
    B = 8
    cases = []
    for i in range(0, len(shapes), B):
        def f(r, part=shapes[i:i + B]):
            for b in part:
                cycles(kdbwork.tree(b), 1)(r)
        cases.append(Case("shape-%d" % i, f))
    session.validate(c, cases, "every small tree")
    sizes = c.pick([0, 1, 15, 16, 17, 255, 256, 65535, 65536, 65537, 1 << 20, 3000001], [0, 1, 2] + [(1 << k) + d for k in (4, 8, 15, 16, 20, 22) for d in (-1, 0, 1)])
    session.validate(c, [Case("size-%s-%d-%s" % (f, k, ci), cycles(sized(f, k, ci), 1)) for f in ("att", "title", "notes") for k in sizes
                         for ci in ("aes", "twofish")], "values of many sizes")
    sizes = c.pick([(1 << 24) + 5], [(1 << 24) + 5, (1 << 26) + 1])
    session.validate(c, [Case("huge-%s-%d" % (f, k), cycles(sized(f, k, "aes"), 1)) for k in sizes for f in ("att", "notes")], "values of huge sizes")
    cases = [Case("deep-%d" % k, cycles(work.deep(k, kdb=True), 2), flat=True) for k in c.pick([1000, 40], [1000, 999, 500, 40])]
    session.validate(c, cases, "deep trees")
    cases = [Case("wide-%d-%d" % w, cycles(wide(*w), 1), flat=True) for w in c.pick([(300, 10), (700, 20), (10, 66000), (66000, 5)], [(300, 300), (1, 3000), (3000, 1), (10, 70000), (70000, 10)])]
    session.validate(c, cases, "many groups and entries")
    cases = [Case("each-%s" % n, each(dbs)) for n, dbs in work.sweep(True, thin=c.pick(5, 1))]
    session.validate(c, cases, "every kind of value at every place")
    around = [b + d for b in c.pick([1024, 4096, 65536], [512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 1 << 20]) for d in (-16, -1, 0, 1)]
    session.validate(c, [Case("exact-%d-%s" % (t, ci), exact(t, ci)) for t in around for ci in c.pick([["aes", "twofish"][t % 2]], ["aes", "twofish"])],
                     "contents as long as a buffer may be")
