"""C04: what a well-formed KDBX file means."""
import struct
from .. import codec, docs, gen, session
from ..check import Case


def given(files):
    """files: functions of the key parts returning bytes."""
    def f(r):
        r.key("k", pw=b"secret")
        for i, raw in enumerate(files):
            r.give("f%d" % i, "k", "kdbx", raw(r.k["k"]))
            r.imp("f%d" % i, "k", "h", "kdbx")
    return f


def endless(n):
    """A file that asks for n rounds, more than anybody waits for, but was made with the rounds that fit in fewer bits."""
    def f(r):
        r.key("k", pw=b"secret")
        d = docs.Docs(n % 1000)
        hdr = [(i, struct.pack("<Q", n) if i == 6 else v) for i, v in d.header()]
        r.put("f", codec.kdbx_write(hdr, d.doc(), r.k["k"], rounds=n & 0xffffffff))
        a = r.call("import", h="h", k="k", path=r.path("f"), fmt="kdbx", o="_")
        r.fact("opened with fewer rounds than the header asks for", str(a["out"] == "ok"), "False")
    return f


def endless_save(n):
    def f(r):
        r.key("k", pw=b"secret")
        db = gen.empty_db()
        db["rounds"] = str(n)
        r.new("a", db)
        a = r.call("export", h="a", k="k", path=r.path("f"), fmt="kdbx", o="_")
        r.fact("saved with fewer rounds than asked for", str(a["out"] == "ok"), "False")
    return f


def swept(ds, n):
    def raw(d):
        def g(k):
            import random
            rnd = random.Random(n)
            fields = codec.kdbx_fields(bytes(range(32)), bytes(range(32)), 1, bytes(range(16)), bytes(range(32)), bytes(range(1, 33)), n % 2 == 1)
            return codec.kdbx_write(fields, d, k, rnd, n % 2)
        return g
    return given([raw(d) for d in ds])


def run(c):
    cases = []
    for i in range(c.pick(160, 3000)):
        s = c.seed * 100000 + i
        cases.append(Case("random-%d" % s, given([lambda k, s=s, j=j: docs.Docs(s * 10 + j).file(k) for j in range(4)]), locale="grouped" if s % 10 == 9 else ""))
    session.validate(c, cases, "random well-formed files")
    cases = []
    for i in range(c.pick(10, 150)):
        s = c.seed * 100000 + i
        cases.append(Case("fault-%d" % s, given([lambda k, s=s, f=f: docs.Docs(s * 10).file(k, f) for f in docs.FAULTS])))
    session.validate(c, cases, "files with one fault")
    cases = [Case("encoded-%s-%d" % (x, i), given([lambda k, i=i, x=x, j=j: docs.Docs(c.seed * 100000 + 70 + i * 3 + j).encoded(k, x) for j in range(3)]))
             for x in codec.XENC for i in range(c.pick(4, 40))]
    cases += [Case("version-%x" % v, given([lambda k, v=v: docs.Docs(c.seed * 100000 + v % 99).encoded(k, None, ver=v)]))
              for v in (0, 0x00010001, 0x00020002, 0x0002ffff, 0x00030000, 0x00030002)]
    session.validate(c, cases, "documents in other encodings, earlier versions")
    cases = [Case("white-%d" % i, given([lambda k, i=i: docs.Docs(c.seed * 100 + i, ws=True).file(k)])) for i in range(c.pick(20, 200))]
    session.with_finding(c, cases, "white space at the ends of texts", "F14")
    cases = [Case("each-%s" % n, swept(ds, i)) for i, (n, ds) in enumerate(docs.sweep(c.pick(5, 1)))]
    session.validate(c, cases, "every element left out, moved and with every kind of value")
    ns = c.pick([(1 << 32) + 1, (1 << 40) + 2], [(1 << k) + d for k in (32, 33, 40, 56, 63) for d in (0, 1, 3)])
    session.validate(c, [Case("%s-%d" % (f.__name__, n), f(n), timeout=4) for n in ns for f in (endless, endless_save)], "round counts that never end")
