"""C06: only the right composite key opens a file."""
import copy, itertools, random
from .. import both, codec, crypt as C, docs, gen, kdbwork, session
from ..check import Case

KF = bytes(range(100, 132))
PW = [b"", b"a", b"A", b"b", b"aa", b"secret", b"secre", b"Secret", b"SECRET", b"secrets", b" secret", b"secret ", b"secret\n", b"secret\0",
      b"secret\0x", b"\0", "l\u00f6sen".encode(), "lo\u0308sen".encode(), "l\u00f6sen".encode("latin-1"), b"losen", b"x" * 63, b"x" * 64,
      b"x" * 65, b"x" * 127 + b"y", b"x" * 128, b"x" * 255, b"x" * 256, b"y" + b"x" * 63]


def flip(b, i):
    return b[:i // 8] + bytes([b[i // 8] ^ 1 << i % 8]) + b[i // 8 + 1:]


def keys():
    """Named keys of all kinds: (password, key file, order, form)."""
    out = []
    for i, p in enumerate(PW):
        out.append(("p%d" % i, p, None, "pk", "xml"))
    for i, k in enumerate([KF, flip(KF, 0), flip(KF, 255), flip(KF, 131), KF[::-1], b"\xff" * 32, C.sha256(b"secret"), b"\0" * 31 + b"\1",
                           KF[:31] + b"\0"]):
        out.append(("k%d" % i, None, k, "pk", ["xml", "hex", "HEX"][i % 3]))
        out.append(("b%d" % i, b"secret", k, ["pk", "kp"][i % 2], ["xml", "hex", "HEX"][i % 3]))
    out += [("x0", b"secre", KF, "kp", "xml"), ("x1", b"", KF, "pk", "hex"), ("x2", KF, None, "pk", "xml"), ("x3", KF, KF, "pk", "xml"),
            ("x4", b"secret", b"\0" * 32, "pk", "xml"), ("x5", C.sha256(b"secret"), None, "pk", "xml"), ("none", None, None, "pk", "xml")]
    return out


def small(seed, fmt):
    if fmt == "kdbx":
        g = both.Both(seed)
        d = both.db(seed, 2, 2)
    else:
        g = gen.Gen(seed, "kdb")
        d = g.db(3, 3)
    d["rounds"] = g.ch(["0", "1", "2", "3"])
    return d


def matrix(fmt, own, others, seed):
    """A file saved with one key, tried with the others."""
    def f(r):
        rnd = random.Random(seed)
        name, pw, kf, order, form = own
        r.key(name, pw=pw, kf=kf, order=order, form=form)
        r.key("again", pw=pw, kf=kf, order="kp" if order == "pk" else "pk", form="hex" if form == "xml" else "xml")
        r.new("a", small(seed, fmt))
        r.export("a", name, "f", fmt)
        r.imp("f", name, "b", fmt)
        before = r.sum("f")
        for i, (n, p, k, o, fm) in enumerate(others):
            if n != name:
                r.key(n, pw=p, kf=k, order=o, form=fm)
            r.imp("f", n, rnd.choice("bc"), fmt, o=rnd.choice(["_", "o1"]))
            if i % 9 == 8:
                r.show("b")
                r.imp("f", rnd.choice([name, "again"]), "b", fmt, o="o1")
        r.fact("a refused attempt changed the file", r.sum("f"), before)
        r.imp("f", "again", "c", fmt)
        r.show("b")
        r.show("a")
    return f


def almost(fmt, seed):
    """A key under which a file decrypts to something that differs in one byte from what the header promises is another key."""
    def f(r):
        rnd = random.Random(seed)
        r.key("k", pw=b"secret", kf=KF)
        for i in range(33):
            if fmt == "kdbx":
                d = docs.Docs(seed)
                hdr = d.header()
                if i == 0:
                    hdr = [(a, b) for a, b in hdr if a != 9] + [(9, bytes(32)), (0, b"")]
                    hdr = [x for x in hdr[:-1] if x[0] != 0] + [hdr[-1]]
                start = dict(hdr)[9]
                other = flip(start, rnd.randrange(256) if i == 0 else (i - 1) * 8 + rnd.randrange(8))
                tree = d.doc()
                whole, near = (codec.kdbx_write(hdr, copy.deepcopy(tree), r.k["k"], start=x) for x in (None, other))
            else:
                f = kdbwork.KdbFiles(seed)
                gs, es = [[(1, bytes(4)), (2, b"g\0"), (8, bytes(2)), kdbwork.END]], [[(1, f.r.randbytes(16)), (2, bytes(4)), (4, f.text()), kdbwork.END]]
                right = C.sha256(codec.kdb_records(gs) + codec.kdb_records(es))
                whole, near = (codec.kdb_write(r.k["k"], gs, es, ["aes", "twofish"][i % 2], chash=x)
                               for x in (None, flip(right, rnd.randrange(256) if i == 0 else (i - 1) * 8 + rnd.randrange(8))))
            r.give("f", "k", fmt, whole)
            r.imp("f", "k", "a", fmt, o="o1")
            r.give("f", "k", fmt, whole, raw=near, key=["ab" * 32])
            r.imp("f", "k", "b", fmt, o="o1")
    return f


def run(c):
    ks = keys()
    cases = []
    for fmt in ("kdbx", "kdb"):
        for i, k in enumerate(ks):
            zero = [x for x in ks if not (fmt == "kdb" and {k[0], x[0]} == {"none", "k-zero"})]
            cases.append(Case("%s-%s" % (fmt, k[0]), matrix(fmt, k, zero, c.seed * 1000 + i)))
    session.validate(c, cases, "each key against each other")
    session.validate(c, [Case("almost-%s-%d" % (fmt, i), almost(fmt, c.seed * 1000 + i)) for fmt in ("kdbx", "kdb") for i in range(c.pick(4, 40))],
                     "keys that fit in all but one byte")
    # every pair of keys made of passwords over two letters and two key files
    n = c.pick(2, 4)
    pws = [bytes(p) for m in range(n + 1) for p in itertools.product(b"ab", repeat=m)]
    some = [("q%d-%d" % (i, j), p, k, "pk", "xml") for i, p in enumerate([None] + pws) for j, k in enumerate([None, KF, flip(KF, 7)])]
    cases = [Case("all-%s-%s" % (fmt, k[0]), matrix(fmt, k, some, c.seed * 1000 + i)) for fmt in ("kdbx", "kdb") for i, k in enumerate(some)]
    session.validate(c, cases, "all pairs of small keys")
