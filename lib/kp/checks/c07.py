"""C07: key derivation."""
import base64, hashlib, json, os, random
from .. import crypt as C, enc as E, prim, rec
from ..check import Case

X, Y = bytes(range(32)), bytes(range(200, 232))


def new(r, k, ctor=None):
    if ctor is None:
        r.do("key", k=k, steps=[])
        r.event("new", k=k)
    else:
        r.do("key", k=k, steps=[], ctor=E.raw(ctor))
        r.event("new", k=k, ctor=list(ctor))


def pw(r, k, v):
    a = r.do("key", k=k, keep="true", steps=[{"op": "pw", "v": E.raw(v)}])
    r.event("pw", k=k, v=list(v), out=(a.get("outs") or [a.get("out")])[0])


def kf(r, k, form, data=b"", doc=None, path=None):
    """form xml: data is the text of the Data element of document doc (with a place %s); raw: the file's bytes."""
    p = r.path(path or "key.file")
    f = {"form": form}
    if form == "xml":
        raw = doc(data) if callable(doc) else (doc or DOC[0]).replace(b"%s", data)
        f["data"] = list(data)
    else:
        raw = data
        f["bytes"] = list(data)
    if form == "missing":
        if os.path.exists(p):
            os.unlink(p)
    else:
        r.put(os.path.basename(p), raw)
    a = r.do("key", k=k, keep="true", steps=[{"op": "kf", "v": p}])
    r.event("kf", k=k, file=f, out=(a.get("outs") or [a.get("out")])[0])


def derive(r, k, seed, n, mode):
    a = r.do("transform", k=k, seed=seed.hex(), rounds=str(n), mode=mode)
    r.event("derive", k=k, seed=list(seed), n=n, mode=mode, out=a["out"], key=prim.unhex(a.get("key", "")))


DOC = [rec.keyfile_xml(X).replace(base64.b64encode(X), b"%s"),
       b"<KeyFile><Key><Data>%s</Data></Key></KeyFile>",
       b'<?xml version="1.0"?><!-- a key --><KeyFile><Key><Data>%s</Data></Key><Meta><Version>1.00</Version></Meta></KeyFile>',
       b'\xef\xbb\xbf<?xml version="1.0" encoding="utf-8"?>\r\n<KeyFile>\r\n <Key>\r\n  <Data>%s</Data>\r\n </Key>\r\n</KeyFile>\r\n',
       b"<KeyFile><Key><Other>AAAA</Other><Data>%s</Data></Key></KeyFile>"]


def files(seed):
    """Key files of all forms, usable or not, applied to one key."""
    def f(r):
        rnd = random.Random(seed)
        new(r, "k")
        for i in range(14):
            key = rnd.choice([X, Y, bytes(32), b"\xff" * 32, rnd.randbytes(32)])
            b = base64.b64encode(key)
            w = rnd.randrange(16)
            doc = rnd.choice(DOC)
            if w == 0:
                kf(r, "k", "xml", b, doc)
            elif w == 1:
                kf(r, "k", "xml", b"\n\t" + b[:20] + b"\r\n  " + b[20:] + b"\n", doc)
            elif w == 2:
                kf(r, "k", "raw", key.hex().encode())
            elif w == 3:
                kf(r, "k", "raw", key.hex().upper().encode())
            elif w == 4:
                kf(r, "k", "raw", "".join(rnd.choice([x, x.upper()]) for x in key.hex()).encode())
            elif w == 5:
                h = bytearray(key.hex().encode())
                h[rnd.randrange(64)] = rnd.choice(b"gG/:@` \n\0\x80x-+")
                kf(r, "k", "raw", bytes(h))
            elif w == 6:
                kf(r, "k", "raw", key.hex().encode()[:rnd.randrange(64)])
            elif w == 7:
                kf(r, "k", "raw", key.hex().encode() + rnd.choice([b"\n", b"0", b"00", b" ", b"\r\n", b"\0"]))
            elif w == 8:
                kf(r, "k", "missing")
            elif w == 9:
                n = rnd.choice([0, 1, 16, 31, 33, 64])
                kf(r, "k", "xml", base64.b64encode(rnd.randbytes(n)), doc)
            elif w == 10:
                kf(r, "k", "xml", rnd.choice([b[:-1], b[:-4], b + b"====", b"!" + b[1:], b[:10] + b"=" + b[11:], b.replace(b"=", b"A")]), doc)
            elif w == 11:
                kf(r, "k", "raw", rnd.choice([b"", b"\0" * 64, key, key + key, b"x" * 64, b"<KeyFile>", rnd.randbytes(64), b" " + key.hex().encode()[1:],
                                              b"0x" + key.hex().encode()[:62]]))
            elif w == 12:
                kf(r, "k", "raw", rnd.choice(no_key(b)))
            elif w == 13:
                pw(r, "k", rnd.randbytes(rnd.choice([0, 1, 5, 55, 56, 63, 64, 65, 119, 120, 128, 300])))
            elif w == 14:
                kf(r, "k", "xml", b, DOC[1])
            else:
                pw(r, "k", b"password")
            if rnd.random() < .6 and any(e["e"] in ("pw",) or e["e"] == "kf" and e["out"] == "ok" for e in r.ev):
                derive(r, "k", rnd.randbytes(32), rnd.choice([0, 1, 2, 3]), rnd.choice(["kdbx", "kdb"]))
    return f


def no_key(b):
    """Documents that are no key files."""
    return [b"<KeyFile><Key></Key></KeyFile>", b"<KeyFile><Data>" + b + b"</Data></KeyFile>", b"<Key><Data>" + b + b"</Data></Key>", b"<KeyFile/>",
            b"<Other><Key><Data>" + b + b"</Data></Key></Other>", b"<KeyFile><Other><Data>" + b + b"</Data></Other></KeyFile>",
            b"<x><KeyFile><Key><Data>" + b + b"</Data></Key></KeyFile></x>", b"<KeyFile><Key><Hash>" + b + b"</Hash></Key></KeyFile>",
            b"<KeyFile><Key><x><Data>" + b + b"</Data></x></Key></KeyFile>", b"<KeyFile><x><Key><Data>" + b + b"</Data></Key></x></KeyFile>",
            b"<keyfile><key><data>" + b + b"</data></key></keyfile>", b'<KeyFile><Key Data="' + b + b'"/></KeyFile>',
            b"<KeyFile2><Key><Data>" + b + b"</Data></Key></KeyFile2>", b"<KeyFile>" + b + b"</KeyFile>", b"<KeyFile><Key>" + b + b"</Key></KeyFile>"]


def _whole(b):
    return b'<?xml version="1.0" encoding="utf-8"?>\n<KeyFile>\n<Key>\n<Data>' + b + b"</Data>\n</Key>\n</KeyFile>\n"


# The same key file as other programs may spell it.
SPELLINGS = [
    lambda b: _whole(b"<![CDATA[" + b + b"]]>"),
    lambda b: _whole(b"".join(b"&#%d;" % x for x in b)),
    lambda b: _whole(b"".join(b"&#x%x;" % x if i % 3 == 0 else bytes([x]) for i, x in enumerate(b))),
    lambda b: b"\xff\xfe" + _whole(b).decode().replace("utf-8", "utf-16").encode("utf-16-le"),
    lambda b: b"\xfe\xff" + _whole(b).decode().replace("utf-8", "utf-16").encode("utf-16-be"),
    lambda b: b"\xef\xbb\xbf" + _whole(b),
    lambda b: _whole(b).replace(b"utf-8", b"ISO-8859-1"),
    lambda b: b"\n  " + _whole(b)[39:],
    lambda b: _whole(b).replace(b"?>", b"?>\n<!-- <Key> --><!DOCTYPE KeyFile>", 1),
    lambda b: _whole(b).replace(b"?>", b"?>\n<!-- " + b"long " * 5000 + b"-->", 1),
    lambda b: _whole(b).replace(b"<KeyFile>", b'<KeyFile xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">'),
    lambda b: _whole(b).replace(b"<Data>", b'<Data ProtectInMemory="True">').replace(b"<Key>", b"<Key >"),
    lambda b: _whole(b).replace(b"<Key>", b"<Meta><Key>no</Key><Data>AAAA</Data></Meta><Key>"),
    lambda b: _whole(b).replace(b"<Data>", b"<!-- the key --><Data>"),
    lambda b: _whole(b).replace(b"<Data>", b"<data>AAAA</data><Data>"),
    lambda b: _whole(b).replace(b"\n", b"\r\n"),
    lambda b: _whole(b).replace(b"\n", b""),
    lambda b: _whole(b"\t\t" + b + b" \r\n"),
    lambda b: _whole(b) + b"<!-- end -->\n\n",
]


def spelled(n):
    """One key, however its file is spelled."""
    def f(r):
        for i, doc in enumerate(SPELLINGS):
            k = "k%d" % i
            new(r, k, b"password") if (i + n) % 2 else new(r, k)
            kf(r, k, "raw", Y.hex().encode())
            kf(r, k, "xml", base64.b64encode(X), doc)
            derive(r, k, bytes([i]) * 32, 1, "kdbx" if i % 3 else "kdb")
    return f


def none_of_them(_):
    """A key meets every document that is no key file, and stays as it was."""
    def f(r):
        for i, doc in enumerate(no_key(base64.b64encode(X))):
            k = "k%d" % i
            if i % 2:
                new(r, k)
                kf(r, k, "raw", Y.hex().encode())
            else:
                new(r, k, b"password")
            kf(r, k, "raw", doc)
            derive(r, k, bytes([i]) * 32, 1, "kdbx" if i % 3 else "kdb")
    return f


def histories(hs):
    """Histories enumerated by the specification."""
    def f(r):
        for i, ops in enumerate(hs):
            first = ops[0]
            if i % 2 and first[0] == "pw":
                new(r, "k", {"a": b"a", "b": b"b", "empty": b""}[first[1]])
                ops = ops[1:]
            else:
                new(r, "k")
            for kind, v in ops:
                if kind == "pw":
                    pw(r, "k", {"a": b"a", "b": b"b", "empty": b""}[v])
                elif v in "xy":
                    key = X if v == "x" else Y
                    if i % 3 == 0:
                        kf(r, "k", "raw", key.hex().encode())
                    elif i % 3 == 1:
                        kf(r, "k", "raw", key.hex().upper().encode())
                    else:
                        kf(r, "k", "xml", base64.b64encode(key), DOC[i % len(DOC)])
                elif v == "missing":
                    kf(r, "k", "missing")
                elif v == "bad":
                    kf(r, "k", "raw", (X.hex()[:62] + "0g").encode())
                else:
                    kf(r, "k", "xml", base64.b64encode(Y[:31]))
            some = any(o == "pw" or v in "xy" for o, v in hs[i])
            derive(r, "k", bytes([i & 255]) * 32, i % 3, "kdbx")
            if some:
                derive(r, "k", bytes(range(32)), (i + 1) % 3, "kdb")
    return f


def derivations(seed, n, rounds):
    """Several keys at once, all seeds and round counts."""
    def f(r):
        rnd = random.Random(seed)
        names = ["a", "b", "c"]
        for k in names:
            new(r, k)
            how = rnd.randrange(3)
            if how != 1:
                pw(r, k, rnd.randbytes(rnd.choice([0, 1, 8, 32, 55, 56, 64, 100])))
            if how != 0:
                kf(r, k, "raw", rnd.choice([X, Y, bytes(31) + b"\1", rnd.randbytes(32)]).hex().encode())
        for _ in range(n):
            s = rnd.choice([bytes(32), b"\xff" * 32, X, rnd.randbytes(32)])
            derive(r, rnd.choice(names), s, rnd.choice(rounds), rnd.choice(["kdbx", "kdb"]))
    return f


def far(seed, rounds):
    """Round counts the specification does not compute itself."""
    def f(r):
        rnd = random.Random(seed)
        new(r, "k")
        pw(r, "k", rnd.randbytes(9))
        if seed % 2:
            kf(r, "k", "raw", X.hex().encode())
        for n in rounds:
            s, mode, m = rnd.randbytes(32), rnd.choice(["kdbx", "kdb"]), rnd.choice([1, 2, 5])
            digest = [e["v"] for e in r.ev if e["e"] == "pw"][-1]
            parts = [C.sha256(bytes(digest))] + ([X] if seed % 2 else [])
            k = C.sha256(b"".join(parts)) if mode == "kdbx" or len(parts) == 2 else parts[0]
            y = [C.aes_iterate(s, k[:16], i) + C.aes_iterate(s, k[16:], i) for i in (m, n)]
            a = r.do("transform", k="k", seed=s.hex(), rounds=str(n), mode=mode)
            r.event("far", k="k", seed=list(s), n=str(n), m=m, mode=mode, near=list(y[0]), y=list(y[1]), out=a["out"], key=prim.unhex(a.get("key", "")))
    return f


def beyond(n):
    """Counts of 2^32 and more."""
    def f(r):
        new(r, "k")
        pw(r, "k", b"x")
        a = r.do("transform", k="k", seed="55" * 32, rounds=str(n), mode="kdbx")
        r.event("beyond", n=str(n), out=a["out"], key=prim.unhex(a.get("key", "")))
    return f


def bitseeds(lo):
    """Each bit of the seed counts."""
    def f(r):
        new(r, "k")
        pw(r, "k", b"x")
        for i in range(lo, lo + 16):
            derive(r, "k", (1 << i).to_bytes(32, "big"), 1 + i % 2, ["kdbx", "kdb"][i % 2])
    return f


def published(r):
    for m in (b"", b"abc", b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", b"a" * 119, b"a" * 120, b"a" * 64):
        r.event("digest", x=list(m), y=list(hashlib.sha256(m).digest()))


def run(c):
    cfg = "CONSTANT Steps = %d\nINIT Init\nNEXT Next\nINVARIANTS LastCounts Emit\n" % c.pick(3, 4)
    ls = c.model("KeyGen", cfg, "every history of a key object: the last usable setting of each part counts", env={"EMIT": "1"})
    hs = sorted(json.loads(l[5:]) for l in ls if l.startswith("@OPS "))
    n = c.pick(16, 64)
    s = c.seed * 1000
    cases = [Case("published", published)]
    cases += [Case("histories-%d" % i, histories(hs[i::n])) for i in range(n)]
    cases += [Case("files-%d" % i, files(s + i)) for i in range(c.pick(40, 400))]
    cases += [Case("no-key-file", none_of_them(0))]
    cases += [Case("spelled-%d" % i, spelled(i)) for i in range(2)]
    cases += [Case("rounds-%d" % i, derivations(s + i, 8, [0, 1, 2, 3, 7, 10, 64])) for i in range(c.pick(12, 100))]
    cases += [Case("bit-%d" % i, bitseeds(i)) for i in range(0, 256, 16)]
    cases += [Case("many-%d" % i, derivations(s + 700 + i, 2, c.pick([255, 256, 257, 1000], [255, 257, 1000, 6000, 65537]))) for i in range(c.pick(4, 16))]
    prim.validate(c, "KeyTrace", cases, "key objects")
    cases = [Case("far-%d" % i, far(s + i, [n])) for i, n in enumerate(c.pick([6000, 65535, 65536, 65541, 1 << 20, (1 << 24) + 5],
                                                                              [6000, 65535, 65536, 65541, (1 << 20) + 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 5,
                                                                               (1 << 25) + 3, (1 << 26) + 1]))]
    cases += [Case("beyond-%d" % n, beyond(n), timeout=4) for n in c.pick([1 << 32, (1 << 32) + 2, (1 << 40) + 1, (1 << 63) + 1],
                                                                          [(1 << k) + d for k in (32, 33, 40, 48, 56, 63) for d in (0, 1, 3)])]
    prim.validate(c, "KeyTrace", cases, "round counts of all sizes")
