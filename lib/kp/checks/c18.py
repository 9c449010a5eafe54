"""C18: base64."""
import base64, json, random
from .. import prim
from ..check import Case

WS = b" \t\r\n\v\f"


def enc(r, b):
    y = r.do("b64e", hex=b.hex())
    t = y.get("text", "")
    r.event("enc", b=list(b), t=list(t.encode("utf-8", "replace")))


def dec(r, t):
    y = r.do("b64d", hex=t.hex())
    r.event("dec", t=list(t), out=y["out"], b=prim.unhex(y.get("hex", "")), same=y.get("same", ""))


def fixed(r, t):
    y = r.do("b64f", hex=t.hex())
    r.event("fixed", t=list(t), out=y["out"], b=prim.unhex(y.get("hex", "")), guard=y.get("guard", ""))


def texts(ts):
    def f(r):
        for t in ts:
            dec(r, t)
            fixed(r, t)
    return f


def allbytes(lo, hi):
    """Every value in every place of a group; every character in every place of a text."""
    def f(r):
        for v in range(lo, hi):
            for a in (bytes([v]), bytes([v, 255 - v]), bytes([255 - v, v]), bytes([1, v, 2]), bytes([3, 4, v]), bytes([v, v, v, v])):
                enc(r, a)
            for t in (b"QUJD", b"QUI=", b"QQ=="):
                for i in range(4):
                    x = bytearray(t)
                    x[i] = v
                    dec(r, bytes(x))
                    fixed(r, bytes(x))
                    dec(r, b"AAAA" + bytes(x) + b"AAAA"[:4 * (v % 2)])
    return f


def spoil(rnd, t):
    k = rnd.randrange(9)
    i = rnd.randrange(len(t) + 1)
    if k == 0:
        return t[:i]
    if k == 1:
        return t[:i] + bytes([rnd.choice(b"=-_!.\0\x80\xff\xc2ABz/+")]) + t[i + 1:]
    if k == 2:
        return t + rnd.choice([b"=", b"==", b"====", b"A", b"AA", b"QQ=="])
    if k == 3:
        return t[:i] + b"=" + t[i:]
    if k == 4:
        return t[:i // 4 * 4] + b"QQ==" + t[i // 4 * 4:]
    if k == 5:
        return b"=" * rnd.randrange(1, 6) + t
    if k == 6:
        return t.rstrip(b"=")
    return t


def spread(rnd, t):
    out = bytearray()
    for ch in t:
        while rnd.random() < .2:
            out.append(rnd.choice(WS))
        out.append(ch)
    while rnd.random() < .4:
        out.append(rnd.choice(WS))
    return bytes(out)


def sampled(seed, n, size):
    def f(r):
        rnd = random.Random(seed)
        for _ in range(n):
            b = rnd.randbytes(rnd.randrange(size))
            if rnd.random() < .2:
                b = bytes([rnd.choice([0, 255, 0xfb, 0xff])]) * len(b)
            enc(r, b)
            t = base64.b64encode(b)
            dec(r, t)
            t = spoil(rnd, t)
            if rnd.random() < .6:
                t = spread(rnd, t)
            dec(r, t)
            fixed(r, t)
    return f


def edge():
    """Around the size of the fixed destination."""
    def f(r):
        for n in range(0, 20):
            b = bytes(range(n))
            t = base64.b64encode(b)
            fixed(r, t)
            fixed(r, b" " + t + b"\n")
            fixed(r, t[:-1])
            fixed(r, t + b"QQ==")
            fixed(r, t.rstrip(b"=") + b"A")
    return f


def run(c):
    cfg = "CONSTANTS MaxBytes = %d MaxText = %d\nINIT Init\nNEXT Next\nINVARIANTS DecodesBack BackAgain Emit\n" % (c.pick(4, 6), c.pick(5, 6))
    ls = c.model("Base64Gen", cfg, "all byte sequences and texts over small alphabets up to a length: decoding inverts encoding", env={"EMIT": "1"})
    ts = sorted({bytes(json.loads(l[3:])) for l in ls if l.startswith("@T ")})
    n = 16
    cases = [Case("short-%d" % i, texts(ts[i::n])) for i in range(n)]
    cases += [Case("values-%d" % i, allbytes(i, i + 16)) for i in range(0, 256, 16)]
    cases += [Case("sampled-%d" % i, sampled(c.seed * 1000 + i, c.pick(60, 400), 40)) for i in range(8)]
    cases += [Case("long-%d" % i, sampled(c.seed * 1000 + 500 + i, c.pick(3, 20), 3000)) for i in range(8)]
    cases.append(Case("edge", edge()))
    prim.validate(c, "Base64Trace", cases, "conversions")
