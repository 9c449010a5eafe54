"""C11: cipher block chaining and padding."""
import random
from .. import crypt as C, enc as E, prim
from ..check import Case


class Toy:
    def __init__(self, k):
        self.k = k

    def enc(self, x):
        t = [0] * 16
        for i in range(16):
            t[(i + 1) % 16] = (x[i] * 5 + self.k + i) & 255
        return bytes(t)


def chain(block, iv, p):
    """CBC without padding."""
    out, prev = b"", iv
    for i in range(0, len(p), 16):
        prev = block.enc(bytes(a ^ b for a, b in zip(p[i:i + 16], prev)))
        out += prev
    return out


class Obj:
    def __init__(self, r, cipher, key):
        self.r, self.cipher = r, cipher
        self.key = str(key) if cipher == "toy" else key.hex()
        self.block = Toy(key) if cipher == "toy" else C.block_cipher(cipher, key)
        r.event("make", cipher=cipher, key=[key] if cipher == "toy" else list(key))

    def do(self, dir, iv, x, skip=0, **kw):
        a = self.r.do("cbc", cipher=self.cipher, key=self.key, iv=iv.hex(), dir=dir, hex=(b"\x5a" * skip + x).hex(), skip=str(skip), **kw)
        return a

    def run(self, dir, iv, x, skip=0):
        a = self.do(dir, iv, x, skip)
        self.r.event(dir, iv=list(iv), x=list(x), out=a["out"], good=a.get("good", ""), y=prim.unhex(a.get("hex", "")))
        return bytes.fromhex(a.get("hex", ""))

    def full(self, dir, iv, x, room):
        a = self.do(dir, iv, x, limit=str(room))
        self.r.event("full", dir=dir, iv=list(iv), x=list(x), out=a["out"], good=a.get("good", ""), y=prim.unhex(a.get("hex", "")))


def newkey(rnd, cipher):
    return rnd.randrange(256) if cipher == "toy" else rnd.randbytes(32)


def lengths(cipher, seed, lo, hi):
    """Every length, there and back, from any place of a stream."""
    def f(r):
        rnd = random.Random(seed)
        o = Obj(r, cipher, newkey(rnd, cipher))
        for n in range(lo, hi):
            iv, d = rnd.randbytes(16), rnd.choice([rnd.randbytes(n), bytes(n), bytes([rnd.randrange(1, 18)]) * n])
            skip = rnd.choice([0, 0, 1, 16, 124])
            y = o.run("enc", iv, d, skip)
            o.run("dec", iv, y, rnd.choice([0, 0, 1, 124]))
    return f


def endings(cipher, seed, blocks, step=1):
    """Texts whose last block ends in every byte value, with and without matching bytes before it."""
    def f(r):
        rnd = random.Random(seed)
        o = Obj(r, cipher, newkey(rnd, cipher))
        for v in range(0, 256, step):
            iv = rnd.randbytes(16)
            pre = rnd.randbytes(16 * (blocks - 1))
            if v <= 16 or v in (17, 31, 32, 240, 255):
                last = rnd.randbytes(16 - min(v, 16)) + bytes([v]) * min(v, 16)
                o.run("dec", iv, chain(o.block, iv, pre + last[:15] + bytes([v])))
            if 2 <= v <= 16:                                # one byte of the padding is wrong
                for i in {16 - v, 14, rnd.randrange(16 - v, 15)}:
                    b = bytearray(last)
                    b[i] ^= 1 << rnd.randrange(8)
                    o.run("dec", iv, chain(o.block, iv, pre + bytes(b)))
            o.run("dec", iv, chain(o.block, iv, pre + rnd.randbytes(15) + bytes([v])))
    return f


def odd(cipher, seed, n):
    """Texts that are no whole number of blocks, empty ones, and arbitrary ones."""
    def f(r):
        rnd = random.Random(seed)
        o = Obj(r, cipher, newkey(rnd, cipher))
        o.run("dec", rnd.randbytes(16), b"")
        o.run("dec", rnd.randbytes(16), b"", 32)
        for i in range(n):
            iv = rnd.randbytes(16)
            y = chain(o.block, iv, C.pad(rnd.randbytes(rnd.randrange(60))))
            k = i % 4
            if k == 0:
                y = y[:rnd.randrange(len(y))]
            elif k == 1:
                y += rnd.randbytes(rnd.randrange(1, 16))
            elif k == 2:
                b = bytearray(y)
                b[rnd.randrange(len(b))] ^= 1 << rnd.randrange(8)
                y = bytes(b)
            else:
                y = rnd.randbytes(rnd.randrange(50))
            o.run("dec", iv, y)
    return f


def repeats(cipher, seed, n):
    """Texts with equal blocks in a row, blocks equal to the initialization vector, all zeros; and messages that encrypt to such."""
    def f(r):
        rnd = random.Random(seed)
        o = Obj(r, cipher, newkey(rnd, cipher))
        for _ in range(n):
            iv = rnd.choice([bytes(16), b"\xff" * 16, rnd.randbytes(16)])
            pool = [iv, bytes(16), rnd.randbytes(16), rnd.randbytes(16)]
            y = b""
            for _ in range(rnd.randrange(1, 6)):
                y += rnd.choice(pool) * rnd.choice([1, 1, 2, 3])
            k = rnd.randrange(1, 17)
            y += o.block.enc(bytes(a ^ b for a, b in zip(rnd.randbytes(16 - k) + bytes([k]) * k, y[-16:])))
            a = o.run("dec", iv, y)
            o.run("enc", iv, a)
            w = rnd.choice([iv, bytes(16), rnd.randbytes(16)])
            o.run("enc", iv, w * rnd.randrange(1, 5) + w[:rnd.randrange(16)])
    return f


def full(cipher, seed, n):
    def f(r):
        rnd = random.Random(seed)
        o = Obj(r, cipher, newkey(rnd, cipher))
        for _ in range(n):
            iv, d = rnd.randbytes(16), rnd.randbytes(rnd.randrange(70))
            y = o.run("enc", iv, d)
            o.full("enc", iv, d, rnd.randrange(len(y) + 2))
            o.full("dec", iv, y, rnd.randrange(len(d) + 2))
    return f


def mixed(cipher, seed, n):
    """One key, many uses in any order."""
    def f(r):
        rnd = random.Random(seed)
        o = Obj(r, cipher, newkey(rnd, cipher))
        ys = []
        for _ in range(n):
            if ys and rnd.random() < .5:
                o.run("dec", *rnd.choice(ys))
            else:
                iv = rnd.choice([bytes(16), b"\xff" * 16, rnd.randbytes(16)])
                ys.append((iv, o.run("enc", iv, rnd.randbytes(rnd.randrange(100)))))
    return f


def large(cipher, seed, n):
    def f(r):
        rnd = random.Random(seed)
        o = Obj(r, cipher, newkey(rnd, cipher))
        iv, d = rnd.randbytes(16), rnd.randbytes(n)
        want = chain(o.block, iv, C.pad(d))
        a = o.do("enc", iv, d)
        r.event("large", what="enc", got=[a["out"], a.get("good", ""), E.enc(bytes.fromhex(a.get("hex", "")))], want=["ok", "true", E.enc(want)])
        a = o.do("dec", iv, want)
        r.event("large", what="dec", got=[a["out"], a.get("good", ""), E.enc(bytes.fromhex(a.get("hex", "")))], want=["ok", "true", E.enc(d)])
    return f


def run(c):
    m = c.pick(4, 5)
    c.model("CbcGen", "CONSTANT Max = %d\nINIT Init\nNEXT Next\nINVARIANTS Inverse2 Exact Length Count\n" % m,
            "all messages and texts up to %d bytes with a two-byte block" % m)
    s = c.seed * 1000
    cases = []
    for ci in ("toy", "aes", "twofish"):
        top = {"toy": 290, "aes": 100, "twofish": 100}[ci] * c.pick(1, 4)
        for lo in range(0, top, 34):
            cases.append(Case("lengths-%s-%d" % (ci, lo), lengths(ci, s + lo, lo, min(top, lo + 34))))
        for b in (1, 2, 4):
            cases.append(Case("endings-%s-%d" % (ci, b), endings(ci, s + b, b, 1 if ci == "toy" else c.pick(5, 1))))
        for i in range(c.pick(2, 20)):
            cases.append(Case("odd-%s-%d" % (ci, i), odd(ci, s + i, 24)))
            cases.append(Case("full-%s-%d" % (ci, i), full(ci, s + i, 8)))
            cases.append(Case("repeats-%s-%d" % (ci, i), repeats(ci, s + i, 14)))
            cases.append(Case("mixed-%s-%d" % (ci, i), mixed(ci, s + i, 16)))
        for n in (4095, 4096, 8192, 65535, 65536) + (() if ci == "twofish" else (1000000,)):
            cases.append(Case("large-%s-%d" % (ci, n), large(ci, s + n, n)))
    prim.validate(c, "CbcTrace", cases, "encrypted streams")
