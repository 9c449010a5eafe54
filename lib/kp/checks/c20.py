"""C20: AES-256, Twofish-256 and Salsa20 as published."""
import random
from .. import crypt as C, prim
from ..check import Case

AESKAT = ("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f", "00112233445566778899aabbccddeeff",
          "8ea2b7ca516745bfeafc49904b496089")
TFKAT = ("0123456789abcdeffedcba987654321000112233445566778899aabbccddeeff", "00" * 16, "37527be0052334b89f0cfccae87cfa20")


def known(r):
    for cipher, (k, p, x) in (("aes", AESKAT), ("twofish", TFKAT)):
        blocks(r, cipher, bytes.fromhex(k), [("enc", bytes.fromhex(p), False), ("dec", bytes.fromhex(x), False)])
        r.event("known", cipher=cipher, dir="enc", x=prim.unhex(p), y=prim.unhex(x))
        r.event("known", cipher=cipher, dir="dec", x=prim.unhex(x), y=prim.unhex(p))
    z = "e3be8fdd8beca2e3ea8ef9475b29a6e7003951e1097a5c38d23b7a5fad9f6844b22c97559e2723c7cbbd3fe4fc8d9a0744652a83e72a9c461876af4d7ef1a117"
    r.event("make", cipher="salsa", key=[128] + [0] * 31, iv=[0] * 8)
    r.event("salsa", x=[0] * 64, y=prim.unhex(z))


def blocks(r, cipher, key, ops, iv=bytes(16)):
    r.event("make", cipher=cipher, key=list(key), iv=[])
    a = r.do("block", cipher=cipher, key=key.hex(), iv=iv.hex(),
             ops=[{"hex": x.hex(), "dir": d, "alias": "true" if al else "false"} for d, x, al in ops])
    for (d, x, _), y in zip(ops, a.get("blocks", [""] * len(ops))):
        r.event("block", cipher=cipher, dir=d, x=list(x), y=prim.unhex(y))


def bits(n, i):
    return (1 << (8 * n - 1 - i)).to_bytes(n, "big")


def patterns(rnd, n):
    k = rnd.random()
    if k < .15:
        return bytes([rnd.randrange(256)]) * n
    if k < .3:
        return bits(n, rnd.randrange(8 * n))
    if k < .4:
        return bytes(x ^ 255 for x in bits(n, rnd.randrange(8 * n)))
    if k < .5:
        o = rnd.randrange(256)
        return bytes((o + i) & 255 for i in range(n))
    return rnd.randbytes(n)


def mixed(cipher, seed, nkeys, nops):
    def f(r):
        rnd = random.Random(seed)
        for _ in range(nkeys):
            ops = []
            for _ in range(nops):
                x = rnd.choice(ops)[1] if ops and rnd.random() < .3 else patterns(rnd, 16)
                ops.append((rnd.choice(["enc", "dec"]), x, rnd.random() < .25))
            blocks(r, cipher, patterns(rnd, 32), ops, rnd.randbytes(16))
    return f


def onebit(cipher, lo, hi):
    """Keys, and blocks, that differ in one bit from zero."""
    def f(r):
        for i in range(lo, hi):
            blocks(r, cipher, bits(32, i), [("enc", bits(16, i % 128), False), ("dec", bytes(16), False)])
    return f


def bytevalues(cipher, lo, hi):
    """Every byte value at every place passes the tables."""
    def f(r):
        for v in range(lo, hi):
            blocks(r, cipher, bytes((v + 7 * i) & 255 for i in range(32)),
                   [("enc", bytes((v + 16 * i + i) & 255 for i in range(16)), False), ("dec", bytes([v]) * 16, True)])
    return f


CORNER = [0, 0, 0xffffffff, 1, 0x80000000, 0x7fffffff, 0xff, 0xff000000, 0xffff, 0xffff0000]


def inside(seed, lo, hi):
    """Blocks that have corner values as words in the middle of Twofish, where no plain pattern leads."""
    def f(r):
        rnd = random.Random(seed)
        for n in range(lo, hi):
            key = patterns(rnd, 32)
            tf = C.Twofish(key)
            ops = []
            for w in range(4):
                for v in (0, 0xffffffff, rnd.choice(CORNER)):
                    st = [rnd.getrandbits(32) for _ in range(4)]
                    st[w] = v
                    if rnd.random() < .3:
                        st[rnd.randrange(4)] = rnd.choice(CORNER)
                    x = tf.through(st, n)
                    ops += [("enc", x, False), ("dec", tf.enc(x), rnd.random() < .3)]
            ops.append(("enc", tf.through([rnd.choice([0, 0xffffffff])] * 4, n), False))
            blocks(r, "twofish", key, ops)
    return f


def salsa(seed, n, key=None, iv=None):
    def f(r):
        rnd = random.Random(seed)
        k, v = key or patterns(rnd, 32), iv or patterns(rnd, 8)
        r.event("make", cipher="salsa", key=list(k), iv=list(v))
        xs = [bytes(64) if rnd.random() < .3 else rnd.randbytes(64) for _ in range(n)]
        a = r.do("salsa", key=k.hex(), iv=v.hex(), src=[x.hex() for x in xs])
        skip = 0
        for i, (x, y) in enumerate(zip(xs, a.get("blocks", [""] * n))):
            if n > 400 and i not in (0, 1, 254, 255, 256, 257, 65535, 65536, 65537, n - 1) and rnd.random() > 30 / n:
                skip += 1
                continue
            if skip:
                r.event("far", n=skip)
                skip = 0
            r.event("salsa", x=list(x), y=prim.unhex(y))
    return f


def two(seed, n):
    def f(r):
        rnd = random.Random(seed)
        for _ in range(n):
            k, x = patterns(rnd, 32), patterns(rnd, 32)
            if rnd.random() < .3:
                x = x[:16] * 2
            r.event("make", cipher="aes", key=list(k), iv=[])
            for d in ("enc", "dec"):
                y = r.do("ecb", cipher="aes", key=k.hex(), iv=rnd.randbytes(16).hex(), dir=d, hex=x.hex())
                r.event("two", dir=d, x=list(x), y=prim.unhex(y.get("hex", "")))
    return f


def run(c):
    cases = [Case("published", known)]
    s = c.seed * 1000
    for ci in ("aes", "twofish"):
        for i in range(c.pick(48, 400)):
            cases.append(Case("mixed-%s-%d" % (ci, i), mixed(ci, s + i, c.pick(8, 20), 8)))
        for i in range(0, 256, 32):
            cases.append(Case("onebit-%s-%d" % (ci, i), onebit(ci, i, i + 32)))
            cases.append(Case("values-%s-%d" % (ci, i), bytevalues(ci, i, i + 32)))
    for k in range(c.pick(2, 12)):
        for n in range(0, 17, 3):
            cases.append(Case("inside-%d-%d" % (k, n), inside(s + 40 * k + n, n, min(n + 3, 17))))
    for i in range(c.pick(32, 200)):
        cases.append(Case("salsa-%d" % i, salsa(s + i, [1, 2, 5, 20][i % 4])))
    cases.append(Case("salsa-300", salsa(s + 200, 300)))
    for i in range(c.pick(1, 6)):
        cases.append(Case("salsa-far-%d" % i, salsa(s + 300 + i, c.pick(4000, 70000))))
    for i in range(4):
        cases.append(Case("two-%d" % i, two(s + i, c.pick(6, 60))))
    prim.validate(c, "CryptoTrace", cases, "cipher objects")
