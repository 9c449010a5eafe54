"""C09: hashed block streams."""
import hashlib, json, random, struct
from .. import enc as E, prim
from ..check import Case


def stream(data, bs):
    """The stream as blocks (for building input)."""
    p = [data[i:i + bs] for i in range(0, len(data), bs)]
    return [struct.pack("<I", i) + hashlib.sha256(d).digest() + struct.pack("<I", len(d)) + d for i, d in enumerate(p)] + \
           [struct.pack("<I", len(p)) + bytes(36)]


def parse(b):
    out, data, p = [], b"", 0
    while p + 40 <= len(b):
        i, n = struct.unpack_from("<I", b, p)[0], struct.unpack_from("<I", b, p + 36)[0]
        h, d = b[p + 4:p + 36], b[p + 40:p + 40 + n]
        out.append([i, n, "zero" if h == bytes(32) else "ok" if hashlib.sha256(d).digest() == h else "bad"])
        data += d
        p += 40 + n
        if n == 0:
            break
    return out, data, len(b) - p


def write(r, chunks, bs, room=None):
    kw = {} if room is None else {"limit": str(room)}
    a = r.do("hashw", chunks=[E.raw(x) for x in chunks], bs=str(bs), **kw)
    data = b"".join(chunks)
    out = bytes.fromhex(a.get("hex", ""))
    if room is not None:
        r.event("full", data=list(data), bs=bs, room=room, out=a["out"], bytes=list(out))
    else:
        r.event("write", data=list(data), bs=bs, out=a["out"], bytes=list(out))
    return out


def read(r, b, sizes, feed="4096"):
    a = r.do("hashr", hex=b.hex(), sizes=[str(x) for x in sizes], feed=feed)
    r.event("read", bytes=list(b), out=a["out"], data=prim.unhex(a.get("_raw", "")))


SIZES = [[65536], [0], [1], [2, 3], [7], [1, 0, 5], [41]]


def changed(bl, ch, unit, toyhead):
    """The change of the specification made to real blocks (a data byte of the model is unit bytes)."""
    k, i, j = ch
    b = list(bl)
    n = len(b)
    if k == "swap":
        b[i - 1], b[j - 1] = b[j - 1], b[i - 1]
    elif k == "drop":
        del b[i - 1]
    elif k == "repeat":
        b.insert(i, b[i - 1])
    elif k == "move":
        x = b.pop(i - 1)
        b.insert(j - 1, x)
    elif k == "number":
        b[i - 1] = struct.pack("<I", j) + b[i - 1][4:]
    elif k == "byte":
        x = bytearray(b[i - 1])
        at = j - 1 if j < 6 else 4 if j == 6 else 35 if j <= toyhead - 4 else 40 + (j - toyhead - 1) * unit
        if at < len(x):
            x[at] ^= 1 << (i + j) % 8
        b[i - 1] = bytes(x)
    elif k == "cut":
        at = j if j < 2 else 39 if j == toyhead - 1 else 40 if j == toyhead else 41
        b = b[:i - 1] + [b[i - 1][:at]]
    elif k == "join":
        b[i - 1] = b[i - 1][:-1]
    return b"".join(b)


def enumerated(runs, unit, toyhead):
    def f(r):
        done = {}
        for i, x in enumerate(runs):
            n = sum(x["writes"]) * unit
            data = bytes((37 * k + 11 + n) & 255 for k in range(n))
            bs = x["bs"] * unit
            k = (bs, tuple(x["writes"]))
            if k not in done:
                p, ch = 0, []
                for w in x["writes"]:
                    ch.append(data[p:p + w * unit])
                    p += w * unit
                done[k] = write(r, ch, bs)
            read(r, changed(stream(data, bs), x["change"], unit, toyhead), SIZES[i % len(SIZES)], ["4096", "1", "3", "40"][i % 4])
    return f


def sampled(seed, n):
    def f(r):
        rnd = random.Random(seed)
        for _ in range(n):
            bs = rnd.choice([1, 2, 3, 5, 16, 40, 63, 64, 65, 100])
            m = max(0, bs * rnd.randrange(0, 5) + rnd.choice([-1, 0, 0, 1, bs // 2]))
            if bs > 20:
                m = min(m, 300)
            data = rnd.choice([bytes(m), b"\xff" * m, rnd.randbytes(m)])
            ch, p = [], 0
            while p < m:
                k = rnd.choice([1, 1, 2, bs - 1 or 1, bs, bs + 1, 2 * bs, 1000])
                ch.append(data[p:p + k])
                p += k
                if rnd.random() < .1:
                    ch.append(b"")
            if rnd.random() < .2:
                write(r, ch, bs, rnd.randrange(0, m + 90))
            out = write(r, ch, bs)
            read(r, out, rnd.choice(SIZES))
            if out:
                for _ in range(3):
                    x = bytearray(out)
                    w = rnd.randrange(5)
                    i = rnd.randrange(len(x))
                    if w == 0:
                        x[i] ^= 1 << rnd.randrange(8)
                    elif w == 1:
                        x = x[:i]
                    elif w == 2:
                        del x[i]
                    elif w == 3:
                        x.insert(i, rnd.randrange(256))
                    else:
                        x += rnd.choice([b"\0", bytes(40), rnd.randbytes(50), bytes(out)])
                    read(r, bytes(x), rnd.choice(SIZES), rnd.choice(["4096", "1", "17"]))
    return f


def cuts(seed):
    """Cut at every place; every bit of one stream changed."""
    def f(r):
        rnd = random.Random(seed)
        bs = rnd.choice([3, 8, 20])
        data = rnd.randbytes(bs * 2 + seed % 2)
        out = b"".join(stream(data, bs))
        for i in range(len(out)):
            read(r, out[:i], SIZES[i % len(SIZES)])
            x = bytearray(out)
            x[i] ^= 1 << rnd.randrange(8)
            read(r, bytes(x), SIZES[(i + 1) % len(SIZES)])
    return f


def forged(seed):
    """Streams built to deceive: hashes that fit what is there while sizes, numbers or the end do not."""
    def f(r):
        rnd = random.Random(seed)

        def blk(i, d, n=None, h=None):
            return struct.pack("<I", i) + (hashlib.sha256(d).digest() if h is None else h) + struct.pack("<I", len(d) if n is None else n) + d
        end = lambda i, h=bytes(32): blk(i, b"", h=h)
        for _ in range(6):
            a, b = rnd.randbytes(rnd.choice([1, 5, 20])), rnd.randbytes(rnd.choice([1, 3, 30]))
            k = rnd.choice([1, 2, 5, 100, 65536])
            n = len(b) + k
            i = rnd.randrange(2)
            first = blk(0, a) if i else b""
            # the second block lacks some of its data; what a reader may put in its place
            for fill in (b"", b"\xff", b"\xff" * k, b"\0", b"\0" * k, a[:k], b[:k]):
                h = hashlib.sha256(b + fill).digest()
                read(r, first + blk(i, b, n, h), rnd.choice(SIZES), rnd.choice(["4096", "1"]))
            read(r, first + blk(i, b, len(b) - 1) + end(i + 1), rnd.choice(SIZES))
            read(r, first + blk(i, b, len(b) - 1, hashlib.sha256(b[:-1]).digest()) + end(i + 1), rnd.choice(SIZES))
            # numbers
            for j in (i + 1, i + 256, i + 65536, i + (1 << 24), (1 << 32) - 1, max(0, i - 1)):
                if j != i:
                    read(r, first + blk(j, b) + end(j + 1 & 0xffffffff), rnd.choice(SIZES))
            for j in (i, i + 2, i + 257, 0, (1 << 32) - 1):
                if j != i + 1:
                    read(r, first + blk(i, b) + end(j), rnd.choice(SIZES))
            # ends
            e = hashlib.sha256(b"").digest()
            z = bytearray(32)
            z[rnd.randrange(32)] = rnd.randrange(1, 256)
            for h in (e, bytes(z), b"\0" * 31 + b"\1", b"\x80" + bytes(31), b"\xff" * 32):
                read(r, first + blk(i, b) + end(i + 1, h), rnd.choice(SIZES))
                read(r, first + blk(i, b) + end(i + 1, h) + end(i + 2), rnd.choice(SIZES))
            read(r, first + blk(i, b), rnd.choice(SIZES))
            read(r, first + blk(i, b) + end(i + 1)[:-1], rnd.choice(SIZES))
            read(r, first + blk(i, b) + end(i + 1)[:36] + b"\1\0\0\0", rnd.choice(SIZES))
            read(r, first + end(i) + blk(i + 1, b) + end(i + 2), rnd.choice(SIZES))
            # a hash of zeros, of something else, of everything so far
            for h in (bytes(32), e, hashlib.sha256(a).digest(), hashlib.sha256(first + b).digest(), hashlib.sha256(a + b).digest()):
                read(r, first + blk(i, b, h=h) + end(i + 1), rnd.choice(SIZES))
    return f


def large(n, bs, chunk, default=False):
    def f(r):
        data = E.pattern(n, n & 255)
        ch = [data[i:i + chunk] for i in range(0, n, chunk)]
        a = r.do("hashw", chunks=[E.raw(x) for x in ch], **({} if default else {"bs": str(bs)}))
        out = bytes.fromhex(a.get("hex", ""))
        bl, d, rest = parse(out)
        r.event("large", size=n, bs=bs, out=a["out"], blocks=bl, got=E.enc(d), want=E.enc(data), rest=rest)
        for s in ([65536], [0], [1000, 1, 7]):
            b = b"".join(stream(data, bs))
            y = r.do("hashr", hex=b.hex(), sizes=[str(x) for x in s], feed="4096")
            r.event("largeread", out=y["out"], got=y.get("data", ""), want=E.enc(data))
    return f


def spoilt(size, bs, seed):
    """Large blocks damaged in one place."""
    def f(r):
        rnd = random.Random(seed)
        data = E.pattern(size, size & 255)
        bl = stream(data, bs)
        at = [0]
        for b in bl:
            at.append(at[-1] + len(b))
        for k in range(len(bl)):
            places = [0, 3, 4, 35] + ([40, len(bl[k]) - 1, rnd.randrange(40, len(bl[k]))] if len(bl[k]) > 40 else [36, 39])
            if len(bl[k]) > 65576:
                places += [40 + 65535, 40 + 65536]
            for p in places:
                x = bytearray(b"".join(bl))
                x[at[k] + p] ^= 1 << rnd.randrange(8)
                y = r.do("hashr", hex=bytes(x).hex(), sizes=["65536"], feed="4096")
                n = int(y.get("len", "0"))
                r.event("largebad", out=y["out"], got=y.get("data", ""), want=E.enc(data[:min(n, k * bs)]), place=[k, p])
    return f


def run(c):
    md, mb = c.pick(4, 5), 3
    cfg = "CONSTANTS MaxData = %d MaxBlock = %d\nINIT Init\nNEXT Next\nINVARIANTS Exact Readable Guarded Emit\n" % (md, mb)
    ls = c.model("HashedGen", cfg, "writers in pieces and one change to the blocks, exhaustively", env={"EMIT": "1"})
    runs = sorted((json.loads(l[5:]) for l in ls if l.startswith("@RUN ")), key=lambda x: json.dumps(x))
    random.Random(c.seed).shuffle(runs)
    runs = runs[:c.pick(3000, 20000)]
    n = c.pick(16, 64)
    s = c.seed * 1000
    cases = [Case("all-%d" % i, enumerated(runs[i::n], [1, 3, 17][i % 3], 8 + md + 1)) for i in range(n)]
    cases += [Case("sampled-%d" % i, sampled(s + i, c.pick(10, 60))) for i in range(c.pick(8, 40))]
    cases += [Case("cuts-%d" % i, cuts(s + i)) for i in range(c.pick(4, 16))]
    cases += [Case("forged-%d" % i, forged(s + i)) for i in range(c.pick(8, 60))]
    M = 1 << 20
    for k, (m, bs, ch) in enumerate([(70000, 65536, 1000), (65536, 65536, 65536), (100000, 16384, 4096), (33, 32, 1), (5000, 1000, 4999), (131072, 32768, 77777)]):
        cases.append(Case("large-%d" % k, large(m, bs, ch)))
    for k, (m, bs) in enumerate([(M + 10, M + 1), (2 * M + 100, 2 * M)] + c.pick([], [(5 * M, 4 * M + 7), (3 * M, 3 * M)])):
        cases.append(Case("long-%d" % k, large(m, bs, 65536)))
    for k, m in enumerate([0, 10, M - 1, M, M + 1] + c.pick([], [2 * M, 2 * M + 5, 3 * M - 1])):
        cases.append(Case("default-%d" % k, large(m, M, 65536, True)))
    for k, (m, bs) in enumerate([(70000, 65537), (200001, 65536), (100000, 99999)] + c.pick([], [(M + 10, M), (300000, 131072)])):
        cases.append(Case("spoilt-%d" % k, spoilt(m, bs, s + k)))
    prim.validate(c, "HashedTrace", cases, "streams")
