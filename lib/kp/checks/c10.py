"""C10: gzip streams."""
import gzip, random, struct, zlib
from .. import enc as E, prim
from ..check import Case

SIZES = [[65536], [0], [1], [2, 3], [7], [1, 0, 5], [41], [16384], [16383, 2]]


def member(data, rnd, level=None, strategy=None, flush=None, name=None, comment=None, extra=None, hcrc=False, text=False, raw=None):
    """A gzip member with the given header fields around deflated data."""
    flg = (1 if text else 0) | (2 if hcrc else 0) | (4 if extra is not None else 0) | (8 if name is not None else 0) | (16 if comment is not None else 0)
    h = b"\x1f\x8b\x08" + bytes([flg]) + struct.pack("<I", rnd.getrandbits(32)) + bytes([rnd.choice([0, 2, 4, 9]), rnd.choice([0, 3, 11, 255])])
    if extra is not None:
        h += struct.pack("<H", len(extra)) + extra
    if name is not None:
        h += name + b"\0"
    if comment is not None:
        h += comment + b"\0"
    if hcrc:
        h += struct.pack("<H", zlib.crc32(h) & 0xffff)
    if raw is None:
        z = zlib.compressobj(6 if level is None else level, zlib.DEFLATED, -15, rnd.choice([1, 8, 9]),
                             zlib.Z_DEFAULT_STRATEGY if strategy is None else strategy)
        raw = b""
        if flush:
            p = 0
            while p < len(data):
                n = rnd.randrange(1, len(data) + 1)
                raw += z.compress(data[p:p + n]) + z.flush(rnd.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_NO_FLUSH]))
                p += n
        else:
            raw = z.compress(data)
        raw += z.flush()
    return h + raw + struct.pack("<II", zlib.crc32(data), len(data) & 0xffffffff)


def stored(data, pieces):
    """Deflated data in stored blocks of the given sizes."""
    out, p = b"", 0
    for i, n in enumerate(pieces):
        out += bytes([1 if i == len(pieces) - 1 else 0]) + struct.pack("<HH", n, n ^ 0xffff) + data[p:p + n]
        p += n
    return out


def anymember(rnd, data):
    kw = {}
    if rnd.random() < .3:
        kw["name"] = rnd.choice([b"", b"file", b"a" * 30])
    if rnd.random() < .2:
        kw["comment"] = rnd.choice([b"", b"comment"])
    if rnd.random() < .2:
        kw["extra"] = rnd.choice([b"", b"\0" * 5, b"AB\x04\x001234"])
    kw["hcrc"] = rnd.random() < .2
    kw["text"] = rnd.random() < .2
    if rnd.random() < .2 and len(data) < 65536:
        cut = sorted(rnd.randrange(len(data) + 1) for _ in range(rnd.randrange(3)))
        ps = [b - a for a, b in zip([0] + cut, cut + [len(data)])]
        return member(data, rnd, raw=stored(data, ps), **kw)
    return member(data, rnd, level=rnd.choice([0, 1, 6, 9]), flush=rnd.random() < .3,
                  strategy=rnd.choice([zlib.Z_DEFAULT_STRATEGY, zlib.Z_FILTERED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE, zlib.Z_FIXED]), **kw)


def content(rnd, n):
    k = rnd.randrange(5)
    if k == 0:
        return bytes([rnd.randrange(256)]) * n
    if k == 1:
        return rnd.randbytes(n)
    if k == 2:
        return bytes(rnd.choice(b"abcdef \n<>/") for _ in range(n))
    if k == 3:
        w = [rnd.randbytes(rnd.randrange(1, 9)) for _ in range(4)]
        return b"".join(rnd.choice(w) for _ in range(n))[:n]
    return (b"<Entry><UUID>" + rnd.randbytes(5).hex().encode() + b"</UUID></Entry>") [:n] * (n // 40 + 1)


def write(r, chunks, room=None):
    kw = {} if room is None else {"limit": str(room)}
    a = r.do("gzw", chunks=[E.raw(x) for x in chunks], **kw)
    out = bytes.fromhex(a.get("hex", ""))
    d = b"".join(chunks)
    if room is None:
        r.event("write", data=list(d), out=a["out"], bytes=list(out))
    else:
        r.event("full", data=list(d), out=a["out"], bytes=list(out), room=room)
    return out


def read(r, b, sizes, feed="4096"):
    a = r.do("gzr", hex=b.hex(), sizes=[str(x) for x in sizes], feed=feed)
    r.event("read", bytes=list(b), out=a["out"], data=prim.unhex(a.get("_raw", "")))


def pieces(rnd, d):
    out, p = [], 0
    while p < len(d):
        n = rnd.choice([1, 1, 2, 7, 100, len(d)])
        out.append(d[p:p + n])
        p += n
    return out


def small(seed, n, size):
    def f(r):
        rnd = random.Random(seed)
        for _ in range(n):
            d = content(rnd, rnd.choice([0, 1, 2, 3, 10, rnd.randrange(size)]))[:600]
            ch = pieces(rnd, d)
            out = write(r, ch)
            read(r, out, rnd.choice(SIZES))
            if rnd.random() < .3:
                write(r, ch, rnd.randrange(0, len(out) + 1))
            m = anymember(rnd, d)
            read(r, m, rnd.choice(SIZES), rnd.choice(["4096", "1", "5"]))
            for _ in range(4):
                x = bytearray(m)
                k = rnd.randrange(6)
                i = rnd.randrange(len(x))
                if k < 2:
                    x = x[:i]
                elif k < 4:
                    x[i] ^= 1 << rnd.randrange(8)
                elif k == 4:
                    del x[i]
                else:
                    x.insert(i, rnd.randrange(256))
                read(r, bytes(x), rnd.choice(SIZES), rnd.choice(["4096", "1", "5"]))
            if rnd.random() < .2:                # the same data in other wrappings are no gzip
                read(r, rnd.choice([zlib.compress(d), zlib.compress(d)[2:-4], zlib.compress(d) + struct.pack("<II", zlib.crc32(d), len(d)),
                                    d, m[10:]]), [65536])
            if rnd.random() < .2:
                read(r, m + rnd.choice([b"\0", b"\x1f\x8b", rnd.randbytes(20)]), [65536])
    return f


def cuts(seed):
    """One stream cut everywhere and with every byte changed."""
    def f(r):
        rnd = random.Random(seed)
        d = content(rnd, rnd.choice([0, 5, 30, 60]))[:60]
        m = anymember(rnd, d)
        for i in range(len(m)):
            read(r, m[:i], SIZES[i % len(SIZES)])
            x = bytearray(m)
            x[i] ^= 1 << rnd.randrange(8)
            read(r, bytes(x), SIZES[i % len(SIZES)])
    return f


def edges(seed, size):
    """Every byte value at the edges of blocks of that size, where buffers may fill."""
    def f(r):
        rnd = random.Random(seed)
        vs = list(range(256))
        rnd.shuffle(vs)
        vs = vs[:128] if 255 in vs[:128] else vs[128:]
        d = b"".join(bytes([v]) + bytes(rnd.choice(b"ab") for _ in range(size - 2)) + bytes([v]) for v in vs)
        a = r.do("gzw", chunks=[E.raw(d[i:i + 65537]) for i in range(0, len(d), 65537)])
        z = zlib.decompressobj(31)
        try:
            got = z.decompress(bytes.fromhex(a.get("hex", "")))
            ok = z.eof and not z.unused_data
        except zlib.error:
            got, ok = b"", False
        r.event("large", what="write", whole="true", out=a["out"] if ok else "incomplete", got=E.enc(got), want=E.enc(d))
        m = anymember(rnd, d)
        for sizes in (["65536"], ["1"] if size < 5000 else ["16384"], [str(size)]):
            y = r.do("gzr", hex=m.hex(), sizes=sizes, feed=rnd.choice(["4096", "1000"]))
            r.event("large", what="read", whole="true", out=y["out"], got=y.get("data", ""), want=E.enc(d))
        for n in (len(m) // 2, len(m) - 8):
            y = r.do("gzr", hex=m[:n].hex(), sizes=["65536"], feed="4096")
            r.event("large", what="cut", whole="false", out=y["out"], got=y.get("data", ""), want=E.enc(d))
    return f


def fits(seed, size):
    """Streams as long as any buffer that may hold them, or a few bytes more or less; cut at the buffer's end."""
    def f(r):
        rnd = random.Random(seed)
        for more in [-8, -1, 0, 1, 2, 7, 8, 9, 18]:
            for form in range(3):
                d = rnd.randbytes(rnd.choice([1, 20, 600]))
                n = size + more - 18
                if form == 0:                       # stored blocks up to that length
                    ps = [65535] * ((n - 5) // 65540) or []
                    rest = n - 5 - sum(x + 5 for x in ps)
                    if not 0 <= rest <= 65535:
                        continue
                    d = rnd.randbytes(sum(ps) + rest)
                    m = member(d, rnd, raw=stored(d, ps + [rest]))
                else:                               # a long header: the edge in the data or in the header
                    k = len(member(d, rnd, name=b"")) if form == 1 else rnd.choice([18, 19, 20])
                    m = member(d, rnd, name=b"n" * max(0, size + more - k))
                for sizes in (["65536"], [str(size)]):
                    y = r.do("gzr", hex=m.hex(), sizes=sizes, feed=rnd.choice(["4096", "1000"]))
                    r.event("large", what="read", whole="true", out=y["out"], got=y.get("data", ""), want=E.enc(d))
                for k in {size, size - 1, len(m) - 1}:
                    if k < len(m):
                        y = r.do("gzr", hex=m[:k].hex(), sizes=["65536"], feed="4096")
                        r.event("large", what="cut at %d" % k, whole="false", out=y["out"], got=y.get("data", ""), want=E.enc(d))
    return f


def long(seed, n):
    """One long stream."""
    def f(r):
        rnd = random.Random(seed)
        d = b"".join(rnd.choice([b"<Entry>", b"</Entry>", rnd.randbytes(50), b"\n"]) for _ in range(n // 10))
        d = (d * 2)[:n]
        a = r.do("gzw", chunks=[E.raw(d[i:i + 1000003]) for i in range(0, n, 1000003)])
        z = zlib.decompressobj(31)
        try:
            got = z.decompress(bytes.fromhex(a.get("hex", "")))
            ok = z.eof and not z.unused_data
        except zlib.error:
            got, ok = b"", False
        r.event("large", what="write", whole="true", out=a["out"] if ok else "incomplete", got=E.enc(got), want=E.enc(d))
        m = gzip.compress(d, 1)
        for b, whole in ((m, "true"), (m[:-1], "false"), (m[:-9], "false")):
            y = r.do("gzr", hex=b.hex(), sizes=["65536"], feed="4096")
            r.event("large", what="read", whole=whole, out=y["out"], got=y.get("data", ""), want=E.enc(d))
    return f


def large(seed, n):
    """Sizes around the buffers of any implementation, whole and cut."""
    def f(r):
        rnd = random.Random(seed)
        d = content(rnd, n)[:n]
        d += bytes(n - len(d))
        ch = [d[i:i + 65537] for i in range(0, n, 65537)] if seed % 2 else [d]
        a = r.do("gzw", chunks=[E.raw(x) for x in ch])
        try:
            z = zlib.decompressobj(31)
            got = z.decompress(bytes.fromhex(a.get("hex", "")))
            ok = z.eof and not z.unused_data
        except zlib.error:
            got, ok = b"", False
        r.event("large", what="write", whole="true", out=a["out"] if ok else "incomplete", got=E.enc(got), want=E.enc(d))
        for m in (gzip.compress(d), anymember(rnd, d)):
            def rd(b, whole, what):
                y = r.do("gzr", hex=b.hex(), sizes=[str(x) for x in rnd.choice(SIZES)], feed=rnd.choice(["4096", "1000"]))
                r.event("large", what=what, whole=whole, out=y["out"], got=y.get("data", ""), want=E.enc(d))
            rd(m, "true", "read")
            for k in (1, 4, 8, 9, len(m) // 2, len(m) % 16384 or 3):
                rd(m[:-k], "false", "cut by %d" % k)
            x = bytearray(m)
            x[-rnd.randrange(1, 9)] ^= 1 << rnd.randrange(8)
            rd(bytes(x), "false", "wrong checksum or length")
            # stored blocks make the deflated length exact: end just at, before and behind a buffer
        for c in (16384, 32768):
            for k in range(-3, 4):
                # header 10, block header 5, checksum 8
                n2 = c + k - 15
                e = rnd.randbytes(n2)
                b = member(e, rnd, raw=stored(e, [n2]))
                y = r.do("gzr", hex=b.hex(), sizes=[str(x) for x in rnd.choice(SIZES)], feed="4096")
                r.event("large", what="aligned", whole="true", out=y["out"], got=y.get("data", ""), want=E.enc(e))
                cut = b[:c]
                y = r.do("gzr", hex=cut.hex(), sizes=["65536"], feed="4096")
                r.event("large", what="aligned and cut", whole="true" if len(cut) == len(b) else "false", out=y["out"], got=y.get("data", ""), want=E.enc(e))
    return f


def run(c):
    s = c.seed * 1000
    for_all = [Case("small-%d" % i, small(s + i, c.pick(12, 60), 400)) for i in range(c.pick(24, 160))]
    for_all += [Case("cuts-%d" % i, cuts(s + i)) for i in range(c.pick(16, 120))]
    ns = [16383, 16384, 16385, 32768, 65536, 100000, 262144] + c.pick([], [1 << 20, (1 << 20) + 1, 3000000])
    for_all += [Case("large-%d-%d" % (n, k), large(s + n + k, n)) for n in ns for k in range(c.pick(2, 6))]
    for_all += [Case("long-%d" % n, long(s + n, n)) for n in c.pick([(4 << 20) + 70000], [(4 << 20) + 70000, (8 << 20) + 1, 16 << 20, (32 << 20) + 5])]
    for_all += [Case("edges-%d-%d" % (n, k), edges(s + n + k, n)) for n in (1024, 4096, 8192, 16384) for k in range(c.pick(1, 4))]
    for_all += [Case("fits-%d" % n, fits(s + n, n)) for n in c.pick([1024, 4096, 16384, 65536], [512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072])]
    cfg = "CONSTANTS MaxIn = %d MaxOut = %d Tokens = %d\nSPECIFICATION Spec\nINVARIANTS Faithful\nPROPERTIES Ends\n" % c.pick((3, 3, 4), (4, 4, 5))
    c.model("GzipPump", cfg, "feeding a decompressor through buffers of any sizes, streams cut anywhere: ends, complete or with an error")
    prim.validate(c, "GzipTrace", for_all, "streams")
