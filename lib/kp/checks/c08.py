"""C08: damaged files are refused or load unchanged."""
import random, struct
from .. import both, codec, docs, enc as E, gen, kdbwork, session
from ..check import Case


def base(kind, seed):
    """(format, database) to be damaged."""
    if kind.startswith("kdb-"):
        g = gen.Gen(seed, "kdb")
        d = gen.empty_db()
        d.update(meta={"present": "false"}, mseed="55" * 16, rkey="00" * 32, cipher=kind.split("-")[1], rounds="1")
        for i in range(0 if kind.endswith("-empty") else 3):
            gr = gen.empty_group("%032x" % (i + 1))
            gr["name"] = "group %d" % i
            for j in range(0 if kind.endswith("-groups") else 2):
                e = gen.empty_entry("%032x" % (100 + 10 * i + j))
                e.update(title="U:entry %d" % j, notes="U:" + "note " * (seed % 7), ct=g.kdbtime(), **{"pass": "U:secret"})
                if j:
                    e["att"] = [{"name": "file", "bin": "own", "data": "U:@%d:3" % (seed % 40), "compress": "false"}]
                gr["entries"].append(e)
            d["root"]["groups"].append(gr)
        return "kdb", d
    d = gen.empty_db()
    d.update(rounds="1", compress="true" if kind.startswith("kdbx-gz") else "false")
    d["meta"]["gen"] = "KeePass" if d["compress"] == "true" else "libkeepass" if kind.endswith("-empty") else ""
    if kind.endswith("-empty"):
        return "kdbx", d
    e = gen.empty_entry("ab" * 16)
    e.update(title="U:title", notes="P:" + "note " * (seed % 7), **{"pass": "P:secret"})
    d["meta"]["bins"] = [{"data": "U:@%d:5" % (40 + seed % 30), "compress": "true" if seed % 2 else "false"}]
    e["att"] = [{"name": "file", "bin": "b:0", "data": d["meta"]["bins"][0]["data"], "compress": d["meta"]["bins"][0]["compress"]}]
    d["root"]["entries"].append(e)
    d["meta"]["name"] = "name"
    return "kdbx", d


def header_len(raw, fmt):
    if fmt == "kdb":
        return 124
    p = 12
    while True:
        i, n = struct.unpack_from("<BH", raw, p)
        p += 3 + n
        if i == 0:
            return p


def rounds(raw, fmt):
    """Key derivation rounds the header asks for: a file may ask for hours of work."""
    if fmt == "kdb":
        return struct.unpack_from("<I", raw, 120)[0] if len(raw) >= 124 else 0
    p, m = 12, 0
    while p + 3 <= len(raw):
        i, n = struct.unpack_from("<BH", raw, p)
        if i == 6 and p + 11 <= len(raw):
            m = max(m, struct.unpack_from("<Q", raw, p + 3)[0])
        if i == 0:
            break
        p += 3 + n
    return m


def rearranged(raw, fmt, h, rnd):
    """Other contents built of the file's own pieces: [(bytes, in the header)]."""
    out = []
    body = raw[h:]
    n = len(body) // 16
    bl = [body[16 * i:16 * i + 16] for i in range(n)]

    def put(b):
        out.append((raw[:h] + b"".join(b), False))
    for _ in range(12):
        i, j = rnd.randrange(n), rnd.randrange(n)
        if bl[i] != bl[j]:
            b = list(bl)
            b[i], b[j] = b[j], b[i]
            put(b)
        put(bl[:i] + bl[i + 1:])
        put(bl[:i] + [bl[j]] + bl[i:])
        a, z = sorted((i, j))
        if a != z:
            put(bl[:a] + bl[z:])
    for k in (1, 2, 3, 16):
        put(bl[:-k])
        put(bl + bl[-k:])
        put(bl + [bytes(16)] * k)
        put(bl[k:])
    for k in (1, 7, 15, 16, 17, 32, 40, 48, 4096):
        out.append((raw + bytes(k), False))
        out.append((raw + rnd.randbytes(k), False))
    for _ in range(12):
        i = rnd.randrange(h, len(raw))
        k = rnd.choice([1, 2, 4, 16, 17, 64])
        x = rnd.randbytes(k)
        if raw[i:i + k] != x[:len(raw) - i]:
            out.append((raw[:i] + x[:len(raw) - i] + raw[i + k:], False))
        if raw[i:i + k].strip(b"\0"):
            out.append((raw[:i] + bytes(len(raw[i:i + k])) + raw[i + k:], False))
        out.append((raw[:i] + x + raw[i:], False))
        out.append((raw[:i] + raw[i + k:], False))
    if fmt == "kdbx":
        fs, p = [], 12
        while p < h:
            n = struct.unpack_from("<H", raw, p + 1)[0]
            fs.append(raw[p:p + 3 + n])
            p += 3 + n
        for i in range(len(fs)):
            if i < len(fs) - 1:
                out.append((raw[:12] + b"".join(fs[:i] + [fs[i], fs[i]] + fs[i + 1:]) + raw[h:], True))
            out.append((raw[:12] + b"".join(fs[:i] + fs[i + 1:]) + raw[h:], True))
            for j in range(i):
                g = list(fs)
                g[i], g[j] = g[j], g[i]
                out.append((raw[:12] + b"".join(g) + raw[h:], True))
        e = fs[-1]
        out.append((raw[:12] + b"".join(fs[:-1]) + e[:1] + struct.pack("<H", len(e)) + e[3:] + b"xyz" + raw[h:], True))
        out.append((raw[:12] + b"".join(fs[:-1]) + b"\0\0\0" + raw[h:], True))
        out.append((raw[:12] + b"".join(fs) + b"\0\0\0" + raw[h:], True))
    return [(b, x) for b, x in out if b != raw]


def damaged(kind, seed, what, lo=0, step=1, mode=None, limit=1 << 20):
    def f(r):
        rnd = random.Random(seed * 7919)
        r.key("k", pw=b"secret")
        fmt, d = base(kind.replace("-blocks", ""), seed)
        if kind == "kdbx-blocks":
            dd = docs.Docs(seed)
            dd.style = 0
            r.give("f", "k", "kdbx", codec.kdbx_write(dd.header(), dd.doc(), r.k["k"], rnd, 0, 100))
        else:
            r.new("a", d)
            r.export("a", "k", "f", fmt)
        r.imp("f", "k", "b", fmt)
        raw = r.bytes("f")
        h = header_len(raw, fmt)

        def attempt(b, hdr):
            if rounds(b, fmt) > 300000:
                return
            r.damage("f", b, "header" if hdr and fmt == "kdbx" else "damaged")
            r.imp("f", "k", "b", fmt)
        # the places: every step-th from lo of the header, the end and limit places between
        mid = range(h, len(raw) - 64)
        at = sorted(set(range(h)) | set(rnd.sample(mid, min(len(mid), limit))) | set(range(max(h, len(raw) - 64), len(raw))))[lo::step]
        if what == "flip":
            for i in at:
                if fmt == "kdb" and 48 <= i < 56:
                    continue
                for v in ([1 << rnd.randrange(8)] if mode is None else range(1, 256) if mode == "values" else [1 << b for b in range(8)]):
                    b = bytearray(raw)
                    b[i] ^= v
                    attempt(bytes(b), i < h)
        elif what == "cut":
            for i in at:
                attempt(raw[:i], i < h)
        elif what == "drop":
            for i in at:
                b = raw[:i] + raw[i + 1:]
                if b != raw and not (fmt == "kdb" and i < 56):
                    attempt(b, i < h)
        elif what == "insert":
            for i in at:
                if not (fmt == "kdb" and i < 56):
                    attempt(raw[:i] + rnd.randbytes(1) + raw[i:], i < h and raw[i] != 0)
        else:
            for b, hdr in rearranged(raw, fmt, h, rnd):
                attempt(b, hdr)
        # and the undamaged file still loads
        r.give("f", "k", fmt, raw)
        r.imp("f", "k", "b", fmt)
    return f


KINDS = ["kdbx-plain", "kdbx-gz", "kdbx-blocks", "kdb-aes", "kdb-twofish",
         # nothing but groups, nothing at all
         "kdb-aes-groups", "kdb-twofish-groups", "kdb-aes-empty", "kdb-twofish-empty", "kdbx-gz-empty", "kdbx-plain-empty"]


def run(c):
    cases = []
    n = c.pick(4, 16)
    for k in KINDS:
        s = c.seed * 100 + len(k)
        for i in range(n):
            cases.append(Case("flip-%s-%d" % (k, i), damaged(k, s, "flip", i, n, c.pick(None, "bits"), c.pick(1500, 1 << 20))))
        for w in ("cut", "drop", "insert"):
            m = c.pick(1, 8)
            for i in range(m):
                cases.append(Case("%s-%s-%d" % (w, k, i), damaged(k, s, w, i, m, limit=c.pick(500, 1 << 20))))
        for j in range(c.pick(1, 8)):
            cases.append(Case("pieces-%s-%d" % (k, j), damaged(k, s + j, "pieces")))
    if not c.quick:
        for k in KINDS:
            for i in range(8):
                cases.append(Case("values-%s-%d" % (k, i), damaged(k, c.seed * 100 + 50, "flip", i, 8, "values", 64)))
    session.validate(c, cases, "one change to a file", chunk=60)
