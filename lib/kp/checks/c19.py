"""C19: dates and times keep their exact second."""
import calendar, random, struct, time
from .. import codec, crypt as C, gen, kdbwork, prim, rec
from ..check import Case

node = codec.node
ZONES = ["UTC", "CET", "IST", "ADL", "EST", "NPT", "NFL"]
PW = "dates"
PARTS = [C.sha256(PW.encode())]
TIMES = ["ct", "mt", "at", "et", "lt"]
TAGS = ["CreationTime", "LastModificationTime", "LastAccessTime", "ExpiryTime", "LocationChanged"]
META = [("namet", "DatabaseNameChanged"), ("desct", "DatabaseDescriptionChanged"), ("usert", "DefaultUserNameChanged"),
        ("mkc", "MasterKeyChanged"), ("rbt", "RecycleBinChanged"), ("tmplt", "EntryTemplatesGroupChanged")]
KDB_END = calendar.timegm((4095, 12, 30, 0, 0, 0))
KDBX_START = calendar.timegm((1000, 1, 1, 0, 0, 0))
KDBX_END = calendar.timegm((9999, 12, 31, 23, 59, 59))
NEVER_KDBX = calendar.timegm((2999, 12, 28, 22, 59, 59))


def build_db(fmt, ts):
    """A database that holds the given moments wherever it can."""
    d = gen.empty_db()
    if fmt == "kdb":
        d["mseed"] = "11" * 16
    it = iter(ts)
    n = 0

    def fill(o):
        for k in TIMES if fmt == "kdbx" else TIMES[:4]:
            o[k] = str(next(it))
    try:
        if fmt == "kdbx":
            for k, _ in META:
                d["meta"][k] = str(next(it))
            fill(d["root"])
        while True:
            n += 1
            g = gen.empty_group("%032x" % (n + 0x1000))
            d["root"]["groups"].append(g)
            fill(g)
            for i in range(n % 3):
                e = gen.empty_entry("%032x" % (n * 16 + i + 0x100000))
                g["entries"].append(e)
                fill(e)
                if fmt == "kdbx" and n % 5 == 0:
                    h = gen.empty_entry(e["uuid"])
                    e["hist"].append(h)
                    fill(h)
    except StopIteration:
        pass
    return d


def kdb_objects(g, gs, es):
    """Groups and entries in the order of a KDB file."""
    for x in g["groups"]:
        gs.append(x)
        es += x["entries"]
        kdb_objects(x, gs, es)


def slots(fmt, d):
    """[(place, moment)] of a database, in the order of the file."""
    out = []
    if fmt == "kdbx":
        out += [(k, d["meta"][k]) for k, _ in META]

        def entry(p, e):
            out.extend((p + "." + k, e[k]) for k in TIMES)
            for i, h in enumerate(e["hist"]):
                entry("%s.h%d" % (p, i), h)

        def group(p, g):
            out.extend((p + "." + k, g[k]) for k in TIMES)
            for i, e in enumerate(g["entries"]):
                entry("%s/%d" % (p, i), e)
            for i, x in enumerate(g["groups"]):
                group("%s.%d" % (p, i), x)
        group("root", d["root"])
    else:
        gs, es = [], []
        kdb_objects(d["root"], gs, es)
        for t, xs in (("g", gs), ("e", es)):
            for i, x in enumerate(xs):
                out += [("%s%d.%s" % (t, i, k), x[k]) for k in TIMES[:4]]
    return out


def kids(n, t):
    return [x for x in n["c"] if x["t"] == t]


def text(n, t):
    return "".join(x["x"] or "" for x in kids(n, t)[:1])


def file_slots(fmt, raw):
    """The same slots as stored in the file."""
    out = []
    if fmt == "kdbx":
        tree = codec.kdbx_read(raw, PARTS)["tree"]
        meta = kids(tree, "Meta")[0]
        out += [(k, text(meta, t)) for k, t in META]

        def times(p, n):
            t = kids(n, "Times")
            out.extend((p + "." + k, text(t[0], tag) if t else "") for k, tag in zip(TIMES, TAGS))

        def entry(p, n):
            times(p, n)
            for h in kids(n, "History"):
                for i, x in enumerate(kids(h, "Entry")):
                    entry("%s.h%d" % (p, i), x)

        def group(p, n):
            times(p, n)
            for i, e in enumerate(kids(n, "Entry")):
                entry("%s/%d" % (p, i), e)
            for i, x in enumerate(kids(n, "Group")):
                group("%s.%d" % (p, i), x)
        group("root", kids(kids(tree, "Root")[0], "Group")[0])
    else:
        r = codec.kdb_read(raw, PARTS)
        for t, xs, first in (("g", r["groups"], 3), ("e", r["entries"], 9)):
            for i, x in enumerate(xs):
                f = {k: v for k, v in x}
                out += [("%s%d.%s" % (t, i, k), list(f.get(first + j, b""))) for j, k in enumerate(TIMES[:4])]
    return out


def written(fmt, ts, w, z, at=None):
    def f(r):
        r.do("key", k="k", steps=[{"op": "pw", "v": PW}])
        r.do("tz", v=gen_zone(at or w))
        try:
            db = build_db(fmt, ts)
            mine = slots(fmt, r.do("new", h="a", db=db)["proj"])
            p = r.path("f." + fmt)
            o = r.do("export", h="a", k="k", fmt=fmt, path=p)
            rows, out = [], o["out"]
            if out == "ok":
                try:
                    stored = file_slots(fmt, r.bytes("f." + fmt))
                except (codec.Bad, IndexError, KeyError):
                    stored, out = [], "unreadable"
                r.do("tz", v=gen_zone(at or z))
                b = r.do("import", h="b", k="k", fmt=fmt, path=p)
                if b["out"] != "ok":
                    out = b["out"]
                else:
                    back = dict(slots(fmt, b["proj"]))
                    stored = dict(stored)
                    absent = "" if fmt == "kdbx" else []
                    # as built: an object that got no moment of its own has none
                    rows = [[q, t, stored.get(q, absent), back.get(q, "absent")] for q, t in mine]
            r.event("file", fmt=fmt, w=w, z=z, out=out, rows=rows)
        finally:
            r.d("tz", v=gen_zone("CET"))
    return f


def gen_zone(z):
    from .. import drv
    return drv.ZONES.get(z, z)


# Zones with a past (other offsets in other years, clocks ahead in winter, half hours); KDBX moments do not depend on any of it.
PLACES = ["Europe/London", "Europe/Dublin", "America/New_York", "Africa/Monrovia", "Asia/Pyongyang", "Australia/Lord_Howe", "Pacific/Apia",
          "America/St_Johns", "Europe/Moscow", "Asia/Kathmandu", "Antarctica/Troll", "Africa/Casablanca"]


def doc(texts):
    it = iter(texts)
    meta = node("Meta", c=[node("Generator", "x")])
    for _, t in META:
        x = next(it, None)
        if x is not None:
            meta["c"].append(node(t, x))

    def times():
        c = [node(t, x) for t, x in ((t, next(it, None)) for t in TAGS) if x is not None]
        return node("Times", c=c + [node("Expires", "False")])
    n = 1

    def uuid(k):
        u = node("UUID")
        u["bin"] = k.to_bytes(16, "big")
        return u
    root = node("Group", c=[uuid(1), node("Name", "r"), times()])
    left = len(texts) - len(META) - 5
    while left > 0:
        n += 1
        g = node("Group", c=[uuid(n), node("Name", "g"), times()])
        left -= 5
        for i in range(n % 2):
            if left <= 0:
                break
            e = node("Entry", c=[uuid(n * 100 + 10**6), times()])
            left -= 5
            g["c"].append(e)
        root["c"].append(g)
    return node("KeePassFile", c=[meta, node("Root", c=[root])])


def kdb_doc(bs):
    """(groups, entries) with the given five bytes as dates."""
    it = iter(bs)
    gs, es = [], []
    n = 0
    while True:
        x = [next(it, None) for _ in range(4)]
        if x[0] is None:
            break
        n += 1
        x = [kdbwork.NEVER if b is None else b for b in x]
        if n % 2:
            gs.append([(1, struct.pack("<I", 100 + n)), (2, b"g\0")] + [(3 + j, b) for j, b in enumerate(x)] +
                      [(7, struct.pack("<I", 0)), (8, struct.pack("<H", 0)), (9, struct.pack("<I", 0)), kdbwork.END])
        else:
            es.append([(1, bytes(12) + struct.pack(">I", n)), (2, struct.pack("<I", 101)), (3, struct.pack("<I", 1)), (4, b"e\0"), (5, b"\0"),
                       (6, b"\0"), (7, b"p\0"), (8, b"\0")] + [(9 + j, b) for j, b in enumerate(x)] + [(13, b"\0"), (14, b""), kdbwork.END])
    return gs, es


def handmade(fmt, forms, z, wild, at=None):
    def f(r):
        r.do("key", k="k", steps=[{"op": "pw", "v": PW}])
        r.do("tz", v=gen_zone(at or z))
        try:
            if fmt == "kdbx":
                fields = codec.kdbx_fields(b"m" * 32, b"t" * 32, 1, b"i" * 16, b"r" * 32, b"s" * 32, False)
                raw = codec.kdbx_write(fields, doc(forms), PARTS)
            else:
                raw = codec.kdb_write(PARTS, *kdb_doc(forms))
            r.put("f", raw)
            o = r.do("import", h="a", k="k", fmt=fmt, path=r.path("f"))
            rows = []
            if o["out"] == "ok":
                stored = dict(file_slots(fmt, raw))
                rows = [[q, stored.get(q, "" if fmt == "kdbx" else []), t] for q, t in slots(fmt, o["proj"])]
            r.event("hand", fmt=fmt, z=z, wild="true" if wild else "false", out=o["out"], rows=rows)
        finally:
            r.d("tz", v=gen_zone("CET"))
    return f


def iso(t):
    y, mo, d, h, mi, s = time.gmtime(t)[:6]
    return "%04d-%02d-%02dT%02d:%02d:%02dZ" % (y, mo, d, h, mi, s)


def wild_text(rnd, t):
    s = iso(t)
    k = rnd.random()
    if k < .3:
        i = rnd.randrange(len(s))
        return s[:i] + rnd.choice("0123456789-:TZ +x") + s[i + 1:]
    if k < .45:
        return s[:rnd.randrange(len(s))]
    if k < .55:
        return s + rnd.choice([" ", "Z", "+01:00", ".5", "x" * 300])
    if k < .7:
        return "%s-%s-%sT%s:%s:%sZ" % tuple(str(rnd.choice([0, 1, 12, 13, 24, 29, 30, 31, 32, 59, 60, 61, 99, -1, 2023, 2100, 99999, 10**12])) for _ in range(6))
    if k < .8:
        return rnd.choice(["", "never", "0", "0000-00-00T00:00:00Z", "9999999999", "1e9", "-1", "2999-12-28T22:59:59", "T", "%Y"])
    return s.replace("T", " ").replace("Z", "")


def pack(t):
    y, mo, d, h, mi, s = time.gmtime(t)[:6]
    return kdbwork.pack(y, mo, d, h, mi, s)


def wild_bytes(rnd, t):
    k = rnd.random()
    if k < .3:
        return bytes(rnd.randrange(256) for _ in range(5))
    if k < .6:
        return kdbwork.pack(rnd.choice([0, 1, 1899, 1900, 1969, 1970, 2004, 2005, 2100, 4095]), rnd.randrange(16), rnd.randrange(32),
                            rnd.randrange(32), rnd.randrange(64), rnd.randrange(64))
    b = bytearray(pack(t))
    b[rnd.randrange(5)] ^= 1 << rnd.randrange(8)
    return bytes(b)


def run(c):
    if c.quick:
        years = sorted({1000, 1001, 1100, 1200, 1582, 1600, 1601, 1699, 1700, 1800, 1899, 1900, 1901, 1904, 1938, 1967, 1968, 1969} | set(range(1970, 2045)) | set(range(2095, 2110)) | {2199, 2200, 2300, 2399, 2400, 2401, 2999, 3000, 3999, 4000,
                                                                      4093, 4094, 4095, 8000, 9000, 9998, 9999})
    else:
        years = list(range(1000, 10000))
    cfg = ('CONSTANTS Years = {%s} Zones = {%s}\nSPECIFICATION Spec\nINVARIANTS Origin Right IsoBack KdbBack SummerRight Emit\n'
           % (", ".join(map(str, years)), ", ".join('"%s"' % z for z in ZONES)))
    lines = c.model("CalendarWalk", cfg, "every day of %d years in seven zones: conversions, texts and packed dates against a walking calendar" %
                    len(years), env={"EMIT": "1"}, timeout=3000)
    rnd = random.Random(c.seed)
    moments, turns = set(), {}
    for l in lines:
        if l.startswith("@DAY "):
            _, d, k = l.split()
            d = int(d) * 86400
            for s in {"edge": (0, 1, 43199, 43200, 86399), "cet": (0, 3540, 3599, 3600, 3601, 7199, 7200, 86399),
                      "adl": (0, 55799, 55800, 59399, 59400, 59401, 62999, 63000), "nfl": (12600, 16199, 16200, 19799, 19800, 19801, 23400)}[k]:
                moments.add(d + s)
                turns.setdefault(k, set()).add(d + s)
    moments.discard(0)
    edge = [x + y for x in (2**31, 2**32, 2**33, NEVER_KDBX, NEVER_KDBX - 3600, NEVER_KDBX + 3600, 86400, 20000) for y in (-2, -1, 0, 1, 2)]
    edge += [1, 2, 59, 60, 3600, KDBX_END, KDBX_END - 1] + [rnd.randrange(1, KDBX_END) for _ in range(c.pick(200, 4000))] + \
            [rnd.randrange(1, KDB_END) for _ in range(c.pick(400, 8000))] + [rnd.randrange(1, 2**32) for _ in range(c.pick(400, 8000))]
    # times before 1970, which only KDBX has
    edge += [-1, -2, -59, -60, -3600, -86399, -86400, -86401, -(2**31) - 1, -(2**31), -(2**31) + 1, -(2**32), KDBX_START, KDBX_START + 1] + \
            [rnd.randrange(KDBX_START, 0) for _ in range(c.pick(300, 5000))]
    moments |= set(edge)
    moments = sorted(moments)
    cases = []
    for fmt in ("kdbx", "kdb"):
        ms = [t for t in moments if (KDBX_START <= t <= KDBX_END if fmt == "kdbx" else 0 < t <= KDB_END)]
        # every moment in one zone, and in further zones
        for k in range(c.pick(2, 3)):
            rnd.shuffle(ms)
            for n, i in enumerate(range(0, len(ms), 400)):
                w = ZONES[(n + k) % 7]
                z = w if n % 3 else rnd.choice(ZONES)
                part = ms[i:i + 400]
                # moments whose local date lies before 1970 in that zone are outside of the format
                part = [t for t in part if fmt == "kdbx" or t > 90000 or w in ("UTC", "CET", "IST", "NPT", "ADL")]
                part += ["0"] * 3
                rnd.shuffle(part)
                cases.append(Case("%s-%d-%d-%s-%s" % (fmt, k, n, w, z), written(fmt, part, w, z,
                                                                                        PLACES[n // 2 % len(PLACES)] if fmt == "kdbx" and n % 2 else None)))
        for w in ("CET", "ADL", "NFL") if fmt == "kdb" else ():      # the moments when clocks are put on or back, by these clocks
            ts = sorted(t for t in turns[w.lower()] if 90000 < t <= KDB_END)
            for i in range(0, len(ts), 400):
                cases.append(Case("%s-turns-%s-%d" % (fmt, w, i), written(fmt, ts[i:i + 400], w, w, None)))
        for i in range(c.pick(6, 60)):
            xs = rnd.sample(ms, 300)
            z = ZONES[i % 7]
            if fmt == "kdbx":
                forms = [iso(t) for t in xs] + ["2999-12-28T22:59:59Z"] * 3
            else:
                forms = [pack(t) for t in xs if t > 90000] + [kdbwork.NEVER] * 3
            rnd.shuffle(forms)
            cases.append(Case("%s-read-%d" % (fmt, i), handmade(fmt, forms, z, False, PLACES[i % len(PLACES)] if fmt == "kdbx" and i % 2 else None)))
        for i in range(c.pick(10, 200)):
            xs = [rnd.choice(ms) for _ in range(200)]
            forms = [(wild_text if fmt == "kdbx" else wild_bytes)(rnd, t) if rnd.random() < .6 else (iso(t) if fmt == "kdbx" else pack(max(t, 90000)))
                     for t in xs]
            cases.append(Case("%s-wild-%d" % (fmt, i), handmade(fmt, forms, ZONES[i % 7], True)))
    prim.validate(c, "CalendarTrace", cases, "files of dates written and read in several zones")
