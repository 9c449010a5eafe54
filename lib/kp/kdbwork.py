"""KDB files and trees: the enumerated ones of spec/KdbGen and random ones with every freedom the format leaves."""
import json, struct
from . import codec, enc as E, gen

NEVER = bytes([0x2e, 0xdf, 0x39, 0x7e, 0xfb])
END = (0xffff, b"")


def enumerated(c, groups, entries, skips):
    cfg = ('CONSTANTS MaxGroups = %d MaxEntries = %d Skips = %d Zone = "CET"\nSPECIFICATION Spec\n'
           'INVARIANTS Refuses Describes RoundTrip Emit\n' % (groups, entries, skips))
    what = "KDB files of up to %d groups and %d entries: the tree they describe, refusal of malformed ones, writing and reading again" % (
        groups, entries)
    out = [json.loads(l[5:]) for l in c.model("KdbGen", cfg, what, env={"EMIT": "1"}) if l.startswith("@KDB ")]
    return sorted(out, key=lambda d: (d["levels"], d["owners"]))


def pack(y, mo, d, h, mi, s):
    return bytes([y >> 6, (y & 63) << 2 | mo >> 2, (mo & 3) << 6 | d << 1 | h >> 4, (h & 15) << 4 | mi >> 2, (mi & 3) << 6 | s])


def simple_file(b, parts):
    """The bytes of an enumerated file."""
    gs = [[(1, struct.pack("<I", 101 + i)), (2, b"g%d\0" % (i + 1)), (3, pack(2014, 9, 1, 2, 0, 0)), (4, pack(2020, 2, 29, 23, 59, 59)),
           (5, pack(1980, 1, 1, 0, 0, 0)), (6, NEVER), (7, struct.pack("<I", i + 1)), (8, struct.pack("<H", lv)),
           (9, struct.pack("<I", i)), END] for i, lv in enumerate(b["levels"])]
    es = [[(1, bytes(15) + bytes([k + 1])), (2, struct.pack("<I", 100 + o)), (3, struct.pack("<I", 1)), (4, b"e%d\0" % (k + 1)), (5, b"\0"),
           (6, b"\0"), (7, b"p\0"), (8, b"\0"), (9, pack(2014, 9, 1, 2, 0, 0)), (10, NEVER), (11, NEVER), (12, NEVER), (13, b"\0"),
           (14, b""), END] for k, o in enumerate(b["owners"])]
    return codec.kdb_write(parts, gs, es)


def tree(b):
    """The database of an enumerated well-formed file."""
    db = {"cipher": "aes", "mseed": "11" * 16, "iv": "22" * 16, "tseed": "33" * 32, "rkey": "00" * 32, "rounds": "1", "compress": "false",
          "meta": {"present": "false"}, "root": gen.empty_group("aa" * 16)}
    at = [db["root"]]
    every = []
    for i, lv in enumerate(b["levels"]):
        g = gen.empty_group("%032x" % (i + 1))
        g["name"] = "g%d" % (i + 1)
        g["icon"] = str(i)
        at = at[:lv + 1]
        at[-1]["groups"].append(g)
        at.append(g)
        every.append(g)
    for k, o in enumerate(b["owners"]):
        e = gen.empty_entry("%032x" % (1000 + k))
        e["title"] = "U:e%d" % (k + 1)
        every[o - 1]["entries"].append(e)
    return db


class KdbFiles:
    """Random well-formed KDB files, and ones with a single fault."""

    def __init__(self, seed):
        self.g = gen.Gen(seed, "kdb")
        self.r = self.g.r

    def text(self):
        junk = self.r.choice([b"old text\0", b"\0\0", b"\0", b"x\0"]) if self.r.random() < .15 else b""
        return E.tobytes(self.g.text(False)).replace(b"\0", b"") + b"\0" + junk

    def time(self):
        r = self.r
        k = r.random()
        if k < .2:
            return NEVER
        y = r.choice([1971, 1972, 1999, 2000, 2004, 2014, 2016, 2037, 2038, 2039, 2099, 2100, 2104, 2400, 3001, 4095, r.randrange(1971, 4095)])
        mo = r.randrange(1, 13)
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        n = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]
        d = r.choice([1, n, r.randrange(1, n + 1)])
        if mo in (3, 10) and d > 24:
            d = 15                    # hours skipped or repeated by the clock change
        h, mi, s = r.choice([(0, 0, 0), (23, 59, 59), (12, 0, 0), (r.randrange(24), r.randrange(60), r.randrange(60))])
        return pack(y, mo, d, h, mi, s)

    def opt(self, xs, fields):
        """Drops some optional fields, sprinkles comments, doubles and shuffles."""
        r = self.r
        if r.random() < .4:
            fields = [f for f in fields if f[0] in xs or r.random() < .8]
        if r.random() < .4:
            fields += [(0, r.randbytes(r.choice([0, 1, 20, 300]))) for _ in range(r.randrange(1, 4))]
        if r.random() < .5:
            r.shuffle(fields)
        return fields + [END]

    def file(self, parts, fault=None):
        r = self.r
        ng = r.choice([0, 1, 2, 3, 5, 8, 13]) if fault is None else r.choice([2, 3, 5, 8])
        ids = r.sample(range(1, 50), ng) if r.random() < .5 else [r.getrandbits(32) for _ in range(ng)]
        if r.random() < .3 and ng > 1:           # identifiers with equal halves, low or high
            x, w = r.getrandbits(32), r.choice([8, 16, 24, 31])
            ids = list({(x & ((1 << w) - 1) | r.getrandbits(32 - w) << w) if r.random() < .5 else (x >> (32 - w) << (32 - w) | r.getrandbits(32 - w))
                        for _ in range(ng)})
            ng = len(ids)
        if r.random() < .25 and ng and 0 not in ids:
            ids[r.randrange(ng)] = 0
        lv, gs, levels = -1, [], []
        style = r.random()
        for i in range(ng):
            lv = 0 if lv < 0 else min(lv + 1, r.choice([lv + 1, lv + 1, lv, 0, r.randrange(0, lv + 2)]) if style < .8 else lv + 1)
            levels.append(lv)
        if fault == "level":
            k = r.randrange(ng)
            levels[k] = (levels[k - 1] if k else -1) + r.choice([2, 3, 65535 - 100, 7])
        if fault == "ids":
            a, b = r.sample(range(ng), 2)
            ids[a] = ids[b]
        for i in range(ng):
            f = [(1, struct.pack("<I", ids[i])), (2, self.text()), (3, self.time()), (4, self.time()), (5, self.time()), (6, self.time()),
                 (7, struct.pack("<I", int(self.g.u32()))), (8, struct.pack("<H", levels[i])), (9, struct.pack("<I", r.choice([0, 1, 255, 65535])))]
            if levels[i] == 0 and r.random() < .3:        # no level named: a top level group
                f = [x for x in f if x[0] != 8]
            rec = self.opt({1, 8}, f)
            gs.append(rec)
        es = []
        for k in range(r.choice([0, 1, 2, 3, 6]) if ng else 0):
            name, data = r.choice([(b"\0", b""), (b"\0", b""), (self.text(), r.randbytes(r.choice([0, 1, 15, 16, 17, 200]))),
                                   (b"bin-stream\0", b"\0\1\2"), (b"x\0", b""), (b"\0", b"data")])
            f = [(1, r.randbytes(16)), (2, struct.pack("<I", r.choice(ids))), (3, struct.pack("<I", int(self.g.u32()))), (4, self.text()),
                 (5, self.text()), (6, self.text()), (7, self.text()), (8, self.text()), (9, self.time()), (10, self.time()),
                 (11, self.time()), (12, self.time()), (13, name), (14, data)]
            if r.random() < .12:                # a bookkeeping entry of KeePass 1
                own = {4: b"Meta-Info\0", 5: b"$\0", 6: b"SYSTEM\0", 8: b"KPX_GROUP_TREE_STATE\0", 13: b"bin-stream\0", 14: b"\0\1\2"}
                f = [(t, own.get(t, v)) for t, v in f]
            keep = {1} if 0 in ids and r.random() < .6 else {1, 2}     # no group named: group 0
            es.append(self.opt(keep, [x for x in f if x[0] != 2] if len(keep) == 1 and r.random() < .5 else f))
        if fault == "owner":
            bad = next(x for x in range(1, 100) if x not in ids)
            es.append([(1, r.randbytes(16)), (2, struct.pack("<I", bad)), (4, b"lost\0"), END])
        if fault == "noowner" and 0 not in ids:
            es.append([(1, r.randbytes(16)), (4, b"lost\0"), END])
        if fault == "gtype":
            gs[r.randrange(ng)].insert(0, (r.choice([10, 11, 255, 0x7fff, 0xfffe]), r.randbytes(r.choice([0, 4]))))
        if fault == "etype":
            es.append([(1, r.randbytes(16)), (2, struct.pack("<I", ids[0])), (r.choice([15, 16, 255, 0xfffe]), r.randbytes(r.choice([0, 4]))), END])
        kw = {}
        if fault == "version":
            kw["version"] = r.choice([0x00020002, 0x00040000, 0x00030102, 0, 0xffffffff, 0x00010003])
        elif r.random() < .3:
            kw["version"] = 0x00030000 | r.randrange(256)
        cipher = r.choice(["aes", "twofish"])
        if r.random() < .4:                     # other ways of naming the cipher
            kw["flags"] = r.getrandbits(28) << 4 | r.choice([2, 3, 6, 7, 10, 11, 14, 15] if cipher == "aes" else [8, 9, 12, 13])
        if fault == "cipher":
            kw["flags"] = r.choice([0, 1, 4, 5, 0x10, 0x20, 0x200, 0x80000000, 0x800, 0xfffffff5])
        if fault == "sig":
            kw.update(r.choice([{"sig0": 0x9aa2d902}, {"sig1": 0xb54bfb67}, {"sig0": 0}, {"sig1": 0xb54bfb64}]))
        return codec.kdb_write(parts, gs, es, cipher, mseed=r.randbytes(16), iv=r.randbytes(16), tseed=r.randbytes(32),
                               rounds=r.choice([0, 1, 2, 7, 100]), **kw)


FAULTS = ["level", "ids", "owner", "gtype", "etype", "version", "cipher", "sig", "noowner"]


def deep_file(parts, n, leaf=3):
    """n groups each inside the one before, then siblings on every tenth level from the bottom up; entries in the deepest."""
    lv = list(range(n)) + list(range(n - 1, 0, -10))
    gs = [[(1, struct.pack("<I", 7000 + i)), (2, b"g%d\0" % i), (8, struct.pack("<H", l)), END] for i, l in enumerate(lv)]
    es = [[(1, bytes(14) + struct.pack(">H", k)), (2, struct.pack("<I", 7000 + (n - 1 if k else len(lv) - 1))), (4, b"e%d\0" % k), END] for k in range(leaf)]
    return codec.kdb_write(parts, gs, es, "twofish")


# ---- one field at a time
def full():
    def g(i, lv):
        return [(1, struct.pack("<I", 70 + i)), (2, b"g%d\0" % i), (3, pack(2014, 9, 1, 2, 0, 0)), (4, pack(2020, 2, 29, 23, 59, 59)), (5, pack(1980, 1, 1, 0, 0, 0)),
                (6, pack(2030, 12, 31, 12, 30, 30)), (7, struct.pack("<I", i + 1)), (8, struct.pack("<H", lv)), (9, struct.pack("<I", i)), END]

    def e(k, o):
        return [(1, bytes(15) + bytes([k + 1])), (2, struct.pack("<I", 70 + o)), (3, struct.pack("<I", 9)), (4, b"t\0"), (5, b"u\0"), (6, b"n\0"), (7, b"p\0"),
                (8, b"o\0"), (9, pack(2014, 9, 1, 2, 0, 0)), (10, pack(2014, 9, 2, 2, 0, 0)), (11, pack(2014, 9, 3, 2, 0, 0)), (12, pack(2014, 9, 4, 2, 0, 0)),
                (13, b"a\0"), (14, b"data"), END]
    return [g(0, 0), g(1, 1), g(2, 0)], [e(0, 0), e(1, 1), e(2, 1)]


def choices(group, t):
    u32 = [struct.pack("<I", int(x)) for x in gen.U32]
    times = [NEVER] + [pack(y, mo, d, h, mi, sec) for y, mo, d, h, mi, sec in
                       ((1971, 1, 1, 0, 0, 0), (1999, 12, 31, 23, 59, 59), (2000, 2, 29, 12, 0, 0), (2004, 2, 29, 0, 0, 1), (2016, 6, 30, 23, 59, 59), (2037, 12, 31, 1, 2, 3),
                        (2038, 1, 19, 4, 14, 8), (2100, 2, 28, 23, 0, 0), (2100, 3, 1, 0, 0, 0), (3999, 12, 31, 23, 59, 59), (4095, 1, 1, 0, 0, 0))]
    texts = [E.tobytes(E.raw(x)).replace(b"\0", b"") + b"\0" for x in gen.KDBTEXT]
    texts += [b"\0junk\0", b"a\0\0\0", b"a\0b\0"]
    if group:
        return {2: texts, 3: times, 4: times, 5: times, 6: times, 7: u32, 8: [], 9: u32[:10]}.get(t, [])
    if t == 1:
        return [bytes(16), b"\xff" * 16, bytes(range(16)), bytes(15) + b"\1"]
    if t in (9, 10, 11, 12):
        return times
    return {2: [struct.pack("<I", 70 + i) for i in range(3)], 3: u32, 13: texts, 14: [E.tobytes(x) for x in gen.BIN]}.get(t, texts)


def sweep(thin=1):
    """(place, records): one field left out, put first or last, doubled with a comment, or with each value of its kind."""
    k = 0
    for group in (True, False):
        for which in (0, 1):
            n = len(full()[0 if group else 1][which]) - 1
            for i in range(n):
                out = []

                def changed(f):
                    gs, es = full()
                    rec = (gs if group else es)[which]
                    f(rec)
                    out.append((gs, es))
                t = full()[0 if group else 1][which][i][0]
                if not (group and t in (1, 8) or not group and t == 2):
                    changed(lambda rec: rec.pop(i))
                changed(lambda rec: rec.insert(0, rec.pop(i)))
                changed(lambda rec: rec.insert(len(rec) - 1, rec.pop(i)))
                for c in (b"", b"comment", bytes(300)):
                    changed(lambda rec: rec.insert(i, (0, c)))
                for v in choices(group, t):
                    k += 1
                    if k % thin == 0:
                        changed(lambda rec: rec.__setitem__(i, (t, v)))
                yield "%s%d-%d" % ("group" if group else "entry", which, t), out
