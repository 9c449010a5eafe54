"""KDBX files as any program may write them: random documents using the freedoms of the format, and ones with one fault."""
import base64, copy, struct, time, zlib
from . import codec, crypt as C, enc as E, gen, work

node = codec.node
TRUE = ["true", "True", "TRUE", "1"]
FALSE = ["false", "False", "FALSE", "0", "null"]
STD = ["Title", "URL", "UserName", "Password", "Notes"]
NEVER = "2999-12-28T22:59:59Z"


def iso(t):
    return NEVER if t == 0 else "%04d-%02d-%02dT%02d:%02d:%02dZ" % time.gmtime(t)[:6]


def gz(data, rnd=None):
    """A gzip stream with header fields and settings of its own."""
    if rnd is None or rnd.random() < .5:
        c = zlib.compressobj(rnd.choice([1, 6, 9]) if rnd else 6, zlib.DEFLATED, 31)
        return c.compress(data) + c.flush()
    c = zlib.compressobj(rnd.choice([0, 1, 5, 9]), zlib.DEFLATED, -15, 8, rnd.choice([0, 1, 2, 4]))
    body = c.compress(data) + c.flush()
    flg, extra = 0, b""
    if rnd.random() < .5:
        flg |= 4
        x = rnd.randbytes(rnd.choice([0, 3, 40]))
        extra += struct.pack("<H", len(x)) + x
    if rnd.random() < .5:
        flg |= 8
        extra += b"file.bin\0"
    if rnd.random() < .3:
        flg |= 16
        extra += b"a comment\0"
    h = b"\x1f\x8b\x08" + bytes([flg]) + struct.pack("<I", rnd.getrandbits(32)) + b"\0\3" + extra
    return h + body + struct.pack("<II", zlib.crc32(data), len(data) & 0xffffffff)


# characters of one to four bytes with all their bits, and every mark that is written as a reference
WIDE = "\u007f\u00e9\u07ff\u0800\u4e2d\ud7ff\ue000\ufffd\U00010000\U0001f511\U0002a6da\U000abcde\U000fffff\U0010fffd='&'<\"\"='\"'>&amp;"


class Docs:
    def __init__(self, seed, ws=False):
        self.g = gen.Gen(seed)
        if ws:                        # texts whose stripped form the specification can compute from the encoded one
            plain = self.g.text
            self.g.text = lambda big=True: self.r.choice(work.SPACED) if self.r.random() < .3 else plain(False)
        self.r = self.g.r
        self.absent = self.r.choice([0, .1, .4, .8])
        self.style = 0 if ws else self.r.choice([0, 1])

    # ---- leaves
    def has(self):
        return self.r.random() >= self.absent

    def el(self, t, x, must=False):
        if not must and not self.has():
            return []
        n = node(t, x)
        if self.r.random() < .03:
            n["a"]["Note"] = "x"
        return [n]

    def uuid(self, t, hx, must=False):
        return self.el(t, base64.b64encode(bytes.fromhex(hx)).decode(), must)

    def text(self, t, must=False):
        return self.el(t, E.tobytes(self.g.text(False)).decode(), must)

    def num(self, t, xs=None):
        return self.el(t, self.g.u32() if xs is None else self.r.choice(xs))

    def bool(self, t):
        return self.el(t, self.r.choice(self.r.choice([TRUE, FALSE])))

    def time(self, t):
        v = self.r.random()
        if v < .1:
            return self.el(t, self.r.choice(["", "never", NEVER, "2014"]))
        return self.el(t, iso(int(self.g.time())))

    def flag(self, n, a, p=.5, lo=.1):
        k = self.r.random()
        if k < p:
            n["a"][a] = self.r.choice(TRUE)
        elif k < p + lo:
            n["a"][a] = self.r.choice(FALSE)

    def pstring(self, t="Value"):
        k = self.r.random()
        if k < .35:
            n = node(t, None, a={})
            n["prot"] = E.tobytes(self.g.text())
            n["a"]["Protected"] = self.r.choice(TRUE)
            return n
        n = node(t, E.tobytes(self.g.text(False)).decode())
        self.flag(n, "ProtectedInMemory", .25)
        if self.r.random() < .1:
            n["a"]["Protected"] = self.r.choice(FALSE)
        return n

    def payload(self, t):
        data = E.tobytes(self.g.binary())
        k = self.r.random()
        n = node(t, None, a={})
        if k < .3:
            n["prot"] = data
            n["a"]["Protected"] = self.r.choice(TRUE)
            return n
        if k < .6:
            n["a"]["Compressed"] = self.r.choice(TRUE)
            n["bin"] = gz(data, self.r)
        else:
            if k < .65:
                n["a"]["Compressed"] = self.r.choice(FALSE)
            n["bin"] = data
        self.flag(n, "ProtectedInMemory", .2)
        return n

    # ---- inner nodes
    def mix(self, kids):
        """Order of the children is free; elements of unknown kinds are passed over."""
        r = self.r
        if r.random() < .12:
            k = r.random()
            if k < .4:
                kids.append(node("Unknown", "x"))
            elif k < .7:
                kids.append(node("Unknown", None, [node("UUID", "AAAA"), node("Name", "y")]))
            else:
                n = node("Unknown", None)
                n["prot"] = r.randbytes(r.choice([1, 7, 64, 65]))
                kids.append(n)
        if r.random() < .5:
            r.shuffle(kids)
        return kids

    def inner(self, t, kids, must=False):
        if not must and (not kids or not self.has()):
            return []
        return [node(t, None, self.mix(kids))]

    def times(self):
        k = []
        for t in ("CreationTime", "LastModificationTime", "LastAccessTime", "ExpiryTime", "LocationChanged"):
            k += self.time(t)
        return self.inner("Times", k + self.bool("Expires") + self.num("UsageCount"))

    def icon(self):
        k = self.r.random()
        if k < .3 and self.icons:
            return self.uuid("CustomIconUUID", self.r.choice(self.icons))
        if k < .4:
            return self.uuid("CustomIconUUID", self.r.choice(["00" * 16, self.g.uuid()]))
        return []

    def attachment(self):
        kids = self.text("Key", True)
        if self.binids and self.r.random() < .7:
            # what a reference may contain besides does not count
            kids.append(node("Value", "QUJD" if self.g.r2.random() < .06 else None, a={"Ref": self.r.choice(self.binids)}))
        elif self.r.random() < .9:
            kids.append(self.payload("Value"))
        return node("Binary", None, self.mix(kids))

    def entry(self, uuid, depth=0):
        r = self.r
        k = self.uuid("UUID", uuid, depth == 0) + self.num("IconID") + self.text("ForegroundColor") + self.text("BackgroundColor")
        k += self.text("OverrideURL") + self.text("Tags") + self.icon() + self.times()
        a = self.bool("Enabled") + self.num("DataTransferObfuscation", ["0", "1", "2", "4294967295"]) + self.text("DefaultSequence")
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            a += self.inner("Association", self.text("Window") + self.text("KeystrokeSequence"))
        k += self.inner("AutoType", a)
        keys = [s for s in STD if self.has()] + [E.tobytes(self.g.name()).decode() for _ in range(r.choice([0, 0, 1, 3]))]
        if self.g.r2.random() < .25:               # keys of any text, also ones much like the standard ones
            k2 = self.g.r2.choice(["title", "TITLE", "Title2", "Url", "username", "User Name", "password", "notes", "Note", "S", "&<'\"]]>", "\u00e5", "a b"])
            keys.append(k2)
        if len(keys) > 2 and r.random() < .3:      # keys of one's own may repeat
            keys.append(r.choice([s for s in keys if s not in STD] or ["own"]))
        r.shuffle(keys)
        for s in keys:
            kids = [node("Key", s)]
            if r.random() < .95:
                kids.append(self.pstring())
            k.append(node("String", None, self.mix(kids)))
        for _ in range(r.choice([0, 0, 1, 2])):
            k.append(self.attachment())
        if depth < 3:
            hs = [self.entry(uuid if r.random() < .8 else self.g.uuid(), depth + 1)
                  for _ in range(r.choice([0, 0, 1, 3]) if depth == 0 else r.choice([0, 0, 0, 1]))]
            k += self.inner("History", hs)
        return node("Entry", None, self.mix(k))

    def group(self, depth=0):
        r = self.r
        u = self.g.uuid()
        self.groups.append(u)
        k = self.uuid("UUID", u, True) + self.text("Name") + self.text("Notes") + self.num("IconID") + self.icon() + self.times()
        k += self.bool("IsExpanded") + self.text("DefaultAutoTypeSequence") + self.bool("EnableAutoType") + self.bool("EnableSearching")
        es = [self.g.uuid() for _ in range(r.choice([0, 1, 2, 4]))]
        if es and "00" * 16 not in self.entries and self.g.r2.random() < .06:
            es[-1] = "00" * 16
        if r.random() < .6:
            k += self.uuid("LastTopVisibleEntry", r.choice(es + self.entries + ["00" * 16, self.g.uuid()]))
        self.entries += es
        k += [self.entry(e) for e in es]
        if depth < r.choice([1, 2, 4]):
            k += [self.group(depth + 1) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        return node("Group", None, self.mix(k))

    def gref(self, t):
        k = self.r.random()
        if k < .6:
            return self.uuid(t, self.r.choice(self.groups))
        if k < .8:
            return self.uuid(t, self.r.choice([self.g.uuid(), "00" * 16] + self.entries))
        return self.el(t, "") if k < .9 else []

    def doc(self):
        r = self.r
        self.groups, self.entries = [], []
        n = r.choice([0, 1, 2, 5])
        self.binids = r.sample(["0", "1", "2", "3", "10", "77", "a", "b c", "-1", "00", "01"], n)
        self.icons = [self.g.uuid() for _ in range(r.choice([0, 1, 3]))]
        root = self.group()
        m = []
        m += self.el("Generator", "KeePass") if r.random() < .3 else self.text("Generator")
        for t in ("DatabaseName", "DatabaseDescription", "DefaultUserName", "Color"):
            m += self.text(t)
        for t in ("DatabaseNameChanged", "DatabaseDescriptionChanged", "DefaultUserNameChanged", "MasterKeyChanged",
                  "RecycleBinChanged", "EntryTemplatesGroupChanged", "SettingsChanged"):
            m += self.time(t)
        m += self.num("MaintenanceHistoryDays") + self.num("HistoryMaxItems", gen.I32)
        for t in ("MasterKeyChangeRec", "MasterKeyChangeForce", "HistoryMaxSize"):
            m += self.num(t, gen.I64)
        m += self.inner("MemoryProtection", [x for t in ("ProtectTitle", "ProtectUserName", "ProtectPassword", "ProtectURL", "ProtectNotes")
                                             for x in self.bool(t)])
        m += self.bool("RecycleBinEnabled")
        for t in ("RecycleBinUUID", "EntryTemplatesGroup", "LastSelectedGroup", "LastTopVisibleGroup"):
            m += self.gref(t)
        ic = []
        for u in self.icons:
            d = node("Data", None)
            d["bin"] = E.tobytes(self.g.binary()) if r.random() < .9 else b""
            ic.append(node("Icon", None, self.mix(self.uuid("UUID", u, True) + [d])))
        m += self.inner("CustomIcons", ic, True)
        bs = []
        for i in self.binids:
            b = self.payload("Binary")
            b["a"]["ID"] = i
            bs.append(b)
        m += self.inner("Binaries", bs, bool(bs))
        cd = []
        for _ in range(r.choice([0, 1, 3])):
            cd += self.inner("Item", self.text("Key") + self.text("Value"))
        m += self.inner("CustomData", cd)
        rk = [root]
        if r.random() < .5:
            rk.append(node("DeletedObjects", None, [node("DeletedObject", None, self.uuid("UUID", self.g.uuid(), True) +
                                                         self.el("DeletionTime", iso(1000000000), True))]))
        top = [node("Meta", None, self.mix(m)), node("Root", None, self.mix(rk))]
        if r.random() < .2:
            top.reverse()
        return node("KeePassFile", None, top)

    def header(self):
        r = self.r
        f = codec.kdbx_fields(r.randbytes(r.choice([32, 32, 16, 1, 64])), r.randbytes(32), r.choice([0, 1, 2, 5, 60]), r.randbytes(16),
                              r.randbytes(32), r.randbytes(32), r.random() < .5)
        end = (0, r.choice([b"", b"\r\n\r\n", r.randbytes(40)]))
        f = f[:-1]
        if r.random() < .4:
            r.shuffle(f)
        if r.random() < .2:
            i = r.choice([4, 5, 7])
            f.insert(0, (i, r.randbytes({4: 32, 5: 32, 7: 16}[i])))
        return f + [end]

    def encoded(self, parts, xenc, **kw):
        """A well-formed file whose document is encoded in that way."""
        self.style = {"latin-1": 0, "folded": 2, "refs": 3}.get(xenc, self.style)
        doc = self.doc()
        for g in [g for n in doc["c"] if n["t"] == "Root" for g in n["c"] if g["t"] == "Group"]:
            g["c"] = [n for n in g["c"] if n["t"] != "Notes"] + [node("Notes", WIDE)]
        return codec.kdbx_write(self.header(), doc, parts, self.r, self.style, xenc=xenc, **kw)

    def file(self, parts, fault=None):
        r = self.r
        doc, f, kw = self.doc(), self.header(), {}

        def find(t, n=doc):
            return [x for x in n["c"] if x["t"] == t]

        def sub(i, v):
            nonlocal f
            f = [(a, v if a == i else b) for a, b in f]
        if fault is None and r.random() < .2:
            kw["ver"] = r.choice([0x00030000, 0x00030004, 0x0003ffff])
        if fault == "binary":
            rt = find("Group", find("Root")[0])[0]
            e = node("Entry", None, [node("Binary", None, [node("Key", "k"), node("Value", None, a={"Ref": "missing"})])])
            rt["c"].append(e)
        elif fault == "history-binary":
            rt = find("Group", find("Root")[0])[0]
            e = node("Entry", None, [node("Binary", None, [node("Key", "k"), node("Value", None, a={"Ref": ""})])])
            rt["c"].append(node("Entry", None, [node("History", None, [e])]))
        elif fault == "cipher":
            sub(2, r.randbytes(16))
        elif fault == "compression":
            sub(3, struct.pack("<I", r.choice([2, 3, 255, 0x01000000, 0xffffffff])))
        elif fault == "stream":
            sub(10, struct.pack("<I", r.choice([0, 1, 3, 0x0200, 0x02000002])))
        elif fault == "field":
            f.insert(r.randrange(len(f)), (r.choice([11, 12, 13, 127, 128, 255]), r.randbytes(r.choice([0, 4, 32]))))
        elif fault in ("Meta", "Root"):
            doc["c"] = [x for x in doc["c"] if x["t"] != fault]
        elif fault == "Group":
            for x in find("Root"):
                x["c"] = [y for y in x["c"] if y["t"] != "Group"]
        elif fault == "name":
            doc["t"] = "KeyPassFile"
        elif fault == "hash":
            kw["headerhash"] = r.choice([r.randbytes(32), bytes(32)])
        elif fault == "nohash":
            kw["headerhash"] = False
        elif fault == "size5":
            sub(5, r.randbytes(r.choice([0, 16, 31, 33, 64])))
        elif fault == "size7":
            sub(7, r.randbytes(r.choice([0, 8, 15, 17, 32])))
        elif fault == "size8":
            sub(8, r.randbytes(r.choice([0, 16, 31, 33])))
        elif fault == "size9":
            sub(9, r.randbytes(r.choice([0, 16, 31, 33])))
        elif fault == "sig":
            kw.update(r.choice([{"sig0": 0x9aa2d902}, {"sig1": codec.SIG1}, {"sig1": 0xb54bfb66}, {"sig0": 0}]))
        elif fault == "version":
            kw["ver"] = r.choice([0x00040000, 0x00040001, 0x00050000, 0xffff0001])
        elif fault == "gzip":
            m = find("Meta")[0]
            b = node("Binary", None, a={"ID": "bad", "Compressed": "True"})
            z = gz(b"some data, some data")
            b["bin"] = r.choice([b"", z[:-1], z[:5], z[:12] + b"\xff" + z[13:], b"not gzip at all", z[:-8] + bytes(8)])
            bs = find("Binaries", m)
            if bs:
                bs[0]["c"].append(b)
            else:
                m["c"].append(node("Binaries", None, [b]))
        elif fault == "base64":
            m = find("Meta")[0]
            b = node("Binary", r.choice(["A", "QUJ", "QUJD=", "!!!!", "QUJDRA=", "QQ=Q"]), a={"ID": "bad"})
            bs = find("Binaries", m)
            if bs:
                bs[0]["c"].append(b)
            else:
                m["c"].append(node("Binaries", None, [b]))
        xw = None
        size = r.choice([1 << 20, 1 << 20, 64, 100, 1000, 16384])
        return codec.kdbx_write(f, doc, parts, r, self.style, size, gz=None, **kw)


FAULTS = ["binary", "history-binary", "cipher", "compression", "stream", "field", "Meta", "Root", "Group", "name", "hash", "nohash",
          "size5", "size7", "size8", "size9", "sig", "version", "gzip", "base64"]


# ---- one element at a time
BOOLS = {"ProtectTitle", "ProtectUserName", "ProtectPassword", "ProtectURL", "ProtectNotes", "RecycleBinEnabled", "Expires", "IsExpanded",
         "EnableAutoType", "EnableSearching", "Enabled"}
MOMENTS = {"DatabaseNameChanged", "DatabaseDescriptionChanged", "DefaultUserNameChanged", "MasterKeyChanged", "RecycleBinChanged",
           "EntryTemplatesGroupChanged", "CreationTime", "LastModificationTime", "LastAccessTime", "ExpiryTime", "LocationChanged"}
NUMBERS = {"MaintenanceHistoryDays": gen.U32, "HistoryMaxItems": gen.I32, "MasterKeyChangeRec": gen.I64, "MasterKeyChangeForce": gen.I64,
           "HistoryMaxSize": gen.I64, "IconID": gen.U32, "UsageCount": gen.U32, "DataTransferObfuscation": gen.U32}
REFS = {"RecycleBinUUID", "EntryTemplatesGroup", "LastSelectedGroup", "LastTopVisibleGroup", "LastTopVisibleEntry", "CustomIconUUID"}


def b64(hx):
    return base64.b64encode(bytes.fromhex(hx)).decode()


def full():
    """A document with one of everything."""
    def times():
        return node("Times", None, [node(t, iso(1409529600 + i)) for i, t in enumerate(sorted(MOMENTS & {"CreationTime", "LastModificationTime", "LastAccessTime",
                    "ExpiryTime", "LocationChanged"}))] + [node("Expires", "True"), node("UsageCount", "3")])

    def binary(t, data, form, **a):
        n = node(t, None)
        n["a"].update(a)
        if form == "prot":
            n["prot"] = data
            n["a"]["Protected"] = "True"
        elif form == "gz":
            n["bin"] = gz(data)
            n["a"]["Compressed"] = "True"
        else:
            n["bin"] = data
        return n

    def entry(u, hist=()):
        p = node("Value", None)
        p["prot"], p["a"]["Protected"] = b"secret", "True"
        k = [node("UUID", b64(u)), node("IconID", "5"), node("CustomIconUUID", b64("c1" * 16)), node("ForegroundColor", "#111111"), node("BackgroundColor", "#222222"),
             node("OverrideURL", "o"), node("Tags", "t"), times()]
        k += [node("String", None, [node("Key", x), node("Value", x.lower())]) for x in STD if x != "Password"]
        k += [node("String", None, [node("Key", "Password"), p]), node("String", None, [node("Key", "own"), node("Value", "v")])]
        k += [node("Binary", None, [node("Key", "ref"), node("Value", None, a={"Ref": "1"})]), node("Binary", None, [node("Key", "plain"), binary("Value", b"in", "")]),
              node("Binary", None, [node("Key", "prot"), binary("Value", b"line", "prot")]), node("Binary", None, [node("Key", "gz"), binary("Value", b"zipped", "gz")])]
        k.append(node("AutoType", None, [node("Enabled", "True"), node("DataTransferObfuscation", "1"), node("DefaultSequence", "s"),
                                         node("Association", None, [node("Window", "w"), node("KeystrokeSequence", "q")])]))
        return node("Entry", None, k + ([node("History", None, list(hist))] if hist else []))

    def group(u, kids):
        return node("Group", None, [node("UUID", b64(u)), node("Name", "g"), node("Notes", "n"), node("IconID", "7"), node("CustomIconUUID", b64("c2" * 16)), times(),
                                    node("IsExpanded", "True"), node("DefaultAutoTypeSequence", "d"), node("EnableAutoType", "True"), node("EnableSearching", "True"),
                                    node("LastTopVisibleEntry", b64("e1" * 16))] + kids)
    root = group("01" * 16, [entry("e1" * 16, [entry("e1" * 16), entry("e3" * 16)]), entry("e2" * 16), group("02" * 16, [entry("e4" * 16)]), group("03" * 16, [])])
    m = [node("Generator", "g"), node("DatabaseName", "n"), node("DatabaseDescription", "d"), node("DefaultUserName", "u"), node("Color", "#333333")]
    m += [node(t, iso(1409529700 + i)) for i, t in enumerate(["DatabaseNameChanged", "DatabaseDescriptionChanged", "DefaultUserNameChanged", "MasterKeyChanged",
                                                               "RecycleBinChanged", "EntryTemplatesGroupChanged"])]
    m += [node("MaintenanceHistoryDays", "11"), node("HistoryMaxItems", "12"), node("MasterKeyChangeRec", "13"), node("MasterKeyChangeForce", "14"), node("HistoryMaxSize", "15")]
    m.append(node("MemoryProtection", None, [node(t, "True") for t in ("ProtectTitle", "ProtectUserName", "ProtectPassword", "ProtectURL", "ProtectNotes")]))
    m += [node("RecycleBinEnabled", "True"), node("RecycleBinUUID", b64("02" * 16)), node("EntryTemplatesGroup", b64("03" * 16)), node("LastSelectedGroup", b64("01" * 16)),
          node("LastTopVisibleGroup", b64("02" * 16))]
    m.append(node("CustomIcons", None, [node("Icon", None, [node("UUID", b64(u)), binary("Data", d, "")]) for u, d in (("c1" * 16, b"i"), ("c2" * 16, b"j"))]))
    m.append(node("Binaries", None, [binary("Binary", b"p", "", ID="0"), binary("Binary", b"zip", "gz", ID="1"), binary("Binary", b"hidden", "prot", ID="2")]))
    m.append(node("CustomData", None, [node("Item", None, [node("Key", "k"), node("Value", "v")])]))
    return node("KeePassFile", None, [node("Meta", None, m), node("Root", None, [root])])


def places(n, at=()):
    yield at, n
    for i, x in enumerate(n["c"]):
        yield from places(x, at + (i,))


def variants(n, path):
    """What may stand in that place instead."""
    t = n["t"]
    marks = n.get("bin") is not None or n.get("prot") is not None or t == "Value" and n["x"] is not None and "String" in path

    def but(**kw):
        x = copy.deepcopy(n)
        x.update(kw)
        return x
    if t in BOOLS:
        return [but(x=v) for v in TRUE + FALSE + [""]]
    if t in MOMENTS:
        return [but(x=v) for v in ["", NEVER, "never"] + [iso(int(v)) for v in gen.TIMES[1:]]]
    if t in NUMBERS:
        return [but(x=v) for v in NUMBERS[t]]
    if t in REFS:
        return [but(x=v) for v in [""] + [b64(u * 16) for u in ("00", "01", "02", "03", "c1", "c2", "e1", "e2", "e4", "99")]]
    if t == "UUID":
        return [but(x=b64(u)) for u in ("00" * 16, "ff" * 16, "77" * 16)]
    if marks:
        out = []
        for prot in (None, "True", "true", "TRUE", "1", "False", "0"):
            for mem in (None, "True", "1", "False"):
                for z in ((None, "True", "1", "False") if "Binary" in path and t != "Data" else (None,)):
                    if t == "Data" and (prot or mem):
                        continue
                    x = node(t, None)
                    x["a"].update({k: v for k, v in n["a"].items() if k in ("ID",)})
                    x["a"].update({k: v for k, v in (("Protected", prot), ("ProtectedInMemory", mem), ("Compressed", z)) if v})
                    if prot and prot not in FALSE:
                        x["prot"] = b"value"
                        if z:
                            continue
                    elif "Binary" in path or t == "Data":
                        x["bin"] = gz(b"value") if z and z not in FALSE else b"value"
                    else:
                        x["x"] = "value"
                    out.append(x)
        return out
    if n["x"] is not None and not n["c"]:
        ts = [v for v in gen.TEXT if v == v.strip(" \t\r\n") and not (t == "Key" and v in STD)]
        return [but(x=v) for v in ts]
    return []


def sweep(thin=1):
    """(place, documents): one element left out, put first or last among its siblings, or with each value of its kind."""
    base = full()
    k = 0
    first = next(i for i, x in enumerate(base["c"][1]["c"][0]["c"]) if x["t"] == "Entry")
    for at, n in list(places(base)):
        if not at:
            continue

        def tree():
            d = copy.deepcopy(base)
            up = d
            for i in at[:-1]:
                up = up["c"][i]
            return d, up
        path, x = [], base
        for i in at:
            x = x["c"][i]
            path.append(x["t"])
        if thin > 1 and len(at) > 3 and path[-1] != "Entry" and "Entry" in path and (path.count("Group") > 1 or at[2] != first or "History" in path[:-1] and at[path.index("History") + 1] > 0):
            continue                       # the other entries have the same elements
        docs = []
        if path not in (["Meta"], ["Root"], ["Root", "Group"], ["Meta", "Binaries"]) and not (path[:2] == ["Meta", "Binaries"] and path[-1] == "Binary"):
            d, up = tree()
            del up["c"][at[-1]]
            docs.append(d)
        for to in (0, -1):
            d, up = tree()
            y = up["c"].pop(at[-1])
            up["c"].insert(0 if to == 0 else len(up["c"]), y)
            docs.append(d)
        for v in variants(n, path):
            k += 1
            if k % thin == 0 or n["t"] in BOOLS or v["x"] in ("", None):
                d, up = tree()
                up["c"][at[-1]] = v
                docs.append(d)
        yield "/".join("%s%d" % z for z in zip(path, at)), docs
