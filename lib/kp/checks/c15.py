"""C15: malformed input is refused with an exception."""
import base64, hashlib, json, random, struct, zlib
from .. import build, codec, crypt as C, docs, enc as E, gen, kdbwork, prim
from ..check import Case
from .c08 import rounds

node = codec.node
END = (0xffff, b"")


# ---------------------------------------------------------------- the files that get the faults
def b64t(b):
    return base64.b64encode(b).decode()


def kdbx_doc():
    """A document that uses everything once or twice."""
    def el(t, x):
        return node(t, x)

    def times():
        return node("Times", None, [el(t, "2014-09-01T02:00:00Z") for t in (
            "CreationTime", "LastModificationTime", "LastAccessTime", "ExpiryTime", "LocationChanged")] + [el("Expires", "True"), el("UsageCount", "7")])

    def prot(t, b, **a):
        n = node(t, None)
        n["a"].update(a)
        n["prot"] = b
        return n

    def bin(t, b, **a):
        n = node(t, None)
        n["a"].update(a)
        n["bin"] = b
        return n

    def string(k, v):
        return node("String", None, [el("Key", k), v])

    def entry(u, hist=True):
        k = [el("UUID", b64t(u)), el("IconID", "5"), el("CustomIconUUID", b64t(b"\5" * 16)), el("ForegroundColor", "#FF0000"),
             el("BackgroundColor", ""), el("OverrideURL", "cmd://x"), el("Tags", "a;b"), times(),
             string("Title", el("Value", "A title")), string("Password", prot("Value", b"secret")), string("Notes", prot("Value", b"")),
             string("Own", el("Value", "v")), string("Own2", prot("Value", b"x" * 70)),
             node("Binary", None, [el("Key", "stored"), node("Value", None, [])]),
             node("Binary", None, [el("Key", "inline"), bin("Value", docs.gz(b"inline data"), Compressed="True")]),
             node("AutoType", None, [el("Enabled", "True"), el("DataTransferObfuscation", "1"), el("DefaultSequence", "{X}"),
                                     node("Association", None, [el("Window", "w"), el("KeystrokeSequence", "s")])])]
        k[-3]["c"][1]["a"]["Ref"] = "0"
        if hist:
            k.append(node("History", None, [entry(u, False), entry(u, False)]))
        return node("Entry", None, k)

    def group(u, kids):
        return node("Group", None, [el("UUID", b64t(u)), el("Name", "group"), el("Notes", "n"), el("IconID", "48"), times(), el("IsExpanded", "True"),
                                    el("DefaultAutoTypeSequence", ""), el("EnableAutoType", "null"), el("EnableSearching", "False"),
                                    el("LastTopVisibleEntry", b64t(b"\x31" * 16))] + kids)
    m = [el("Generator", "KeePass"), el("HeaderHash", ""), el("DatabaseName", "name"), el("DatabaseNameChanged", "2014-09-01T02:00:00Z"),
         el("DatabaseDescription", "d"), el("DefaultUserName", "u"), el("MaintenanceHistoryDays", "365"), el("Color", ""),
         el("MasterKeyChanged", "2014-09-01T02:00:00Z"), el("MasterKeyChangeRec", "-1"), el("MasterKeyChangeForce", "-1"),
         node("MemoryProtection", None, [el("ProtectTitle", "False"), el("ProtectPassword", "True")]),
         node("CustomIcons", None, [node("Icon", None, [el("UUID", b64t(b"\5" * 16)), bin("Data", b"png")])]),
         el("RecycleBinEnabled", "True"), el("RecycleBinUUID", b64t(b"\x21" * 16)), el("RecycleBinChanged", "2014-09-01T02:00:00Z"),
         el("EntryTemplatesGroup", b64t(b"\x22" * 16)), el("HistoryMaxItems", "10"), el("HistoryMaxSize", "6291456"),
         el("LastSelectedGroup", b64t(b"\x20" * 16)), el("LastTopVisibleGroup", b64t(b"\x77" * 16)),
         node("Binaries", None, [bin("Binary", b"stored data", ID="0"), bin("Binary", docs.gz(b"more" * 20), ID="1", Compressed="True"),
                                 prot("Binary", b"hidden", ID="2")]),
         node("CustomData", None, [node("Item", None, [el("Key", "k"), el("Value", "v")])])]
    root = group(b"\x20" * 16, [entry(b"\x31" * 16), group(b"\x21" * 16, [entry(b"\x32" * 16, False)]), group(b"\x22" * 16, [])])
    return node("KeePassFile", None, [node("Meta", None, m), node("Root", None, [root, node("DeletedObjects", None, [
        node("DeletedObject", None, [el("UUID", b64t(b"\x99" * 16)), el("DeletionTime", "2014-09-01T02:00:00Z")])])])])


def kdb_records():
    d = kdbwork.pack(2014, 9, 1, 2, 0, 0)
    gs = [[(1, struct.pack("<I", 10 + i)), (2, b"group\0"), (3, d), (4, d), (5, d), (6, kdbwork.NEVER), (7, struct.pack("<I", 1)),
           (8, struct.pack("<H", lv)), (9, struct.pack("<I", 0)), END] for i, lv in enumerate((0, 1, 0))]
    es = [[(1, bytes([i]) * 16), (2, struct.pack("<I", 10 + o)), (3, struct.pack("<I", 1)), (4, b"title\0"), (5, b"\0"), (6, b"user\0"), (7, b"secret\0"),
           (8, b"notes\r\n\0"), (9, d), (10, d), (11, d), (12, kdbwork.NEVER), (13, b"file\0" if i else b"\0"), (14, b"data\0data" if i else b""), END]
          for i, o in enumerate((0, 2))]
    return gs, es


# ---------------------------------------------------------------- faults
def leaves(n, out=None, up=None):
    out = [] if out is None else out
    for c in n["c"]:
        if c["c"]:
            leaves(c, out)
        else:
            out.append(c)
    return out


def elements(n, out=None):
    """(parent, node) of every element below the root."""
    out = [] if out is None else out
    for c in n["c"]:
        out.append((n, c))
        elements(c, out)
    return out


def clone(n):
    return dict(n, a=dict(n["a"]), c=[clone(c) for c in n["c"]])


VALUES = {"none": "", "space": " \n\t ", "word": "word", "zero": "0", "minus": "-", "minus1": "-1", "big32": "4294967296", "big64": "9223372036854775808",
          "huge": "9" * 400, "float": "1.5e300", "hex": "0xffffffff", "plus": "+5", "b64pad": "====", "b64bad": "!!!!", "b64short": "AAAA",
          "b64long": "QUJD" * 2000, "date0": "0000-00-00T00:00:00Z", "date13": "2014-13-32T25:61:61Z", "date60": "2014-02-31T23:59:60Z",
          "datebig": "99999999999-01-01T00:00:00Z", "dateneg": "-2014--1--1T-1:-1:-1Z", "dateshort": "2014-09-01", "dateother": "2014-09-01T02:00:00+02:00",
          "long": "x" * 300000, "controls": "\t\n\r\u007f\u0085", "unicode": "\U0010ffff\ufffd\u202e" * 50, "boolodd": "tRuE "}


def hit_value(doc, f):
    ls = leaves(doc)
    n = ls[(f["i"] - 1) % len(ls)]
    op = f["op"]
    if op in VALUES:
        n.pop("prot", None)
        n.pop("bin", None)
        n["x"] = VALUES[op]
    elif op == "kids":
        n["c"] = [node("Value", "x"), node("UUID", "y")]
    elif op == "prot":
        n["a"]["Protected"] = "True"
    elif op == "protbad":
        n.pop("prot", None)
        n["x"] = "A"
        n["a"]["Protected"] = "True"
    elif op == "compressed":
        n["a"]["Compressed"] = "True"
    elif op == "both":
        n["a"].update(Compressed="True", Protected="True", ProtectedInMemory="True")
    elif op == "mem":
        n["a"]["ProtectedInMemory"] = "yes"
    elif op == "refmissing":
        n["a"]["Ref"] = "999"
    elif op == "refempty":
        n["a"]["Ref"] = ""
    elif op == "refcopy":
        n["a"]["Ref"] = "0"
    elif op == "idcopy":
        n["a"]["ID"] = "0"
    elif op == "idnone":
        n["a"] = {}


def hit_element(doc, f, big):
    es = elements(doc)
    p, n = es[(f["i"] - 1) % len(es)]
    k = next(i for i, c in enumerate(p["c"]) if c is n)
    op = f["op"]
    if op == "drop":
        del p["c"][k]
    elif op == "dup":
        p["c"].insert(k, clone(n))
    elif op == "rename":
        n["t"] = "Renamed"
    elif op == "lower":
        n["t"] = n["t"].lower()
    elif op == "hollow":
        n["c"], n["x"] = [], ""
        n.pop("prot", None)
        n.pop("bin", None)
    elif op == "inself":
        n["c"] = n["c"] + [clone(n)]
    elif op == "reverse":
        n["c"] = n["c"][::-1]
    elif op == "toroot":
        del p["c"][k]
        doc["c"][-1]["c"].insert(0, n)
    elif op == "many":
        p["c"][k:k] = [clone(n) for _ in range(big)]
    elif op == "twins":
        p["c"].append(clone(n))
    elif op == "sameid":
        for _, x in es:
            if x["t"] == "UUID":
                x["x"] = b64t(b"\x20" * 16)
                x.pop("prot", None)


def hit_markup(xml, f, rnd):
    op, late = f["op"], f["i"] == 1
    at = rnd.randrange(len(xml)) if late else xml.find(b"<KeePassFile") if xml.find(b"<KeePassFile") >= 0 else 0
    head, body = xml[:at], xml[at:]
    if op == "nothing":
        return b""
    if op == "cut":
        return xml[:rnd.randrange(len(xml))] if xml else b""
    if op == "cuthalf":
        return xml[:len(xml) // 2]
    if op == "doctype":
        return head + b"<!DOCTYPE KeePassFile [ <!ELEMENT KeePassFile ANY> ]>" + body
    if op == "entities":
        return head + b'<!DOCTYPE x [<!ENTITY a "aaaaaaaaaa"><!ENTITY b "&a;&a;&a;&a;"><!ENTITY c "&b;&b;&b;&b;">]>' + body.replace(b"group", b"&c;")
    if op == "external":
        return head + b'<!DOCTYPE x [<!ENTITY a SYSTEM "file:///etc/hostname">]>' + body.replace(b"group", b"&a;")
    if op in ("utf16le", "utf16be", "latin1"):
        enc = {"utf16le": "utf-16-le", "utf16be": "utf-16-be", "latin1": "latin-1"}[op]
        t = xml.decode("utf-8", "replace")
        b = t.encode(enc, "replace")
        return (t[:1].encode() if False else {"utf16le": b"\xff\xfe", "utf16be": b"\xfe\xff", "latin1": b""}[op] if late else b"") + b
    if op == "badutf8":
        return head + b"\xc0\x80\xed\xa0\x80\xff\xfe\xf5" + body
    if op == "nul":
        return head + b"\0" + body
    if op == "bom":
        return b"\xef\xbb\xbf" + xml
    if op == "tail":
        return xml + b"trailing text" + bytes(3)
    if op == "text":
        return b"not a document at all"
    if op == "noroot":
        return b'<?xml version="1.0"?>'
    if op == "tworoots":
        return xml + xml
    if op == "wrongroot":
        return b"<Other>" + body + b"</Other>"
    if op == "pi":
        return head + b"<?pi some ?>" + body
    if op == "comments":
        return head + b"<!-- c -->" * 100 + body
    if op == "cdata":
        return head + b"<![CDATA[ ]]&gt; ]]>" + body
    if op == "unclosed":
        return head + b"<Group><UUID>" + body
    if op == "crossed":
        return head + b"<a><b></a></b>" + body
    if op == "attrs":
        return xml.replace(b"<Group", b"<Group " + b" ".join(b'a%d="v"' % i for i in range(2000)), 1)
    if op == "emptytag":
        return head + b"<></>" + body
    if op == "deep":
        return xml.replace(b"</Group>", b"<Group>" * 1000 + b"</Group>" * 1000 + b"</Group>", 1)
    if op == "deepmeta":
        return xml.replace(b"</Meta>", b"<X>" * 1000 + b"</X>" * 1000 + b"</Meta>", 1)
    return xml


def hit_gzip(z, xml, op, rnd):
    if op == "not":
        return b"no gzip " * 5
    if op == "cut":
        return z[:rnd.randrange(len(z))]
    if op == "cuthalf":
        return z[:len(z) // 2]
    if op == "flip":
        i = rnd.randrange(len(z))
        return z[:i] + bytes([z[i] ^ 1 << rnd.randrange(8)]) + z[i + 1:]
    if op == "crc":
        return z[:-8] + b"\1\2\3\4" + z[-4:]
    if op == "size":
        return z[:-4] + b"\xff\xff\xff\x7f"
    if op == "twice":
        return z + z
    if op == "nothing":
        return b""
    if op == "bomb":
        return docs.gz(xml + b" " * 8000000)
    if op == "plain":
        return xml
    c = zlib.compressobj(0, zlib.DEFLATED, 31)
    return c.compress(xml) + c.flush()


def hit_frames(raw, f, rnd):
    """raw: the framed data."""
    bl, p = [], 0
    while p + 40 <= len(raw):
        n = struct.unpack_from("<I", raw, p + 36)[0]
        bl.append(raw[p:p + 40 + n])
        p += 40 + n
    k = min(f["i"], len(bl) - 1)
    b, op = bl[k], f["op"]
    if op == "index":
        b = struct.pack("<I", rnd.choice([1, 77, 0xffffffff])) + b[4:]
    elif op == "hash":
        b = b[:4] + rnd.randbytes(32) + b[36:]
    elif op == "size0":
        b = b[:36] + bytes(4) + b[40:]
    elif op == "sizeplus":
        b = b[:36] + struct.pack("<I", len(b) - 39) + b[40:]
    elif op == "sizehuge":
        b = b[:36] + struct.pack("<I", rnd.choice([0x7fffffff, 0x80000000, 0xffffffff, 0xffffffd8])) + b[40:]
    elif op == "noend":
        return b"".join(bl[:-1])
    elif op == "nothing":
        return b""
    elif op == "bytes":
        return b"".join(bl[:k]) + b[:rnd.randrange(len(b))]
    elif op == "endhash":
        bl[-1] = bl[-1][:4] + b"\1" * 32 + bytes(4)
        return b"".join(bl)
    elif op == "afterend":
        return b"".join(bl) + rnd.randbytes(100)
    elif op == "endearly":
        return b"".join(bl[:k]) + struct.pack("<I", k) + bytes(36) + b"".join(bl[k:])
    return b"".join(bl[:k]) + b + b"".join(bl[k + 1:])


def kdbx_file(faults, parts, rnd, small=False):
    doc = kdbx_doc()
    comp = any(f["layer"] == "gzip" for f in faults) or rnd.random() < .3
    fields = codec.kdbx_fields(b"m" * 32, b"t" * 32, 1, b"i" * 16, b"r" * 32, b"s" * 32, comp)
    xml = z = framed = None
    hdr = [f for f in faults if f["layer"] == "header"]
    for f in faults:
        if f["layer"] == "elements":
            hit_element(doc, f, 3 if small else 200)
    for f in faults:
        if f["layer"] == "values":
            hit_value(doc, f)
    sizes = {}
    for f in hdr:
        i = f["i"] - 1
        if i >= len(fields):
            continue
        t, v = fields[i]
        op = f["op"]
        if op == "drop":
            del fields[i]
        elif op == "dup":
            fields.insert(i, (t, v))
        elif op == "grow":
            fields[i] = (t, v + rnd.randbytes(rnd.choice([1, 16, 300])))
        elif op == "shrink":
            fields[i] = (t, v[:-rnd.choice([1, len(v) - 1 or 1])])
        elif op == "empty":
            fields[i] = (t, b"")
        elif op == "zeros":
            fields[i] = (t, bytes(len(v)))
        elif op == "ones":
            fields[i] = (t, b"\xff" * len(v)) if t != 6 else (t, b"\xff\xff\1" + bytes(5))
        elif op == "random":
            fields[i] = (t, rnd.randbytes(len(v))) if t != 6 else (t, rnd.randbytes(2) + bytes(6))
        elif op == "first":
            fields.insert(0, fields.pop(i))
        elif op == "hugesize":
            sizes[t] = 0xffff
    out = kdbx_pack(doc, fields, parts, faults, rnd, small)
    for t, n in sizes.items():
        p = 12
        while p + 3 <= len(out):
            i, m = struct.unpack_from("<BH", out, p)
            if i == t:
                out = out[:p + 1] + struct.pack("<H", n) + out[p + 3:]
                break
            if i == 0:
                break
            p += 3 + m
    return out


def kdbx_pack(doc, fields, parts, faults, rnd, small=False, mutate=None):
    f = dict(fields)
    h = codec.kdbx_header(fields)
    for m in doc["c"]:
        for c in m["c"]:
            if m["t"] == "Meta" and c["t"] == "HeaderHash" and c["x"] == "" and not c["c"]:
                c["bin"] = C.sha256(h)
    xml = codec.xml_write(doc, C.Stream((f.get(8, b"") + bytes(32))[:32]), rnd, rnd.choice([0, 0, 1]))
    for x in faults:
        if x["layer"] == "markup":
            xml = hit_markup(xml, x, rnd)
    if mutate:
        xml = mutate(xml)
    data = xml
    if f.get(3, b"\0\0\0\0")[:1] == b"\1":
        data = docs.gz(xml)
    for x in faults:
        if x["layer"] == "gzip" and data:
            data = hit_gzip(data, xml, x["op"], rnd)
    data = codec.blocks_write(data, rnd.choice([1 << 20, 1000]))
    for x in faults:
        if x["layer"] == "frames" and data:
            data = hit_frames(data, x, rnd)
    return codec.kdbx_write(fields, None, parts, payload=data, xml=b"")


def hit_record(recs, f, rnd):
    i = (f["i"] - 1) % len(recs) if recs else -1
    if i < 0:
        return
    r, op = recs[i], f["op"]
    if op == "dropend":
        recs[i] = [x for x in r if x != END]
    elif op == "drop":
        del recs[i]
    elif op == "dup":
        recs.insert(i, list(r))
    elif op == "swap":
        recs[i], recs[0] = recs[0], recs[i]
    elif op == "empty":
        recs[i] = []
    elif op == "endfirst":
        recs[i] = [END] + r
    elif op == "twoends":
        recs[i] = r + [END]
    elif op == "sameid":
        for x in recs:
            for k, y in enumerate(x):
                if len(y) > 1 and y[0] in (1, 2) and len(y[1]) == 4:
                    x[k] = (y[0], struct.pack("<I", 10))


CLAIM = {"size0": 0, "size1": 1, "size64k": 65536, "size2g": 2 ** 31, "size2gm": 2 ** 31 - 1, "size4g": 2 ** 32 - 1, "size4gm": 2 ** 32 - 6}


def hit_field(recs, f, rnd):
    """A field becomes (type, data[, claimed size])."""
    r = recs[(f["i"] - 1) % len(recs)] if recs else []
    j = f["j"] - 1
    if j >= len(r):
        return
    t, d = r[j][:2]
    op = f["op"]
    if op == "drop":
        del r[j]
        return
    if op == "dup":
        r.insert(j, r[j])
        return
    x = {"retype": lambda: (rnd.randrange(15), d), "unknown": lambda: (rnd.choice([15, 16, 255, 0x7fff, 0xfffe]), d),
         "sizeplus": lambda: (t, d, len(d) + 1), "sizeminus": lambda: (t, d, max(0, len(d) - 1)), "empty": lambda: (t, b""),
         "zeros": lambda: (t, bytes(len(d))), "ones": lambda: (t, b"\xff" * len(d)), "random": lambda: (t, rnd.randbytes(len(d))),
         "noterm": lambda: (t, d.rstrip(b"\0")), "long": lambda: (t, b"x" * 200000 + b"\0"), "innernul": lambda: (t, b"a\0b\0"),
         "badutf8": lambda: (t, b"\xc0\x80\xff\xfe\0"), "short": lambda: (t, d[:len(d) // 2]), "longer": lambda: (t, d + rnd.randbytes(3))}
    r[j] = x[op]() if op in x else (t, d, CLAIM[op])


def kdb_content(recs):
    return b"".join(struct.pack("<HI", x[0], x[2] if len(x) > 2 else len(x[1])) + x[1] for r in recs for x in r)


def kdb_file(faults, parts, rnd, mutate=None):
    gs, es = kdb_records()
    recs = gs + es
    for f in faults:
        if f["layer"] == "fields":
            hit_field(recs, f, rnd)
    for f in faults:
        if f["layer"] == "records":
            hit_record(recs, f, rnd)
    content = kdb_content(recs)
    if mutate:
        content = mutate(content)
    h = {"sig0": codec.SIG0, "sig1": codec.SIG1, "flags": rnd.choice([3, 9]), "version": 0x00030002, "mseed": b"m" * 16, "iv": b"i" * 16,
         "ngroups": len(gs), "nentries": len(es), "chash": C.sha256(content), "tseed": b"t" * 32, "rounds": 1}
    names = ["sig0", "sig1", "flags", "version", "mseed", "iv", "ngroups", "nentries", "chash", "tseed", "rounds"]
    cut = None
    for f in faults:
        if f["layer"] != "header" or f["i"] > len(names):
            continue
        k, op = names[f["i"] - 1], f["op"]
        v = h[k]
        if op == "cut":
            cut = f["i"] * 11
        elif isinstance(v, bytes):
            n = len(v)
            h[k] = {"zeros": bytes(n), "ones": b"\xff" * n, "random": rnd.randbytes(n), "plus1": v[:-1] + b"\1", "minus1": b"\1" + v[1:],
                    "high": b"\x80" * n}[op]
        else:
            h[k] = {"zeros": 0, "ones": 0xffffffff if k != "rounds" else 65535, "random": rnd.getrandbits(32 if k != "rounds" else 12), "plus1": v + 1,
                    "minus1": (v - 1) & 0xffffffff, "high": v | 0x80000000 if k != "rounds" else v | 0x8000}[op]
    cipher = "aes" if h["flags"] & 2 else "twofish"
    raw = codec.kdb_write(parts, gs, es, cipher, content=content, **h)
    body = raw[124:]
    for f in faults:
        if f["layer"] == "body":
            op = f["op"]
            body = {"empty": b"", "half": body[:len(body) // 2], "cut1": body[:-1], "cut16": body[:-16], "cut17": body[:-17], "garbage": rnd.randbytes(64),
                    "wrongpad": body[:-16] + rnd.randbytes(16), "more": body + body[:16]}[op]
    raw = raw[:124] + body
    return raw[:cut] if cut is not None else raw


# ---------------------------------------------------------------- runs
def attempt(r, raw, fmt, faults, proj="true", timeout=None):
    if rounds(raw, fmt) > 300000:
        return
    p = r.path("f")
    r.put("f", raw)
    a = r.do("import", h="b", k="k", path=p, fmt=fmt, proj=proj)
    r.event("import", out=a["out"], what=str(a.get("what", a.get("stderr", "")))[-600:], faults=faults)
    if a["out"] == "ok":
        use(r, fmt, faults)
    return a


def use(r, fmt, faults):
    u = r.do("exercise", h="b", k="k", fmt=fmt, path=r.path("out"))
    dead = u.get("out") if u.get("out") in ("crash", "hang") else "ok"
    r.event("use", out=dead, json=u.get("json", "none"), save=u.get("save", "none"), eq=u.get("eq", "none"),
            what=str(u.get("stderr", ""))[-600:], faults=faults)


def digest(a):
    return hashlib.sha256(json.dumps(a.get("proj", {}), sort_keys=True).encode()).hexdigest() if a["out"] == "ok" else ""


def sound(r, fmt, kind="sound"):
    raw = (kdbx_file if fmt == "kdbx" else kdb_file)([], r.k["k"], random.Random(1))
    r.put("s", raw)
    a = r.do("import", h="s", k="k", path=r.path("s"), fmt=fmt)
    p = a.get("proj", {})
    if fmt == "kdb" and "root" in p:             # groups of a KDB file get new identifiers
        stack = [p["root"]]
        while stack:
            g = stack.pop()
            g["uuid"] = ""
            stack += g["groups"]
    r.event(kind, out=a["out"], proj=digest(a))


def start(r, fmt):
    r.key("k", pw=b"secret")
    r.ev.clear()
    sound(r, fmt)


def given(fmt, seed, sets, small=False):
    def f(r):
        rnd = random.Random(seed)
        start(r, fmt)
        for fs in sets:
            raw = kdbx_file(fs, r.k["k"], rnd, small) if fmt == "kdbx" else kdb_file(fs, r.k["k"], rnd)
            attempt(r, raw, fmt, fs)
        sound(r, fmt, "again")
    return f


TOKENS = [b"<", b">", b"</", b"/>", b"&", b"&#0;", b"&#xFFFFFFFF;", b"&#1114112;", b"&lt", b"\"", b"'", b"=", b"<!", b"<?", b"<![CDATA[", b"]]>", b"<!--",
          b"-->", b"\0", b"\xff", b"\xc3", b"Protected=\"True\"", b" Ref=\"0\"", b" Compressed=\"True\"", b"<Group>", b"</Group>", b"<Entry>",
          b"<History>", b"<Binary>", b"-1", b"99999999999999999999", b"True", b"AAAA", b"====", b"\r", b"\xed\xa0\x80", b"\xf4\x90\x80\x80"]


def mutator(rnd, text):
    def m(b):
        b = bytearray(b)
        for _ in range(rnd.choice([1, 1, 2, 4, 16])):
            if not b:
                break
            i = rnd.randrange(len(b))
            k = rnd.random()
            if k < .3:
                b[i] = rnd.choice([0, 0xff, 0x7f, 0x80, b[i] ^ 1 << rnd.randrange(8), rnd.randrange(256)])
            elif k < .5:
                n = rnd.choice([1, 2, 4, 16, 200])
                del b[i:i + n]
            elif k < .7:
                j, n = rnd.randrange(len(b)), rnd.choice([1, 4, 30, 300])
                b[i:i] = b[j:j + n]
            elif k < .8:
                j, n = rnd.randrange(len(b)), rnd.choice([1, 2, 4, 16])
                b[i:i + n] = b[j:j + n]
            elif text:
                b[i:i] = rnd.choice(TOKENS)
            else:
                b[i:i + rnd.choice([0, 2, 4])] = rnd.choice([b"\xff\xff", b"\0\0\0\0", b"\xff\xff\xff\xff", b"\xff\xff\0\0\0\0", b"\0\0\0\x80", b"\1\0\0\0"])
        return bytes(b)
    return m


def mutated(fmt, seed, n):
    """Bytes changed at random below the encryption."""
    def f(r):
        rnd = random.Random(seed)
        start(r, fmt)
        for i in range(n):
            s = rnd.getrandbits(40)
            m = mutator(random.Random(s), fmt == "kdbx")
            if fmt == "kdb":
                raw = kdb_file([], r.k["k"], rnd, m)
            else:
                fields = codec.kdbx_fields(b"m" * 32, b"t" * 32, 1, b"i" * 16, b"r" * 32, b"s" * 32, rnd.random() < .2)
                raw = kdbx_pack(kdbx_doc(), fields, r.k["k"], [], rnd, mutate=m)
            attempt(r, raw, fmt, [{"layer": "bytes", "i": i, "op": str(s)}])
        sound(r, fmt, "again")
    return f


def raws(fmt, seed, n):
    """Arbitrary bytes and cut files."""
    def f(r):
        rnd = random.Random(seed)
        start(r, fmt)
        whole = (kdbx_file if fmt == "kdbx" else kdb_file)([], r.k["k"], rnd)
        other = (kdb_file if fmt == "kdbx" else kdbx_file)([], r.k["k"], rnd)
        for i in range(n):
            k = i % 5
            raw = b"" if i == 0 else other if i == 1 else rnd.randbytes(rnd.choice([1, 11, 12, 100, 124, 140, 5000])) if k == 0 else \
                whole[:rnd.randrange(400)] if k == 1 else whole[:12] + rnd.randbytes(rnd.randrange(300)) if k == 2 else \
                whole[:rnd.randrange(len(whole))] if k == 3 else mutator(rnd, False)(whole)
            attempt(r, raw, fmt, [{"layer": "file", "i": i, "op": raw.hex()[:2000]}])
        sound(r, fmt, "again")
    return f


def keyfiles(seed, n):
    """A key file may hold anything."""
    def f(r):
        rnd = random.Random(seed)
        start(r, "kdbx")
        good = [b'<?xml version="1.0"?><KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>' + base64.b64encode(b"k" * 32) + b"</Data></Key></KeyFile>",
                b"ab" * 32]
        odd = [b"", b"\0", b"<", b"<KeyFile>", b"<KeyFile/>", b"<KeyFile><Key/></KeyFile>", b"<KeyFile><Key><Data/></Key></KeyFile>",
               b"<KeyFile><Key><Data>!!!!</Data></Key></KeyFile>", b"<KeyFile><Key><Data>QUJD</Data></Key></KeyFile>", b"\0" * 64, b"zz" * 32,
               b"<KeyFile><Key><Data>" + b"QUJD" * 5000 + b"</Data></Key></KeyFile>", b"a" * 63, b"a" * 65, b"\xff" * 32, b"a" * 32, bytes(200000)]
        for i in range(n):
            b = odd[i] if i < len(odd) else mutator(rnd, True)(rnd.choice(good))
            r.put("key", b)
            a = r.do("key", k="odd", steps=[{"op": "pw", "v": "a"}, {"op": "kf", "v": r.path("key")}])
            o = a.get("out", "ok")
            if "steps" in a:
                bad = [x for x in a["steps"] if x in ("crash", "hang", "null", "other")]
                o = bad[0] if bad else o
            r.event("import", out=o if o != "ok" else "refused", what=str(a.get("stderr", ""))[-600:], faults=[{"layer": "keyfile", "i": i, "op": b[:200].hex()}])
        sound(r, "kdbx", "again")
    return f


def big(fmt, what, n):
    """Large but otherwise ordinary files must be read in reasonable time."""
    def f(r):
        start(r, fmt)
        rnd = random.Random(n)
        if fmt == "kdb":
            gs, es = kdb_records()
            if what == "entries":
                es = es * (n // 2)
            elif what == "groups":
                gs = [[(1, struct.pack("<I", 100 + i)), (8, struct.pack("<H", 0)), END] for i in range(n)]
                es = []
            elif what == "deep":
                gs = [[(1, struct.pack("<I", 100 + i)), (8, struct.pack("<H", i)), END] for i in range(n)]
                es = []
            elif what == "comments":
                gs[0][0:0] = [(0, b"x")] * n
            elif what == "field":
                gs[0][1] = (2, b"x" * n + b"\0")
            raw = codec.kdb_write(r.k["k"], gs, es, "aes", content=kdb_content(gs + es))
        else:
            doc = kdbx_doc()
            root = doc["c"][1]["c"][0]
            e = next(x for x in root["c"] if x["t"] == "Entry")
            if what == "entries":
                root["c"] += [node("Entry", None, [node("UUID", b64t(struct.pack("<IIII", i, 1, 2, 3)))]) for i in range(n)]
            elif what == "groups":
                root["c"] += [node("Group", None, [node("UUID", b64t(struct.pack("<IIII", i, 1, 2, 4)))]) for i in range(n)]
            elif what == "deep":
                g = root
                for i in range(n):
                    x = node("Group", None, [node("UUID", b64t(struct.pack("<IIII", i, 1, 2, 5)))])
                    g["c"].append(x)
                    g = x
            elif what == "history":
                h = next(x for x in e["c"] if x["t"] == "History")
                h["c"] += [node("Entry", None, [node("UUID", b64t(b"\x31" * 16))]) for i in range(n)]
            elif what == "deephistory":
                g = e
                for i in range(n):
                    x = node("Entry", None, [])
                    hs = [k for k in g["c"] if k["t"] == "History"]
                    if hs:
                        hs[0]["c"].append(x)
                    else:
                        g["c"].append(node("History", None, [x]))
                    g = x
            elif what == "fields":
                e["c"] += [node("String", None, [node("Key", "f%d" % i), node("Value", "v")]) for i in range(n)]
            elif what == "attachments":
                e["c"] += [node("Binary", None, [node("Key", "f%d" % i), node("Value", None, a={"Ref": "0"})]) for i in range(n)]
            elif what == "binaries":
                m = next(x for x in doc["c"][0]["c"] if x["t"] == "Binaries")
                m["c"] += [node("Binary", "QUJD", a={"ID": str(10 + i)}) for i in range(n)]
            elif what == "icons":
                m = next(x for x in doc["c"][0]["c"] if x["t"] == "CustomIcons")
                m["c"] += [node("Icon", None, [node("UUID", b64t(struct.pack("<IIII", i, 1, 2, 6))), node("Data", "QUJD")]) for i in range(n)]
            elif what == "unknown":
                root["c"][0:0] = [node("Unknown%d" % i, "x") for i in range(n)]
            elif what == "text":
                root["c"][1]["x"] = "x" * n
            for x in doc["c"]:
                x["c"] = x["c"]
            fields = codec.kdbx_fields(b"m" * 32, b"t" * 32, 1, b"i" * 16, b"r" * 32, b"s" * 32, True)
            raw = kdbx_pack(doc, fields, r.k["k"], [], rnd)
        attempt(r, raw, fmt, [{"layer": "big", "i": n, "op": what}], proj="false")
        sound(r, fmt, "again")
    return f


def model(c, fmt, n, leaves_, elements_, records, sim=0):
    cfg = ('CONSTANTS Fmt = "%s" MaxFaults = %d Leaves = %d Elements = %d Records = %d\n' % (fmt, n, leaves_, elements_, records) +
           ("INIT Init\nNEXT Next\n" if sim else "SPECIFICATION Spec\nPROPERTY Ends\n") + "INVARIANTS SoundLoads NotBelow Emit\n")
    extra = ["-simulate", "num=%d" % sim, "-depth", str(n + 3), "-seed", str(c.seed)] if sim else []
    out = {l for l in c.model("RobustGen", cfg, "%s files with %d fault%s" % (fmt, n, "s" if n > 1 else ""), env={"EMIT": "1"}, extra=extra,
                              sim=bool(sim)) if l.startswith("@FAULT ")}
    return [json.loads(l[7:]) for l in sorted(out)]


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def run(c):
    build.build("asan")
    d = kdbx_doc()
    nl, ne = len(leaves(d)), len(elements(d))
    rnd = random.Random(c.seed)
    cases = []
    asan = dict(flavour="asan", timeout=30)
    for fmt, a in (("kdbx", (nl, ne, 0)), ("kdb", (15, 0, 5))):
        one = model(c, fmt, 1, *a)
        rnd.shuffle(one)
        # the value faults are many: a part of them each time, everything else always
        if c.quick:
            few = [x for x in one if x[0]["layer"] not in ("values", "elements")]
            rest = [x for x in one if x[0]["layer"] in ("values", "elements")]
            one = few + rest[:2600]
        two = model(c, fmt, 2, *a, sim=c.pick(400, 6000)) + model(c, fmt, 3, *a, sim=c.pick(100, 3000))
        for i, s in enumerate(chunks(one, 150)):
            cases.append(Case("one-%s-%d" % (fmt, i), given(fmt, c.seed + i, s), **asan))
        for i, s in enumerate(chunks(two, 150)):
            cases.append(Case("more-%s-%d" % (fmt, i), given(fmt, c.seed + i, s, True), **asan))
        for i in range(c.pick(16, 160)):
            cases.append(Case("mutated-%s-%d" % (fmt, i), mutated(fmt, c.seed * 1000 + i, 60), **asan))
        for i in range(c.pick(2, 20)):
            cases.append(Case("raw-%s-%d" % (fmt, i), raws(fmt, c.seed * 1000 + i, 100), **asan))
    for i in range(c.pick(2, 20)):
        cases.append(Case("keyfile-%d" % i, keyfiles(c.seed * 1000 + i, 100), **asan))
    k = c.pick(1, 4)
    for w, n in (("entries", 20000 * k), ("groups", 20000 * k), ("deep", 1000), ("history", 10000 * k), ("deephistory", 100), ("fields", 20000 * k),
                 ("attachments", 10000 * k), ("binaries", 20000 * k), ("icons", 10000 * k), ("unknown", 50000 * k), ("text", 5000000 * k)):
        cases.append(Case("big-kdbx-" + w, big("kdbx", w, n), timeout=60))
    for w, n in (("entries", 20000 * k), ("groups", 20000 * k), ("deep", 1000), ("comments", 100000 * k), ("field", 5000000 * k)):
        cases.append(Case("big-kdb-" + w, big("kdb", w, n), timeout=60))
    prim.validate(c, "RobustTrace", cases, "malformed files")
