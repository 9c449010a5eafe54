"""Independent reader/writer of the KDB 3 and KDBX 3.1 containers (bytes <-> header fields, blocks, XML nodes,
field records). It knows the published formats only; what a document *means* is the specification's business."""
import base64, re, struct, zlib
import xml.parsers.expat
from . import crypt as C, enc as E

SIG0, SIG1X, SIG1 = 0x9aa2d903, 0xb54bfb67, 0xb54bfb65
AES_ID = "31c1f2e6bf714350be5805216afc5aff"


class Bad(Exception):
    """Not a readable file; args[0] says at which layer."""


# ---------------------------------------------------------------- hashed block stream
def blocks_write(data, size=1 << 20, start=0):
    out, i = [], start
    for p in range(0, len(data), size):
        b = data[p:p + size]
        out.append(struct.pack("<I", i) + C.sha256(b) + struct.pack("<I", len(b)) + b)
        i += 1
    out.append(struct.pack("<I", i) + bytes(32) + struct.pack("<I", 0))
    return b"".join(out)


def blocks_read(raw):
    """[{idx,size,hash,data}], rest; raises Bad at the first incomplete block."""
    bl, p = [], 0
    while True:
        if len(raw) - p < 40:
            raise Bad("blocks", bl)
        idx, h, n = struct.unpack_from("<I32sI", raw, p)
        p += 40
        if len(raw) - p < n:
            raise Bad("blocks", bl)
        d = raw[p:p + n]
        p += n
        bl.append({"idx": idx, "size": n, "hash": "zero" if h == bytes(32) else "ok" if h == C.sha256(d) else "bad",
                   "data": d})
        if n == 0:
            return bl, raw[p:]


def gunzip_members(raw):
    """Decoded bytes and what follows the first member; Bad if damaged or cut short."""
    d = zlib.decompressobj(31)
    try:
        out = d.decompress(raw) + d.flush()
    except zlib.error:
        raise Bad("gzip")
    if not d.eof:
        raise Bad("gzip")
    return out, d.unused_data


# ---------------------------------------------------------------- XML nodes
def node(t, x=None, c=None, **kw):
    n = {"t": t, "a": {}, "x": x, "c": c or []}
    n.update(kw)
    return n


def xml_parse(raw):
    p = xml.parsers.expat.ParserCreate()
    p.buffer_text = True
    root = node("", None)
    stack = [root]

    def start(name, attrs):
        n = node(name)
        n["a"] = dict(attrs)
        stack[-1]["c"].append(n)
        stack.append(n)

    def end(name):
        n = stack.pop()
        if n["x"] is None or n["c"]:
            n["x"] = ""

    def chars(s):
        stack[-1]["x"] = (stack[-1]["x"] or "") + s
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    try:
        p.Parse(raw, True)
    except xml.parsers.expat.ExpatError as e:
        raise Bad("xml", str(e))
    return root["c"][0]


def truth(s):
    return s is not None and s.strip().lower() in ("true", "1", "yes")


B64 = re.compile(r"(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?$")


def b64(s):
    try:
        t = "".join(s.split())
        return base64.b64decode(t, validate=True) if B64.match(t) else None
    except Exception:
        return None


B64TAGS = {"UUID", "CustomIconUUID", "RecycleBinUUID", "EntryTemplatesGroup", "LastSelectedGroup",
           "LastTopVisibleGroup", "LastTopVisibleEntry", "HeaderHash"}


def xml_decode(n, stream, masked, parent=""):
    """Adds to leaves: b = base64-decoded (and unmasked) bytes, z = decompressed b. Document order."""
    stack = [(n, parent)]
    while stack:
        n, parent = stack.pop()
        t = n["t"]
        if truth(n["a"].get("Protected")):
            raw = b64(n["x"])
            if raw is None:
                n["b"] = None
            else:
                n["b"] = stream.process(raw)
                masked.append({"tag": t, "text": n["x"], "masked": raw, "plain": n["b"]})
        elif t in B64TAGS or (t == "Data" and parent == "Icon") or (t == "Binary" and not n["c"]) or \
                (t == "Value" and parent == "Binary"):
            n["b"] = b64(n["x"])
        if truth(n["a"].get("Compressed")) and n.get("b") is not None:
            try:
                n["z"] = gunzip_members(n["b"])[0]
            except Bad:
                n["z"] = None
        for c in reversed(n["c"]):
            stack.append((c, t))


HEXTAGS = B64TAGS


def xml_json(n):
    """Node as the specification sees it."""
    r = {"t": n["t"], "a": n["a"], "x": E.enc(n["x"] or ""), "c": [xml_json(c) for c in n["c"]]}
    for k in ("b", "z"):
        if k in n:
            v = n[k]
            r[k] = "!bad" if v is None else v.hex() if n["t"] in HEXTAGS else E.enc(v)
    return r


def _esc(s, style, rnd):
    out = []
    for ch in s:
        if style == 3 and rnd.random() < .6 and ch not in " \t\n":
            out.append(rnd.choice(["&#%d;", "&#x%x;", "&#x%X;", "&#x00%X;", "&#000%d;"]) % ord(ch))
        elif style == 3 and ch in "\"'":
            out.append("&quot;" if ch == '"' else "&apos;")
        elif ch == "&":
            out.append("&amp;")
        elif ch == "<":
            out.append("&lt;")
        elif ch == ">":
            out.append("&gt;")
        elif ch == "\r":
            out.append("&#xD;")
        elif style and ord(ch) > 126 and rnd and rnd.random() < .5:
            out.append("&#%d;" % ord(ch))
        elif style and ch in "\"'" and rnd and rnd.random() < .5:
            out.append("&quot;" if ch == '"' else "&apos;")
        else:
            out.append(ch)
    return "".join(out)


def xml_write(root, stream, rnd=None, style=0):
    """style 0: compact; 1: indented, mixed escapes, CDATA now and then. Nodes with "prot" (plain bytes) are masked."""
    out = ['<?xml version="1.0" encoding="utf-8" standalone="yes"?>\n']

    def w(n, depth):
        ind = "\n" + "\t" * depth if style else ""
        attrs = dict(n["a"])
        x = n["x"]
        if "prot" in n:
            attrs.setdefault("Protected", "True")
            x = base64.b64encode(stream.process(n["prot"])).decode()
        elif "bin" in n:
            x = base64.b64encode(n["bin"]).decode()
            if style and rnd and rnd.random() < .3 and len(x) > 8:
                x = x[:4] + "\n" + x[4:]
        if style == 2 and ("prot" in n or "bin" in n) and x:      # folded, as MIME does
            x = "\n  " + "\r\n".join(x[i:i + 76] for i in range(0, len(x), 76)) + "\n "
            if len(x) < 40:
                x = "\t".join(x)
        a = "".join(' %s="%s"' % (k, _esc(v, 3 if style == 3 else 0, rnd).replace('"', "&quot;")) for k, v in attrs.items())
        if n["c"]:
            out.append("%s<%s%s>" % (ind, n["t"], a))
            for c in n["c"]:
                w(c, depth + 1)
            if style and rnd and rnd.random() < .1:
                out.append("<!-- a comment -->")
            out.append("%s</%s>" % (ind, n["t"]))
        elif not x:
            if style and rnd and rnd.random() < .5:
                out.append("%s<%s%s></%s>" % (ind, n["t"], a, n["t"]))
            else:
                out.append("%s<%s%s />" % (ind, n["t"], a))
        elif style and rnd and rnd.random() < .1 and "]]>" not in x and "\r" not in x:
            out.append("%s<%s%s><![CDATA[%s]]></%s>" % (ind, n["t"], a, x, n["t"]))
        else:
            out.append("%s<%s%s>%s</%s>" % (ind, n["t"], a, _esc(x, style, rnd), n["t"]))
    w(root, 0)
    return "".join(out).encode("utf-8")


# The same document in other encodings and with other line ends.
XENC = {
    "utf-8-bom": lambda x: b"\xef\xbb\xbf" + x,
    "utf-16-le": lambda x: b"\xff\xfe" + x.decode().replace('"utf-8"', '"utf-16"', 1).encode("utf-16-le"),
    "utf-16-be": lambda x: b"\xfe\xff" + x.decode().replace('"utf-8"', '"UTF-16"', 1).encode("utf-16-be"),
    "latin-1": lambda x: x.decode().replace('"utf-8"', '"ISO-8859-1"', 1).encode("latin-1", "xmlcharrefreplace"),
    "folded": lambda x: x,                 # the values themselves are folded
    "refs": lambda x: x,                   # most characters are references
    "crlf": lambda x: x.replace(b"\n", b"\r\n"),
    "cr": lambda x: x.replace(b"\n", b"\r"),
    "bare": lambda x: x[x.index(b"?>") + 2:].lstrip(),
    "prolog": lambda x: x.replace(b"?>", b"?>\n<?xml-stylesheet href=\"a\"?>\n<!-- <Meta> -->\n<!DOCTYPE KeePassFile>\n", 1) + b"\n<!-- end -->\n",
}


# ---------------------------------------------------------------- KDBX container
def kdbx_header(fields, sig0=SIG0, sig1=SIG1X, ver=0x00030001):
    return struct.pack("<III", sig0, sig1, ver) + b"".join(
        struct.pack("<BH", i, len(v)) + v for i, v in fields)


def kdbx_fields(mseed, tseed, rounds, iv, rkey, start, compress, cipher=None, stream=2):
    return [(2, bytes.fromhex(cipher or AES_ID)), (3, struct.pack("<I", 1 if compress is True else int(compress))),
            (4, mseed), (5, tseed), (6, struct.pack("<Q", rounds)), (7, iv), (8, rkey), (9, start),
            (10, struct.pack("<I", stream)), (0, b"\r\n\r\n")]


def kdbx_write(fields, tree, parts, rnd=None, style=0, block=1 << 20, gz=None, xml=None, headerhash=True, payload=None,
               start=None, rounds=None, xenc=None, **hdr):
    """A complete file. `tree` is the KeePassFile node; its Meta/HeaderHash is filled in unless headerhash=False."""
    header = kdbx_header(fields, **hdr)
    f = {}
    for i, v in fields:
        f[i] = v
    hh = C.sha256(header)
    if headerhash and tree is not None:
        for m in tree["c"]:
            if m["t"] == "Meta":
                m["c"] = [c for c in m["c"] if c["t"] != "HeaderHash"]
                h = node("HeaderHash")
                h["bin"] = hh if headerhash is True else headerhash
                m["c"].insert(0, h)
                break
    if xml is None:
        xml = xml_write(tree, C.Stream((f.get(8, b"") + bytes(32))[:32]), rnd, style)
        if xenc:
            xml = XENC[xenc](xml)
    if payload is None:
        if gz is not None:
            xml = gz(xml)
        elif f.get(3, b"\0\0\0\0") == b"\1\0\0\0":
            c = zlib.compressobj(6, zlib.DEFLATED, 31)
            xml = c.compress(xml) + c.flush()
        payload = blocks_write(xml, block)
    def fit(v, n):
        return v[:n] + bytes(n - len(v[:n]))
    key = C.final_key(parts, "kdbx", f.get(4, b""), fit(f.get(5, b""), 32),
                      struct.unpack("<Q", fit(f.get(6, b""), 8))[0] if rounds is None else rounds)
    body = (f.get(9, bytes(32)) if start is None else start) + payload
    return header + C.cbc_enc("aes", key, fit(f.get(7, b""), 16), C.pad(body))


def kdbx_read(raw, parts):
    """Everything a reader of the published format can see. Raises Bad(layer)."""
    if len(raw) < 12:
        raise Bad("header")
    s0, s1, ver = struct.unpack_from("<III", raw, 0)
    p, fields, f = 12, [], {}
    while True:
        if len(raw) - p < 3:
            raise Bad("header")
        i, n = struct.unpack_from("<BH", raw, p)
        p += 3
        v = raw[p:p + n]
        if len(v) != n:
            raise Bad("header")
        p += n
        fields.append((i, v))
        f[i] = v
        if i == 0:
            break
    r = {"sig0": s0, "sig1": s1, "ver": ver, "fields": fields, "hlen": p, "hash": C.sha256(raw[:p])}
    try:
        key = C.final_key(parts, "kdbx", f[4], f[5], struct.unpack("<Q", f[6])[0])
    except (KeyError, struct.error):
        raise Bad("header")
    body = raw[p:]
    if len(body) % 16 or not body:
        raise Bad("cbc")
    plain = C.unpad(C.cbc_dec("aes", key, f[7], body))
    if plain is None or plain[:32] != f[9]:
        raise Bad("key")
    r["blocks"], r["rest"] = blocks_read(plain[32:])
    for b in r["blocks"]:
        if b["hash"] == "bad":
            raise Bad("blocks")
    data = b"".join(b["data"] for b in r["blocks"])
    r["gz"] = {}
    if struct.unpack("<I", f[3])[0] == 1:
        r["gzraw"] = data
        data, r["gzrest"] = gunzip_members(data)
    r["xml"] = data
    r["tree"] = xml_parse(data)
    r["masked"] = []
    r["stream"] = C.Stream(f[8])
    xml_decode(r["tree"], r["stream"], r["masked"])
    return r


# ---------------------------------------------------------------- KDB container
def kdb_field(ty, data):
    return struct.pack("<HI", ty, len(data)) + data


def kdb_records(records):
    return b"".join(b"".join(kdb_field(t, d) for t, d in r) for r in records)


def kdb_write(parts, groups, entries, cipher="aes", mseed=b"m" * 16, iv=b"i" * 16, tseed=b"t" * 32, rounds=1,
              flags=None, version=0x00030002, ngroups=None, nentries=None, chash=None, content=None, sig0=SIG0, sig1=SIG1):
    """groups/entries: lists of records, a record a list of (type, bytes) ending in (0xffff, b"")."""
    if content is None:
        content = kdb_records(groups) + kdb_records(entries)
    if flags is None:
        flags = 3 if cipher == "aes" else 9
    key = C.final_key(parts, "kdb", mseed, tseed, rounds)
    h = struct.pack("<IIII", sig0, sig1, flags, version) + mseed + iv + struct.pack(
        "<II", len(groups) if ngroups is None else ngroups, len(entries) if nentries is None else nentries) + \
        (C.sha256(content) if chash is None else chash) + tseed + struct.pack("<I", rounds & 0xffffffff)
    return h + C.cbc_enc(cipher, key, iv, C.pad(content))


def kdb_read(raw, parts):
    if len(raw) < 124:
        raise Bad("header")
    s0, s1, flags, ver = struct.unpack_from("<IIII", raw, 0)
    mseed, iv = raw[16:32], raw[32:48]
    ng, ne = struct.unpack_from("<II", raw, 48)
    chash, tseed = raw[56:88], raw[88:120]
    rounds = struct.unpack_from("<I", raw, 120)[0]
    r = {"sig0": s0, "sig1": s1, "flags": flags, "ver": ver, "mseed": mseed, "iv": iv, "ng": ng, "ne": ne,
         "tseed": tseed, "rounds": rounds}
    cipher = "aes" if flags & 2 else "twofish" if flags & 8 else None
    if cipher is None:
        raise Bad("cipher")
    r["cipher"] = cipher
    key = C.final_key(parts, "kdb", mseed, tseed, rounds)
    body = raw[124:]
    if not body or len(body) % 16:
        raise Bad("cbc")
    plain = C.unpad(C.cbc_dec(cipher, key, iv, body))
    if plain is None or C.sha256(plain) != chash:
        raise Bad("key")
    r["content"] = plain
    p = 0
    recs = []
    for _ in range(ng + ne):
        rec = []
        while True:
            if len(plain) - p < 6:
                raise Bad("records")
            t, n = struct.unpack_from("<HI", plain, p)
            p += 6
            if len(plain) - p < n:
                raise Bad("records")
            rec.append((t, plain[p:p + n]))
            p += n
            if t == 0xffff:
                break
        recs.append(rec)
    r["groups"], r["entries"], r["rest"] = recs[:ng], recs[ng:], plain[p:]
    return r


def field_json(t, d):
    """A record field as the specification sees it: type, size and every reading of its bytes that a type may need."""
    r = {"ty": "end" if t == 0xffff else str(t), "n": str(len(d)), "raw": E.enc(d)}
    z = d.find(b"\0")
    r["str"] = E.enc(d if z < 0 else d[:z])
    r["nul"] = "none" if z < 0 else "last" if z == len(d) - 1 else "inner"
    if len(d) == 2:
        r["int"] = str(struct.unpack("<H", d)[0])
    elif len(d) == 4:
        r["int"] = str(struct.unpack("<I", d)[0])
    elif len(d) == 5:
        r["b5"] = list(d)
    elif len(d) == 16:
        r["hex"] = d.hex()
    return r


def rec_json(rec):
    return [field_json(t, d) for t, d in rec]


# ---------------------------------------------------------------- key files
def pw_part(pw):
    return None if pw is None else C.sha256(pw if isinstance(pw, bytes) else pw.encode("utf-8"))
