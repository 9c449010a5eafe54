"""C12: masking of protected values."""
import base64, json, random
from .. import codec, enc as E, gen, prim
from ..check import Case

node = codec.node
ALNUM = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


# ---- the values of a document, in document order
def walk(n, at, out):
    """at: where the nearest entry is ("" outside)."""
    t = n["t"]
    if t == "Entry":
        u = [c["x"] for c in n["c"] if c["t"] == "UUID"]
        if not at:
            at = "e:" + (base64.b64decode(u[0]).hex() if u else "?")
        k = 0
        for c in n["c"]:
            if c["t"] == "String":
                key = "".join(x["x"] or "" for x in c["c"] if x["t"] == "Key")
                for v in c["c"]:
                    value(v, "%s/%s" % (at, key) if v["t"] == "Value" else "", out)
            elif c["t"] == "Binary":
                for v in c["c"]:
                    if v["t"] == "Value":
                        if "Ref" not in v["a"]:
                            value(v, "%s/att%d" % (at, k), out)
                    else:
                        walk(v, at, out)
                k += 1
            elif c["t"] == "History":
                i = 0
                for h in c["c"]:
                    if h["t"] == "Entry":
                        walk(h, "%s/h%d" % (at, i), out)
                        i += 1
                    else:
                        walk(h, "", out)
            else:
                walk(c, at, out)
        return
    if t == "Binaries":
        i = 0
        for b in n["c"]:
            if b["t"] == "Binary":
                value(b, "bin:%d" % i, out)
                i += 1
            else:
                walk(b, at, out)
        return
    value(n, "", out)
    for c in n["c"]:
        walk(c, at if t in ("Meta",) else "", out)


def value(n, place, out):
    prot = codec.truth(n["a"].get("Protected"))
    mem = codec.truth(n["a"].get("ProtectedInMemory"))
    if not place and not prot:
        return
    x = n["x"] or ""
    if prot or place.startswith("bin:") or "/att" in place:
        b = codec.b64(x)
        if b is None:
            b = x.encode() + b"?"
        if codec.truth(n["a"].get("Compressed")) and not prot:
            b = codec.gunzip_members(b)[0]
    else:
        b = x.encode()
    if place and not b and not prot and not mem:
        return
    out.append((place, prot, mem, b))


def meant(proj):
    """The values of a database as the driver shows them in full."""
    out = []

    def add(place, v):
        b = E.tobytes(v[2:])
        if b or v[0] == "P":
            out.append({"p": place, "mark": v[0], "v": list(b)})

    def entry(e, at):
        for k, f in (("Title", "title"), ("URL", "url"), ("UserName", "user"), ("Password", "pass"), ("Notes", "notes")):
            add("%s/%s" % (at, k), e[f])
        for f in e["fields"]:
            add("%s/%s" % (at, E.tobytes(f["k"]).decode()), f["v"])
        for i, a in enumerate(e["att"]):
            if a["bin"] == "own":
                add("%s/att%d" % (at, i), a["data"])
        for i, h in enumerate(e["hist"]):
            entry(h, "%s/h%d" % (at, i))

    def group(g):
        for e in g["entries"]:
            entry(e, "e:" + e["uuid"])
        for x in g["groups"]:
            group(x)
    if "meta" in proj:
        for i, b in enumerate(proj["meta"].get("bins", [])):
            add("bin:%d" % i, b["data"])
        if "entries" in proj["root"]:
            group(proj["root"])
    return out


def listing(r, raw):
    """The document of a file as events; returns its text."""
    f = codec.kdbx_read(raw, r.parts)
    out = []
    walk(codec.xml_parse(f["xml"]), "", out)
    r.event("doc")
    for place, prot, mem, b in out:
        r.event("stored", place=place, prot=str(prot).lower(), mem=str(mem).lower(), bytes=list(b))
    return f["xml"]


def start(r, rkey, n):
    r.d("full", v="true")
    r.key("k", pw=b"secret")
    r.ev.clear()
    r.parts = r.k["k"]
    r.event("rkey", key=list(rkey), n=n)


def made(r, db):
    """Saves a database and looks at the document; loads it again."""
    a = r.do("new", h="a", db=db)
    want = meant(a["proj"])
    x = r.do("export", h="a", k="k", path=r.path("f"), fmt="kdbx")
    if x["out"] != "ok":
        r.event("meant", what="saved", out=x["out"], vals=[])
        return
    text = listing(r, r.bytes("f"))
    r.event("meant", what="saved", out="ok", vals=want)
    for w in want:
        b = bytes(w["v"])
        if w["mark"] == "P" and len(b) >= 8:
            seen = b in text or any(base64.b64encode(b[i:])[:-4] in text for i in range(3) if len(b) - i >= 12)
            r.event("seen", place=w["p"], found=str(seen).lower())
    y = r.do("import", h="b", k="k", path=r.path("f"), fmt="kdbx")
    r.event("meant", what="loaded", out=y["out"], vals=meant(y.get("proj", {})))


def given(r, doc, rnd, rkey, compress, style=0):
    f = codec.kdbx_fields(rnd.randbytes(32), rnd.randbytes(32), 1, rnd.randbytes(16), rkey, rnd.randbytes(32), compress)
    raw = codec.kdbx_write(f, doc, r.parts, rnd, style)
    r.put("g", raw)
    listing(r, raw)
    y = r.do("import", h="b", k="k", path=r.path("g"), fmt="kdbx")
    r.event("meant", what="given", out=y["out"], vals=meant(y.get("proj", {})))


# ---- databases
def text(rnd, n):
    return bytes(rnd.choice(ALNUM) for _ in range(n))


def val(rnd, kind):
    """U, or P<size>."""
    if kind == "absent":
        return "U:"
    if kind == "U":
        return "U:" + E.raw(text(rnd, rnd.choice([1, 3, 20, 64, 100])))
    n = int(kind[1:])
    return "P:" + E.raw(text(rnd, n) if rnd.random() < .6 else rnd.randbytes(n))


def arranged(rnd, arr, rkey):
    """A database for one arrangement of spec/MaskGen."""
    v = [val(rnd, k) for k in arr]
    db = gen.empty_db()
    db.update(rkey=rkey.hex(), compress=rnd.choice(["true", "false"]))
    if arr[0] != "absent":
        db["meta"]["bins"] = [{"data": v[0], "compress": rnd.choice(["true", "false"])}]
    e = gen.empty_entry("ab" * 16)
    e["title"], e["pass"] = v[1], v[2]
    if arr[3] != "absent":
        e["fields"] = [{"k": "field", "v": v[3]}]
    if arr[4] != "absent":
        e["att"] = [{"name": rnd.choice(["a", ""]), "bin": "own", "data": v[4], "compress": "false"}]
    if arr[5] != "absent":
        h = gen.empty_entry("ab" * 16)
        h["pass"] = v[5]
        e["hist"] = [h]
    db["root"]["entries"] = [e]
    if arr[6] != "absent":
        g = gen.empty_group("cd" * 16)
        s = gen.empty_entry("ef" * 16)
        s["pass"] = v[6]
        g["entries"] = [s]
        db["root"]["groups"] = [g]
    return db


def arrangements(seed, arrs):
    def f(r):
        rnd = random.Random(seed)
        rkey = rnd.randbytes(32)
        start(r, rkey, 8)
        try:
            for a in arrs:
                made(r, arranged(rnd, a, rkey))
        finally:
            r.d("full", v="false")
    return f


def anyvalue(rnd, big=False):
    k = rnd.random()
    if k < .3:
        return "U:" + E.raw(text(rnd, rnd.choice([0, 1, 10, 63, 64, 65, 130])))
    n = rnd.choice([0, 0, 1, 2, 7, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129] + ([1000, 4096] if big else []))
    return "P:" + E.raw(rnd.randbytes(n) if rnd.random() < .4 else text(rnd, n))


def anyentry(rnd, depth=0, big=False):
    e = gen.empty_entry(rnd.randbytes(16).hex())
    for f in ("title", "url", "user", "pass", "notes"):
        if rnd.random() < .6:
            e[f] = anyvalue(rnd, big)
    e["fields"] = [{"k": rnd.choice(["field %d" % i] * 5 + ["" if i == 0 else "title", "%c3a9" if i == 1 else "pass"]), "v": anyvalue(rnd)} for i in range(rnd.choice([0, 0, 1, 3]))]
    e["att"] = [{"name": rnd.choice(["a%d" % i, "a", ""]), "bin": "own", "data": anyvalue(rnd, big), "compress": "false"} for i in range(rnd.choice([0, 0, 1, 2]))]
    if depth < 2:
        e["hist"] = [anyentry(rnd, depth + 1) for _ in range(rnd.choice([0, 0, 1, 2]))]
    return e


def anygroup(rnd, depth=0, big=False):
    g = gen.empty_group(rnd.randbytes(16).hex())
    g["entries"] = [anyentry(rnd, 0, big) for _ in range(rnd.choice([0, 1, 2]))]
    if depth < 3:
        g["groups"] = [anygroup(rnd, depth + 1) for _ in range(rnd.choice([0, 1, 2] if depth else [1, 2]))]
    return g


def anydb(rnd, rkey, big=False):
    db = gen.empty_db()
    db.update(rkey=rkey.hex(), compress=rnd.choice(["true", "false"]), root=anygroup(rnd, 0, big))
    for _ in range(rnd.choice([0, 1, 3])):
        v = anyvalue(rnd, big)
        db["meta"]["bins"].append({"data": v, "compress": rnd.choice(["true", "false"])})
    return db


def huge(seed, n, place):
    """One protected value longer than any buffer, with others before and behind it."""
    def f(r):
        rnd = random.Random(seed)
        rkey = rnd.randbytes(32)
        start(r, rkey, n // 64 + 4)
        db = gen.empty_db()
        db.update(rkey=rkey.hex(), compress="true")
        e = gen.empty_entry(rnd.randbytes(16).hex())
        e.update(title=anyvalue(rnd), **{"pass": "P:" + E.raw(rnd.randbytes(5))})
        v = "P:" + E.raw(text(rnd, n) if place in ("notes", "field") else rnd.randbytes(n))
        if place == "notes":
            e["notes"] = v
        elif place == "field":
            e["fields"] = [{"k": "long", "v": v}]
        elif place == "att":
            e["att"] = [{"name": "a", "bin": "own", "data": v, "compress": "false"}]
        else:
            db["meta"]["bins"] = [{"data": v, "compress": "true"}, {"data": "P:" + E.raw(b"after it"), "compress": "false"}]
        e["hist"] = [gen.empty_entry(e["uuid"])]
        e["hist"][0]["pass"] = "P:" + E.raw(b"old one")
        db["root"]["entries"] = [e]
        try:
            made(r, db)
        finally:
            r.d("full", v="false")
    return f


# ---- documents of other programs: the same things in any order
def pnode(rnd, t, v, a=None, binary=False):
    b = E.tobytes(v[2:])
    if v[0] == "P" and rnd.random() < .85:
        n = node(t, None, a=dict(a or {}, Protected=rnd.choice(["True", "true", "TRUE", "1"])))
        n["prot"] = b
        return n
    at = dict(a or {})
    if v[0] == "P":
        at["ProtectedInMemory"] = "True"
    elif rnd.random() < .2:
        at["Protected"] = rnd.choice(["False", "false"])
    n = node(t, None, a=at)
    if binary:
        n["bin"] = b
    else:
        n["x"] = text(rnd, len(b)).decode()
    return n


def docof(rnd, db):
    def mix(k):
        if rnd.random() < .15:
            u = node("Unknown", None)
            u["prot"] = rnd.randbytes(rnd.choice([0, 1, 64, 70]))
            k.append(u)
        if rnd.random() < .7:
            rnd.shuffle(k)
        return k

    def string(key, v):
        return node("String", None, mix([node("Key", key), pnode(rnd, "Value", v)]))

    def entry(e):
        k = [node("UUID", base64.b64encode(bytes.fromhex(e["uuid"])).decode())]
        k += [string(t, e[f]) for t, f in (("Title", "title"), ("URL", "url"), ("UserName", "user"), ("Password", "pass"), ("Notes", "notes"))
              if e[f] != "U:"]
        k += [string(f["k"], f["v"]) for f in e["fields"]]
        k += [node("Binary", None, mix([node("Key", a["name"]), pnode(rnd, "Value", a["data"], binary=True)])) for a in e["att"]]
        if e["hist"]:
            k.append(node("History", None, [entry(h) for h in e["hist"]]))
        # custom fields and attachments keep their own order in the database, whatever their place among the rest
        return node("Entry", None, mix(k))

    def group(g):
        k = [node("UUID", base64.b64encode(bytes.fromhex(g["uuid"])).decode()), node("Name", "x")]
        return node("Group", None, mix(k + [entry(e) for e in g["entries"]] + [group(x) for x in g["groups"]]))
    m = [node("Generator", "x")]
    if db["meta"]["bins"]:
        m.append(node("Binaries", None, [pnode(rnd, "Binary", b["data"], {"ID": str(i)}, True) for i, b in enumerate(db["meta"]["bins"])]))
    top = [node("Meta", None, mix(m)), node("Root", None, mix([group(db["root"])]))]
    if rnd.random() < .4:
        top.reverse()
    return node("KeePassFile", None, top)


def both(seed, n, big=False):
    def f(r):
        rnd = random.Random(seed)
        rkey = rnd.choice([rnd.randbytes(32), bytes(32), b"\xff" * 32])
        start(r, rkey, 900 if big else 160)
        try:
            for _ in range(n):
                db = anydb(rnd, rkey, big)
                made(r, db)
                given(r, docof(rnd, db), rnd, rkey, db["compress"] == "true", rnd.choice([0, 1]))
        finally:
            r.d("full", v="false")
    return f


def run(c):
    cfg = "CONSTANTS Chosen = %d Sizes = {0, 1, 64, 65} SmallBlock = 32\nINIT Init\nNEXT Next\nINVARIANTS Recovered Disjoint Agree Emit\n"
    arrs = [json.loads(l[5:]) for l in c.model("MaskGen", cfg % c.pick(2, 3), "arrangements of values of several sizes in a document",
                                               env={"EMIT": "1"}) if l.startswith("@ARR ")]
    arrs.sort()
    s = c.seed * 1000
    cases = [Case("arranged-%d" % i, arrangements(s + i, arrs[i:i + 20])) for i in range(0, len(arrs), 20)]
    cases += [Case("random-%d" % i, both(s + i, 4)) for i in range(c.pick(40, 400))]
    cases += [Case("large-%d" % i, both(s + i, 1, True)) for i in range(c.pick(4, 40))]
    cases += [Case("huge-%s-%d" % (p, n), huge(s + n, n, p)) for n in c.pick([66000], [66000, 140001]) for p in ("notes", "field", "att", "bin")]
    prim.validate(c, "MaskTrace", cases, "documents with protected values")
