"""C21: the JSON dump is valid and states the content."""
import copy, json, random
from .. import build, enc as E, gen, prim, work
from ..check import Case
from .c17 import groups

T = "1409529600"
NASTY = ['"', "\\", '\\"', "\\u0041", "\x00", "\x01", "\x1f", "\x7f", "\n", "\r\n", "\t", "\b\f", "/", "</script>", "{", "}", "[]", '","x":"', "'",
         "\u00e9", "\u2028", "\u65e5\u672c", "\U0001f511", "\ufeff", "%s%n", "\\\\", '\\', "\x1b[0m", "null", "0", " ", "\u0080", "a\\"]


def ints(v):
    return list(E.tobytes(v))


def att(a):
    return {"name": ints(a["name"]), "data": ints(a["data"][2:])}


def entry(e):
    d = {k: ints(e[k][2:]) for k in ("title", "url", "user", "pass", "notes")}
    d.update({k: e[k] for k in ("ct", "mt", "at", "et")}, icon=list(e["icon"].encode()), att=[att(a) for a in e["att"]])
    return d


def group(g):
    d = {k: ints(g[k]) for k in ("name", "notes")}
    d.update({k: g[k] for k in ("ct", "mt", "at", "et", "lt", "cicon")}, icon=list(g["icon"].encode()), flags=list(g["flags"].encode()),
             groups=[group(x) for x in g["groups"]], entries=[entry(e) for e in g["entries"]])
    return d


def utf8(o):
    if isinstance(o, dict):
        return all(utf8(v) for v in o.values())
    if isinstance(o, list):
        if o and isinstance(o[0], int):
            try:
                bytes(o).decode("utf-8")
            except UnicodeDecodeError:
                return False
            return True
        return all(utf8(v) for v in o)
    return True


def dump(r, proj, p, zone):
    """Dumps the object at p of database a and asks about it."""
    g = proj["root"]
    for i in [int(x) for x in p.split("/")[0].split(".") if x]:
        g = g["groups"][i]
    t = "entry" if "/" in p else "group"
    v = g["entries"][int(p.split("/")[1])] if t == "entry" else g
    o = entry(v) if t == "entry" else group(v)
    a = r.do("json", h="a", p=p)
    r.event("dump", t=t, at=p, zone=zone, out=a.get("out", "ok"), text=list(bytes.fromhex(a.get("hex", ""))), v=o, utf8="true" if utf8(o) else "false")
    a = r.do("meta", h="a", p=p)
    if t == "entry":
        plain = v["auto"] == {"en": "false", "ob": "0", "seq": "", "assoc": []}
        r.event("ask", t=t, at=p, o=o, v=a.get("v", ""), att=a.get("att", ""), auto=a.get("auto", ""), plainauto="false" if plain else "true")
    else:
        r.event("ask", t=t, at=p, o=o, v=a.get("v", ""))


def places(root):
    out = []
    for p, g in groups(root):
        out.append(p)
        out += ["%s/%d" % (p, i) for i in range(len(g["entries"]))]
    return out


def new(r, db):
    r.d("full", v="true")
    try:
        return r.do("new", h="a", db=db)["proj"]
    finally:
        r.d("full", v="false")


def tob(x):
    return E.raw(bytes(x))


def of_entry(o, uuid):
    e = gen.empty_entry(uuid)
    for k in ("title", "url", "user", "pass", "notes"):
        e[k] = "U:" + tob(o[k])
    for k in ("ct", "mt", "at", "et"):
        e[k] = o[k]
    e["icon"] = bytes(o["icon"]).decode()
    e["att"] = [{"name": tob(a["name"]), "bin": "own", "data": "U:" + tob(a["data"]), "compress": "false"} for a in o["att"]]
    return e


def of_group(o, n=[0]):
    n[0] += 1
    g = gen.empty_group("%032x" % n[0])
    for k in ("name", "notes"):
        g[k] = tob(o[k])
    for k in ("ct", "mt", "at", "et", "lt"):
        g[k] = o[k]
    g["cicon"] = "none" if o["cicon"] == "none" else "i:0"
    g["icon"], g["flags"] = bytes(o["icon"]).decode(), bytes(o["flags"]).decode()
    g["groups"] = [of_group(x) for x in o["groups"]]
    for e in o["entries"]:
        n[0] += 1
        g["entries"].append(of_entry(e, "%032x" % n[0]))
    return g


def enumerated(objs):
    def f(r):
        db = gen.empty_db()
        db["meta"]["icons"] = [{"uuid": "ab" * 16, "data": "x"}]
        ps = []
        for t, o in objs:
            if t == "group":
                db["root"]["groups"].append(of_group(o))
                ps.append(str(len(db["root"]["groups"]) - 1))
            else:
                db["root"]["entries"].append(of_entry(o, "%032x" % (len(ps) + 10**6)))
                ps.append("/%d" % (len(db["root"]["entries"]) - 1))
        proj = new(r, db)
        for p in ps:
            dump(r, proj, p, "CET")
    return f


def nasty(rnd, g, bad):
    """Texts that need care, anywhere."""
    def text():
        s = "".join(rnd.choice(NASTY) for _ in range(rnd.randrange(1, 6)))
        b = s.encode("utf-8")
        if bad and rnd.random() < .1:
            b += rnd.choice([b"\xff", b"\xc3", b"\x80", b"\xe2\x82"])
        return E.raw(b)
    for _, x in groups(g):
        if rnd.random() < .6:
            x["flags"] = rnd.choice(["1", "2", "255", "256", "32767", "32768", "40000", "65535"])
        for k in ("name", "notes"):
            if rnd.random() < .5:
                x[k] = text()
        for e in x["entries"]:
            for k in ("title", "url", "user", "pass", "notes"):
                if rnd.random() < .5:
                    e[k] = e[k][:2] + text()
            for a in e["att"]:
                if rnd.random() < .6:
                    a["name"] = text()
                if a["bin"] == "own":
                    a["data"] = a["data"][:2] + text()
            if rnd.random() < .25:
                e.update(title="P:Meta-Info", url="U:$", user="U:SYSTEM")
                e["notes"] = rnd.choice(["U:x", "P:KPX_GROUP_TREE_STATE", "U:"])
                if rnd.random() < .8:
                    e["att"].append({"name": "bin-stream", "bin": "own", "data": "U:" + text(), "compress": "false"})
                    if rnd.random() < .5:
                        rnd.shuffle(e["att"])


def randomly(seed, zone, bad):
    def f(r):
        rnd = random.Random(seed)
        d = gen.Gen(seed).db(rnd.choice([1, 3, 6, 9]), rnd.choice([2, 6, 12]))
        for _, g in groups(d["root"]):
            for e in g["entries"]:
                e["att"] = [dict(a, data="U:" + "".join(rnd.choice("abc") for _ in range(rnd.randrange(4))), bin="own") if a["bin"] != "null" else a for a in e["att"]]
                e["att"] += [{"name": "n%d" % i, "bin": "own", "data": "U:x", "compress": "false"} for i in range(rnd.choice([0, 0, 0, 1, 3]))]
        nasty(rnd, d["root"], bad)
        if zone == "UTC" and rnd.random() < .5:          # KDBX dates before 1970
            for _, g in groups(d["root"]):
                for x in [g] + g["entries"]:
                    for k in ("ct", "mt", "at", "et", "lt"):
                        if k in x and rnd.random() < .3:
                            x[k] = rnd.choice(["-1", "-86400", "-86401", "-2147483649", "-30610224000", str(-rnd.randrange(1, 30610224000))])
        proj = new(r, d)
        dump(r, proj, "", zone)
        ps = [p for p in places(proj["root"]) if p]
        for p in rnd.sample(ps, min(len(ps), 6)):
            dump(r, proj, p, zone)
    return f


def every_char(lo):
    """Every character code in every text of a group and an entry."""
    def f(r):
        cs = [c for c in range(lo, lo + 64)]
        s = b"".join((chr(c) + "." if c < 0x80 else chr(c * 37 + 0x700) + chr(0x1f000 + c)).encode("utf-8") for c in cs)
        db = gen.empty_db()
        g, e = gen.empty_group("%032x" % 7), gen.empty_entry("%032x" % 8)
        v = E.raw(s)
        g.update(name=v, notes=v)
        e.update({k: "U:" + v for k in ("title", "url", "user", "pass", "notes")})
        e["att"] = [{"name": v, "bin": "own", "data": "P:" + v, "compress": "true"}, {"name": v, "bin": "null", "data": "U:", "compress": "false"}]
        g["entries"] = [e]
        db["root"]["groups"] = [g]
        proj = new(r, db)
        for p in ("0", "0/0"):
            dump(r, proj, p, "UTC")
    return f


def large(n, where):
    """Texts and attachments longer than a sixteen bit number counts."""
    def f(r):
        v = E.raw((b"abcdefghij\"\\klmnopqrstuvwxyz" * (n // 20))[:n])
        db = gen.empty_db()
        g, e = gen.empty_group("%032x" % 7), gen.empty_entry("%032x" % 8)
        if where == "group":
            g.update(notes=v)
        elif where == "entry":
            e["notes"] = "U:" + v
        else:
            e["att"] = [{"name": "n", "bin": "own", "data": "U:" + v, "compress": "false"}]
        g["entries"] = [e]
        db["root"]["groups"] = [g]
        proj = new(r, db)
        dump(r, proj, "0" if where == "group" else "0/0", "UTC")
    return f


def each(at, dbs):
    """Every kind of value at every place."""
    def f(r):
        p = "0/0" if at.startswith("root.groups.0.entries.0") else "0" if at.startswith("root.groups.0") else "/0" if at.startswith("root.entries") else ""
        for d in dbs:
            dump(r, new(r, d), p, "UTC")
    return f


def run(c):
    build.build("asan")
    cfg = ('CONSTANTS Care = {34, 92, 10, 0, 31, 47, 127, 117, 195} Careful = %d Contents = %d\nSPECIFICATION Spec\nINVARIANTS Right Whole Emit\n'
           % ((2, 2) if c.quick else (3, 4)))
    objs = []
    for l in c.model("JsonGen", cfg, "small entries and groups and texts that need care: what is written is read back as what was meant", env={"EMIT": "1"}):
        if l.startswith("@OBJ "):
            _, t, o = l.split(" ", 2)
            objs.append((t, json.loads(o)))
    objs.sort(key=lambda x: (x[0], json.dumps(x[1])))
    rnd = random.Random(c.seed)
    utf = [x for x in objs if utf8(x[1])]
    asan = dict(flavour="asan", timeout=30)
    cases = []
    for i in range(0, len(utf), 60):
        cases.append(Case("enumerated-%d" % i, enumerated(utf[i:i + 60]), **asan))
    cases += [Case("chars-%d" % i, every_char(i), **asan) for i in (0, 64)]
    cases += [Case("large-%d-%s" % (n, w), large(n, w), **asan) for n, w in c.pick([(65535, "file"), (65536, "file"), (65538, "entry"), (65537, "group")],
                                                                                    [(n, w) for n in (65535, 65536, 65537, 70000, 131072) for w in ("file", "entry", "group")])]
    cases += [Case("each-%s" % n, each(n, dbs), tz="UTC", **asan) for n, dbs in work.sweep(False, c.pick(3, 1))
              if n.startswith("root") and not any(x in n for x in ("hist", "auto", "fields", "icon.data"))]
    zones = ["UTC", "CET", "IST", "EST", "NPT"]
    for i in range(c.pick(160, 1500)):
        z = zones[i % 5]
        cases.append(Case("random-%d" % i, randomly(c.seed * 1000 + i, z, i % 6 == 5), tz=z, locale="grouped" if i % 7 == 3 else "", **asan))
    prim.validate(c, "JsonTrace", cases, "dumps of groups and entries", chunk=100)
