"""C17: equality means equal content."""
import copy, json, random
from .. import build, enc, gen, prim, work
from ..check import Case


def groups(g, path=""):
    yield path, g
    for i, x in enumerate(g["groups"]):
        yield from groups(x, "%s.%d" % (path, i) if path else str(i))


def side(h, proj, t, p):
    """One object as the specification sees it, or None."""
    icons = proj.get("meta", {}).get("icons", [])
    if t in ("bin", "icon"):
        xs = proj.get("meta", {}).get(t + "s", [])
        return {"h": h, "icons": [], "v": xs[0]} if xs else None
    g = proj["root"]
    gp = p.split("/")[0]
    for i in [int(x) for x in gp.split(".") if x]:
        if i >= len(g["groups"]):
            return None
        g = g["groups"][i]
    if t == "group":
        return {"h": h, "icons": icons, "v": g}
    i = int(p.split("/")[1])
    if i >= len(g["entries"]):
        return None
    e = g["entries"][i]
    if t == "entry":
        return {"h": h, "icons": icons, "v": e}
    if t == "auto":
        return {"h": h, "icons": [], "v": e["auto"]}
    xs = e["att"] if t == "att" else e["fields"]
    return {"h": h, "icons": [], "v": xs[0]} if xs else None


def new(r, h, db):
    return r.do("new", h=h, db=db)["proj"]


def compare(r, t, ha, pa, a, hb, pb, b):
    x, y = side(ha, a, t, pa), side(hb, b, t, pb)
    if x is None or y is None:
        return
    z = r.do("eq", t=t, h=ha, p=pa, h2=hb, p2=pb)
    r.event("eq", t=t, at="%s:%s %s:%s" % (ha, pa, hb, pb), x=x, y=y, out=z.get("out", "ok"),
            **{k: z.get(k, "") for k in ("eq", "ne", "eqr", "ner")})


def places(proj):
    out = [("bin", ""), ("icon", "")]
    for p, g in groups(proj["root"]):
        out.append(("group", p))
        for i in range(len(g["entries"])):
            out += [(t, "%s/%d" % (p, i)) for t in ("entry", "auto", "att", "field")]
    return out


def everywhere(r, a, b, limit=None, rnd=None):
    ps = places(a)
    if limit and len(ps) > limit:
        ps = ps[:3] + rnd.sample(ps[3:], min(limit, len(ps) - 3))
    for t, p in ps:
        compare(r, t, "a", p, a, "b", p, b)


def enumerated(dbs, seed):
    """Small databases of the specification that differ in one place."""
    def f(r):
        rnd = random.Random(seed)
        base = dbs[0]
        a = new(r, "a", base)
        for d in dbs[1:]:
            b = new(r, "b", d)
            everywhere(r, a, b)
            if rnd.random() < .2:
                a = new(r, "a", d)
                b = new(r, "b", d)
                everywhere(r, a, b)
                a = new(r, "a", base)
    return f


def other(rnd, k, v):
    """Another value of the same kind."""
    if v in ("true", "false"):
        return "false" if v == "true" else "true"
    if k == "uuid":
        i = rnd.randrange(32)
        return v[:i] + rnd.choice([c for c in "0123456789abcdef" if c != v[i]]) + v[i + 1:]
    if k in ("icon", "usage", "ob", "ct", "mt", "at", "et", "lt", "flags"):
        m = (1 << (16 if k == "flags" else 32)) - 1
        n = int(v)
        return str(rnd.choice([x for x in (n ^ 1, n ^ 0x80, n ^ 0x8000, n ^ (m + 1) >> 1, 0, m) if x != n and 0 <= x <= m]))
    if v[:2] in ("U:", "P:"):
        x = rnd.random()
        return ("P:" if v[0] == "U" else "U:") + v[2:] if x < .4 else v[:2] + text(rnd, v[2:])
    return text(rnd, v)


def text(rnd, v):
    if v[:1] in ("%", "@", "#"):
        return "%41" if v != "%41" else "%42"
    if not v:
        return rnd.choice(["x", "%00"])
    i = rnd.randrange(len(v))
    x = rnd.choice([v + "x", v[:-1], v[:i] + ("b" if v[i] != "b" else "c") + v[i + 1:], "", "%00", v.swapcase() if v.swapcase() != v else v + " "])
    return x if x != v and x[:1] not in ("@", "#") else v + "y" if v[:1] not in ("@", "#") else "other"


SCALARS = {"cicon", "last", "groups", "entries", "att", "hist", "fields", "auto", "assoc", "bin", "data", "compress"}


def objects(g, out):
    """(kind, record) of everything below a group."""
    out.append(("group", g))
    for e in g["entries"]:
        entries(e, out)
    for x in g["groups"]:
        objects(x, out)
    return out


def entries(e, out):
    out.append(("entry", e))
    out.append(("auto", e["auto"]))
    out += [("assoc", a) for a in e["auto"]["assoc"]]
    out += [("field", a) for a in e["fields"]]
    out += [("att", a) for a in e["att"]]
    for h in e["hist"]:
        entries(h, out)


def change(rnd, db):
    """One difference somewhere."""
    t, o = rnd.choice(objects(db["root"], []))
    lists = [k for k in o if isinstance(o[k], list)]
    if lists and rnd.random() < .35:
        xs = o[rnd.choice(lists)]
        k = rnd.random()
        if k < .3 and xs:
            xs.pop(rnd.choice([0, -1]))
        elif k < .5 and xs:
            xs.append(copy.deepcopy(rnd.choice(xs)))
        elif k < .7 and len(xs) > 1:
            i, j = rnd.sample(range(len(xs)), 2)
            xs[i], xs[j] = xs[j], xs[i]
        elif xs:
            xs.clear()
        return
    if t in ("group", "entry") and rnd.random() < .1 and db["meta"]["icons"]:
        o["cicon"] = rnd.choice(["none"] + ["i:%d" % i for i in range(len(db["meta"]["icons"]))])
        return
    if t == "att" and rnd.random() < .15:      # no binary at all
        o.update(bin="null", data="U:", compress="false")
        return
    if t == "att" and o["bin"] == "own" and rnd.random() < .6:
        o["data"] = other(rnd, "", o["data"])
        return
    k = rnd.choice([k for k in o if k not in SCALARS])
    o[k] = other(rnd, k, o[k])


def unlast(g):
    for _, x in groups(g):
        x["last"] = "none"


def altered(seed, n):
    """Two databases of the same content, then ones with one, two or three differences."""
    def f(r):
        rnd = random.Random(seed)
        g = gen.Gen(seed)
        d = g.db(5, 6)
        unlast(d["root"])
        for k in ("rb", "tmpl", "lsg", "lvg"):
            d["meta"][k] = "none"
        a = new(r, "a", d)
        b = new(r, "b", d)
        everywhere(r, a, b, 25, rnd)
        everywhere(r, a, a, 5, rnd)
        # objects of one database with each other: icons and binaries shared
        es = [p for t, p in places(a) if t == "entry"]
        gs = [p for t, p in places(a) if t == "group"]
        for _ in range(4):
            for t, ps in (("entry", es), ("group", gs), ("auto", es), ("att", es), ("field", es)):
                if ps:
                    compare(r, t, "a", rnd.choice(ps), a, "a", rnd.choice(ps), a)
        for _ in range(n):
            x = copy.deepcopy(d)
            for _ in range(rnd.choice([1, 1, 1, 2, 3])):
                change(rnd, x)
            b = new(r, "b", x)
            everywhere(r, a, b, 8, rnd)
    return f


def twins(seed, n):
    """Two groups of one database with the same entries, icons shared, and one difference or none."""
    def f(r):
        rnd = random.Random(seed)
        g = gen.Gen(seed)
        for _ in range(n):
            d = g.db(4, 5)
            unlast(d["root"])
            for k in ("rb", "tmpl", "lsg", "lvg"):
                d["meta"][k] = "none"
            one = d["root"]
            two = copy.deepcopy(one)
            if rnd.random() < .7:
                change(rnd, {"root": two, "meta": d["meta"]})
            d["root"] = gen.empty_group("%032x" % 5)
            d["root"]["groups"] = [one, two]
            if rnd.random() < .4:
                for p, x in list(groups(one, "0")):
                    if x["entries"]:
                        x["last"] = "e:%s/0" % p
                if rnd.random() < .5 and one["entries"] and two["entries"]:
                    two["last"] = rnd.choice(["none", "e:0/0", "e:1/0"])
            a = new(r, "a", d)
            compare(r, "group", "a", "0", a, "a", "1", a)
            for i in range(min(len(one["entries"]), len(two["entries"]))):
                for t in ("entry", "auto", "att", "field"):
                    compare(r, t, "a", "0/%d" % i, a, "a", "1/%d" % i, a)
    return f


def leaves(x, at=()):
    """Places of the plain values inside a record."""
    if isinstance(x, dict):
        for k in x:
            if k not in ("bin", "compress", "last", "cicon"):
                yield from leaves(x[k], at + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, at + (i,))
    else:
        yield at, x


def rich():
    """A database with one of everything below the root."""
    d = gen.empty_db()
    e = gen.empty_entry("aa" * 16)
    e["auto"]["assoc"] = [{"w": "w", "s": "s"}]
    e["fields"] = [{"k": "k", "v": "U:v"}]
    e["att"] = [{"name": "n", "bin": "own", "data": "U:d", "compress": "false"}]
    e["hist"] = [copy.deepcopy(e)]
    g = gen.empty_group("bb" * 16)
    g["entries"] = [copy.deepcopy(e)]
    d["root"]["groups"], d["root"]["entries"] = [g], [e]
    return d


def values(k, v):
    if v in ("true", "false"):
        return ["true", "false"]
    if k == "uuid":
        return ["00" * 16, "00" * 15 + "01", "01" + "00" * 15, "00" * 8 + "01" + "00" * 7]
    if k == "flags":
        return ["0", "1", "256", "32768"]
    if k in ("icon", "usage", "ob"):
        return ["0", "1", "256", "65536", "2147483648"]
    if k in ("ct", "mt", "at", "et", "lt"):
        return ["0", "1", "256", "2147483648", "4294967296"]
    if v[:2] in ("U:", "P:"):
        return ["U:", "P:", "U:x", "P:x", "U:X", "U:xx"]
    return ["", "x", "X", "xx", " ", "%00"]


def each(part, parts):
    """Every value against every other value of the same place, all else the same."""
    def f(r):
        base = rich()
        for n, (at, v) in enumerate(sorted(leaves(base["root"]), key=str)):
            if n % parts != part:
                continue
            vs = sorted(set(values(at[-1], v)))

            def put(h, x):
                d = copy.deepcopy(base)
                o = d["root"]
                for k in at[:-1]:
                    o = o[k]
                o[at[-1]] = x
                return new(r, h, d)
            for i, x in enumerate(vs):
                a = put("a", x)
                for y in vs[i:]:
                    b = put("b", y)
                    compare(r, "group", "a", "", a, "b", "", b)
                    if "entries" in at:
                        p = "0/0" if at[0] == "groups" else "/0"
                        compare(r, "entry", "a", p, a, "b", p, b)
                        for t, k in (("auto", "auto"), ("att", "att"), ("field", "fields")):
                            if k in at and "hist" not in at:
                                compare(r, t, "a", p, a, "b", p, b)
    return f


def pool(seed):
    """Icons and binaries of all kinds with each other, and entries and groups that carry them."""
    def f(r):
        rnd = random.Random(seed)
        n = rnd.choice([1, 2, 3, 16, 20])
        one = rnd.randbytes(n)
        datas = [one, one, one + b"\0", one[:-1] + bytes([one[-1] ^ 1]), bytes([one[0] ^ 0x80]) + one[1:], one * 2]
        datas.append(one[:n // 2] + bytes([one[n // 2] ^ 16]) + one[n // 2 + 1:])
        dbs = []
        for i, x in enumerate(datas):
            d = gen.empty_db()
            d["meta"]["icons"] = [{"uuid": "%032x" % (7 if i != 1 else 8), "data": enc.enc(x)}]
            d["meta"]["bins"] = [{"data": ("P:" if i == 1 else "U:") + enc.enc(x), "compress": "false"}]
            d["root"]["cicon"] = "i:0"
            e = gen.empty_entry("aa" * 16)
            e["cicon"] = "i:0"
            e["att"] = [dict(d["meta"]["bins"][0], name="n", bin="b:0")]
            d["root"]["entries"] = [e]
            dbs.append(d)
            if i in (0, 3):     # the same, stored in another way
                d = copy.deepcopy(d)
                d["meta"]["bins"][0]["compress"] = "true"
                dbs.append(d)
        for x in dbs:
            a = new(r, "a", x)
            for y in dbs:
                b = new(r, "b", y)
                for t, p in (("icon", ""), ("bin", ""), ("entry", "/0"), ("group", ""), ("att", "/0")):
                    compare(r, t, "a", p, a, "b", p, b)
    return f


def build_list(kind, xs):
    """The list of a model pair as a database."""
    d = gen.empty_db()
    root = d["root"]
    e0 = gen.empty_entry("aa" * 16)
    if kind in ("hist", "fields", "assoc", "att"):
        root["entries"] = [e0]
    for n, inner in xs:
        if kind == "groups":
            g = gen.empty_group("%032x" % (n + 1))
            for m in inner:
                e = gen.empty_entry("%032x" % (m + 50))
                g["entries"].append(e)
            root["groups"].append(g)
        elif kind == "entries":
            e = gen.empty_entry("%032x" % (n + 1))
            e["fields"] = [{"k": "f%d" % m, "v": "U:x"} for m in inner]
            root["entries"].append(e)
        elif kind == "hist":
            e = gen.empty_entry("%032x" % (n + 1))
            e["auto"]["assoc"] = [{"w": "w%d" % m, "s": "s"} for m in inner]
            e0["hist"].append(e)
        elif kind == "fields":
            e0["fields"].append({"k": "k%d" % n, "v": "PU"[n % 2] + ":" + "".join("v%d" % m for m in inner)})
        elif kind == "assoc":
            e0["auto"]["assoc"].append({"w": "w%d" % n, "s": "".join("s%d" % m for m in inner)})
        elif kind == "att":
            e0["att"].append({"name": "n%d" % n, "bin": "own" if inner else "null", "data": "U:" + "".join("d%d" % m for m in inner), "compress": "false"})
    return d


def listpairs(kind, pairs):
    def f(r):
        for a, b in pairs:
            x, y = new(r, "a", build_list(kind, a)), new(r, "b", build_list(kind, b))
            compare(r, "group", "a", "", x, "b", "", y)
            if kind in ("hist", "fields", "assoc", "att"):
                compare(r, "entry", "a", "/0", x, "b", "/0", y)
            if kind == "assoc":
                compare(r, "auto", "a", "/0", x, "b", "/0", y)
    return f


def run(c):
    build.build("asan")
    cfg = "CONSTANTS Len1 = %d Len2 = %d Nums = {0, 1}\nSPECIFICATION Spec\nINVARIANTS Right Inside Emit\nPROPERTY Ends\n" % ((2, 2) if not c.quick else (2, 1))
    pairs = [json.loads(l[6:]) for l in c.model("ValueEqGen", cfg, "all pairs of small lists of objects compared step by step", env={"EMIT": "1"})
             if l.startswith("@PAIR ")]
    pairs.sort()
    asan = dict(flavour="asan", timeout=30)
    rnd = random.Random(c.seed)
    cases = []
    for kind in ("groups", "entries", "hist", "fields", "assoc", "att"):
        ps = rnd.sample(pairs, min(len(pairs), c.pick(500, 6000)))
        for i in range(0, len(ps), 250):
            cases.append(Case("lists-%s-%d" % (kind, i), listpairs(kind, ps[i:i + 250]), **asan))
    dbs = work.enumerated(c)
    first = dbs[0]
    for i in range(0, len(dbs), 60):
        cases.append(Case("enumerated-%d" % i, enumerated([first] + dbs[i:i + 60], c.seed + i), **asan))
    for i in range(c.pick(60, 600)):
        cases.append(Case("altered-%d" % i, altered(c.seed * 1000 + i, 15), **asan))
    for i in range(c.pick(8, 60)):
        cases.append(Case("pool-%d" % i, pool(c.seed * 1000 + i), **asan))
    for i in range(16):
        cases.append(Case("each-%d" % i, each(i, 16), **asan))
    for i in range(c.pick(16, 160)):
        cases.append(Case("twins-%d" % i, twins(c.seed * 1000 + i, 12), **asan))
    prim.validate(c, "ValueEqTrace", cases, "comparisons", chunk=60)
