"""Databases both formats can hold a part of, and the operation sequences of spec/SessionGen on them."""
import json, random
from . import codec, docs, enc as E, gen


class Both(gen.Gen):
    def time(self):
        return self.kdbtime()


def db(seed, ngroups=5, nentries=5):
    g = Both(seed)
    d = g.db(ngroups, nentries, 2)
    d["mseed"] = g.hexs(16)
    d["rounds"] = g.ch(["0", "1", "2", "5"])

    def fix(x):
        for e in x["entries"]:
            e["att"] = e["att"][:1]
        for y in x["groups"]:
            fix(y)
    fix(d["root"])
    return d


def sequences(c, n, steps, handles=3, keys=3, paths=3):
    """Random behaviours of the model, and on the way its exhaustive check at a small size."""
    q = lambda p, k: "{" + ", ".join('"%s%d"' % (p, i + 1) for i in range(k)) + "}"
    cfg = "CONSTANTS Handles = %s Keys = %s Paths = %s Values = {1,2,3} Steps = %d\nSPECIFICATION Spec\n"
    props = "INVARIANTS Held%s\nPROPERTIES NoInvention SavedMeansKept OthersKept KeysKept\n"
    c.model("SessionGen", cfg % (q("h", 2), q("k", 2), q("p", 2), c.pick(4, 5)) + "VIEW View\n" + props % "",
            "databases, keys and files under every sequence of operations: nothing is invented, changed or lost on the way")
    extra = ["-simulate", "num=%d" % (n * 2), "-depth", str(steps + 1), "-seed", str(c.seed)]
    lines = c.model("SessionGen", cfg.replace("SPECIFICATION Spec", "SPECIFICATION SampleSpec") % (q("h", handles), q("k", keys), q("p", paths), steps) + "INVARIANTS Held Emit\n",
                    "longer sequences of operations, sampled", env={"EMIT": "1"}, extra=extra, sim=True)
    out = [json.loads(l[5:]) for l in lines if l.startswith("@OPS ")]
    uniq = sorted(set(json.dumps(o) for o in out))
    return [json.loads(o) for o in random.Random(c.seed).sample(uniq, min(n, len(uniq)))]


def edit(r, rnd, h, proj):
    """Some change of the database."""
    kdbx = proj["meta"]["present"] == "true"
    paths = [""]
    ents = []

    def walk(g, p):
        for i, e in enumerate(g["entries"]):
            ents.append("%s/%d" % (p, i))
        for i, x in enumerate(g["groups"]):
            q = "%s.%d" % (p, i) if p else str(i)
            paths.append(q)
            walk(x, q)
    walk(proj["root"], "")
    k = rnd.random()
    txt = rnd.choice(["changed", "", "x" * 50, "%c3a9"])
    if k < .2:
        r.edit(h, "db", "rounds", rnd.choice(["0", "1", "3", "7"]))
    elif k < .4:
        r.edit(h, "group", "addgroup", dict(gen.empty_group("%032x" % rnd.getrandbits(128)), name=E.norm(txt)), rnd.choice(paths))
    elif k < .55:
        r.edit(h, "group", "addentry", dict(gen.empty_entry("%032x" % rnd.getrandbits(128)), title="U:" + txt), rnd.choice(paths))
    elif k < .75 and ents:
        r.edit(h, "entry", rnd.choice(["title", "notes", "pass"]), rnd.choice(["U:", "P:"] if kdbx else ["U:"]) + txt, rnd.choice(ents))
    elif k < .85 and kdbx:
        r.edit(h, "meta", "color", txt)
    else:
        r.edit(h, "group", "name", txt, rnd.choice(paths))


def keyset(r):
    r.key("k1", pw=b"one")
    r.key("k2", pw=b"two", kf=bytes(range(32)))
    r.key("k3", kf=bytes(range(32, 64)))


def replay(ops, seed):
    """Performs a behaviour of SessionGen in the library."""
    def f(r):
        rnd = random.Random(seed)
        keyset(r)
        fmt = {"x": "kdbx", "y": "kdb"}
        proj, kinds, flipped = {}, {}, set()
        vals = {str(v): seed * 10 + v for v in range(1, 4)}

        def note():
            e = r.ev[-1]
            if e["e"] in ("new", "edit") or (e["e"] == "import" and e["out"] == "ok"):
                proj[e["h"]] = e["proj"]
                kinds[e["h"]] = "x" if e["proj"]["meta"]["present"] == "true" else "y"

        def obj():
            return rnd.choice(["_", "o1", "o1", "o1", "o2"])

        def form(h, f):
            return fmt[f if kinds[h] == "x" else "y"]

        for h in sorted({o[1] for o in ops if o[0] in ("new", "edit", "save", "failsave", "nosave")} | {"h1"}):
            r.new(h, db(vals["1"], rnd.choice([2, 5]), 4))
            note()
        for o in ops:
            if o[0] == "new":
                r.new(o[1], db(vals[o[2]], rnd.choice([2, 6, 12]), rnd.choice([2, 8])))
            elif o[0] == "edit":
                edit(r, rnd, o[1], proj[o[1]])
            elif o[0] == "save":
                _, h, k, p, x = o
                if r.export(h, k, p, form(h, x), o=obj()) and rnd.random() < .4:
                    r.read(p, k, form(h, x))
            elif o[0] == "failsave":
                _, h, k, p, x = o
                r.export_failing(h, k, p, form(h, x), rnd.choice([0, 1, 12, 100, 124, 300, 700, 1200]), o=obj())
            elif o[0] == "nosave":
                _, h, k, x = o
                r.export_nowhere(h, k, form(h, x), o=obj())
            elif o[0] == "load":
                _, p, k, h, x = o
                before = r.sum(p)
                r.imp(p, k, h, fmt[x], o=obj())
                note()
                r.fact("import changed the file", r.sum(p), before)
                if rnd.random() < .3:
                    for g in sorted(proj):
                        r.show(g)
            elif o[0] == "damage":
                _, p, kind = o
                raw = bytearray(r.bytes(p))
                if not raw:
                    continue
                n = len(raw)
                while True:           # never the same bit twice: that would undo the damage
                    i = rnd.randrange(min(n, 200) if kind == "header" else n)
                    b = rnd.randrange(8)
                    if (i, b) not in flipped and not (r.fmt[p] == "kdb" and 48 <= i < 56):
                        break
                flipped.add((i, b))
                raw[i] ^= 1 << b
                r.damage(p, bytes(raw), kind)
            elif o[0] == "copy":
                r.copy(o[1], o[2])
            elif o[0] == "remove":
                r.remove(o[1])
            note()
        for h in sorted(proj):
            r.show(h)
    return f


def shared_document(seed):
    """A document that uses everything by reference, and the same without the things referred to."""
    rnd = random.Random(seed)
    d = docs.Docs(seed)
    while True:
        t = d.doc()
        if d.binids and d.icons and len(d.groups) > 2 and any(_count(t, "Value", "Ref") for _ in [0]):
            break
    return d, t


def _count(n, tag, attr):
    return (n["t"] == tag and attr in n["a"]) + sum(_count(c, tag, attr) for c in n["c"])


def _strip(n, tags):
    return dict(n, c=[_strip(c, tags) for c in n["c"] if c["t"] not in tags])


def variants(seed):
    """[(name, function of the key parts)]: one document, and what is left of it without binaries, icons, groups."""
    d, t = shared_document(seed)
    g = [c for c in t["c"] if c["t"] == "Root"][0]
    f = d.header()

    def whole(k, doc):
        import copy
        return codec.kdbx_write(f, copy.deepcopy(doc), k, d.r, 0)

    def nosub():
        x = _strip(t, [])
        for r in x["c"]:
            if r["t"] == "Root":
                for gr in r["c"]:
                    if gr["t"] == "Group":
                        gr["c"] = [c for c in gr["c"] if c["t"] != "Group"]
        return x
    return [("all", lambda k: whole(k, t)), ("nobin", lambda k: whole(k, _strip(t, ["Binaries"]))),
            ("noicons", lambda k: whole(k, _strip(t, ["CustomIcons"]))), ("nosub", lambda k: whole(k, nosub())),
            ("nohash", lambda k: codec.kdbx_write(f, _strip(t, []), k, d.r, 0, headerhash=bytes(32))),
            ("dropped", lambda k: codec.kdbx_write(f, _strip(t, ["HeaderHash"]), k, d.r, 0, headerhash=False)),
            ("nometa", lambda k: whole(k, dict(t, c=[g])))]
