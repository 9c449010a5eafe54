"""C13: references inside a loaded database."""
import base64, json, random
from .. import codec, gen, session
from ..check import Case

node = codec.node
U = {"r": "01" * 16, "a": "0a" * 16, "b": "0b" * 16, "c": "0c" * 16, "e0": "e0" * 16, "e1": "e1" * 16, "a0": "a0" * 16, "a1": "a1" * 16,
     "i0": "c0" * 16, "i1": "c1" * 16, "unknown": "dd" * 16, "zero": "00" * 16}
OTHER = {"groups": "e0", "entries": "a", "icons": "a0"}
PATH = {"r": "g:", "a": "g:0", "b": "g:0.0", "c": "g:1"}


def identify(rnd, zero=False):
    """Identifiers that differ everywhere, or from one another only in the byte at one place."""
    k = rnd.choice([None, None, 0, 3, 4, 7, 8, 12, 15])
    rest = rnd.randbytes(16)
    for n, x in zip([x for x in U if x != "zero"], rnd.sample(range(1, 256), len(U))):
        U[n] = (bytes([x]) * 16 if k is None else rest[:k] + bytes([x]) + rest[k + 1:]).hex()
    if zero and rnd.random() < .3:                     # an identifier of zeros is one like any other
        U[rnd.choice(["r", "a", "b", "c", "e0", "e1", "a0", "a1", "i0", "i1"])] = "00" * 16


def b64(u):
    return base64.b64encode(bytes.fromhex(u)).decode()


def name(t, target, focus):
    """The element that names the target."""
    if target == "absent":
        return []
    if target == "empty":
        return [node(t, "")]
    return [node(t, b64(U[OTHER[focus] if target == "other" else target]))]


def doc(focus, a, rnd):
    ref = a["ref"]

    def one(t, p, f):
        return name(t, ref[p], f) if focus == f else []

    def shuffled(k):
        if rnd.random() < .5:
            rnd.shuffle(k)
        return k
    binref = [str(i) for i in rnd.sample(range(10), 3)]

    def entry(u, hist=0):
        k = [node("UUID", b64(U[u]))]
        if not hist and u in ("e0", "a1"):
            k += one("CustomIconUUID", u, "icons")
        if hist:
            k += one("CustomIconUUID", "h", "icons")
        for j in range(rnd.choice([0, 1, 2, 3])):
            k.append(node("Binary", None, [node("Key", "f%d" % j), node("Value", None, a={"Ref": rnd.choice(binref)})]))
        if u == "e0" and not hist:
            k.append(node("History", None, [entry(rnd.choice(["e0", "e0", "e1", "a0"]), 1)]))
        return node("Entry", None, shuffled(k))

    def group(u, entries, groups):
        k = [node("UUID", b64(U[u])), node("Name", u)]
        if u in ("r", "a", "b"):
            k += one("LastTopVisibleEntry", u, "entries")
        if u in ("r", "a"):
            k += one("CustomIconUUID", u, "icons")
        return node("Group", None, shuffled(k + entries + groups))
    b = group("b", [], [])
    for i in range(rnd.choice([0, 0, 1, 2, 9])):       # deeper down
        b = node("Group", None, shuffled([node("UUID", b64("%032x" % (i + 77))), b]))
    root = group("r", [entry("e0"), entry("e1")], [group("a", [entry("a0"), entry("a1")], [b]), group("c", [], [])])
    m = [node("Generator", "x")]
    if rnd.random() < .7:
        m.append(node("RecycleBinEnabled", rnd.choice(["True", "True", "False"])))
    for t, p in (("RecycleBinUUID", "rb"), ("EntryTemplatesGroup", "tmpl"), ("LastSelectedGroup", "lsg"), ("LastTopVisibleGroup", "lvg")):
        m += one(t, p, "groups")
    ic = []
    for i in ("i0", "i1"):
        d = node("Data", None)
        d["bin"] = i.encode()
        ic.append(node("Icon", None, shuffled([node("UUID", b64(U[i])), d])))
    m.append(node("CustomIcons", None, shuffled(ic)))
    bs = []
    for i in binref:
        d = node("Binary", None, a={"ID": i})
        d["bin"] = rnd.choice([b"same", b"same", i.encode()])        # equal contents are still different objects
        bs.append(d)
    m.append(node("Binaries", None, shuffled(bs)))
    top = [node("Meta", None, shuffled(m)), node("Root", None, [root])]
    if not a["metafirst"]:
        top.reverse()
    return node("KeePassFile", None, top)


def loaded(focus, arrs, seed):
    """Documents of other programs: loaded, saved, read by an independent reader and loaded again."""
    def f(r):
        rnd = random.Random(seed)
        r.key("k", pw=b"secret")
        for a in arrs:
            identify(rnd, True)
            fields = codec.kdbx_fields(rnd.randbytes(32), rnd.randbytes(32), 1, rnd.randbytes(16), rnd.randbytes(32), rnd.randbytes(32),
                                       rnd.random() < .5)
            r.give("f", "k", "kdbx", codec.kdbx_write(fields, doc(focus, a, rnd), r.k["k"], rnd, rnd.choice([0, 1])))
            if r.imp("f", "k", "a", "kdbx"):
                if r.export("a", "k", "g", "kdbx"):
                    r.read("g", "k", "kdbx")
                    r.imp("g", "k", "b", "kdbx")
    return f


def db_of(focus, a, rnd):
    """The same assignment made with the setters."""
    ref = a["ref"]
    db = gen.empty_db(U["r"])
    m = db["meta"]
    m["icons"] = [{"uuid": U[i], "data": i} for i in ("i0", "i1")]
    m["bins"] = [{"data": rnd.choice(["U:same", "P:same", "U:x"]), "compress": "false"} for _ in range(3)]

    def icon(p):
        t = ref.get(p, "absent") if focus == "icons" else "absent"
        return {"i0": "i:0", "i1": "i:1", "unknown": "detached:" + U["unknown"], "zero": "detached:" + U["zero"]}.get(t, "none")

    def entry(u, hist=0):
        e = gen.empty_entry(U[u])
        e["cicon"] = icon("h" if hist else u)
        for j in range(rnd.choice([0, 1, 2, 3])):
            b = rnd.randrange(3)
            e["att"].append({"name": "f%d" % j, "bin": "b:%d" % b, "data": m["bins"][b]["data"], "compress": "false"})
        if u == "e0" and not hist:
            e["hist"] = [entry(rnd.choice(["e0", "e0", "e1", "a0"]), 1)]
        return e

    def group(u, entries, groups):
        g = gen.empty_group(U[u])
        g.update(cicon=icon(u), entries=entries, groups=groups)
        if focus == "entries" and u in ref:
            g["last"] = {"e0": "e:/0", "e1": "e:/1", "a0": "e:0/0", "a1": "e:0/1", "unknown": "detached:" + U["unknown"],
                         "zero": "detached:" + U["zero"]}.get(ref[u], "none")
        return g
    b, path = group("b", [], []), dict(PATH)
    for i in range(rnd.choice([0, 0, 1, 2, 9])):       # deeper down
        x = gen.empty_group("%032x" % (i + 77))
        x["groups"] = [b]
        b, path["b"] = x, path["b"] + ".0"
    db["root"] = group("r", [entry("e0"), entry("e1")], [group("a", [entry("a0"), entry("a1")], [b]), group("c", [], [])])
    if focus == "groups":
        for p, t in ref.items():
            m[p] = path.get(t) or ("detached:" + U[t] if t in ("unknown", "zero") else "none")
    return db


def saved(focus, arrs, seed):
    def f(r):
        rnd = random.Random(seed)
        r.key("k", pw=b"secret")
        for a in arrs:
            identify(rnd)
            r.new("a", db_of(focus, a, rnd))
            if r.export("a", "k", "f", "kdbx"):
                r.read("f", "k", "kdbx")
                if r.imp("f", "k", "b", "kdbx") and r.export("b", "k", "g", "kdbx"):
                    r.imp("g", "k", "c", "kdbx")
    return f


def many(n, seed):
    """More binaries, groups and icons than one byte counts, each used at several places."""
    def f(r):
        rnd = random.Random(seed)
        r.key("k", pw=b"secret")
        db = gen.empty_db()
        m = db["meta"]
        m["icons"] = [{"uuid": "%032x" % (i << 60 | 5), "data": "i%d" % (i % 7)} for i in range(n)]
        m["bins"] = [{"data": "U:same" if i % 3 else "P:%d" % i, "compress": "false"} for i in range(n)]
        for i in range(n):
            g = gen.empty_group("%032x" % (i + 1))
            g["cicon"] = "i:%d" % rnd.randrange(n)
            e = gen.empty_entry("%032x" % (i + 1 << 64))
            e["cicon"] = "i:%d" % i
            for b in (i, rnd.randrange(n)):
                e["att"].append({"name": "f%d" % b, "bin": "b:%d" % b, "data": m["bins"][b]["data"], "compress": "false"})
            g["entries"], g["last"] = [e], "e:%d/0" % rnd.randrange(n)
            db["root"]["groups"].append(g)
        for p in ("rb", "tmpl", "lsg", "lvg"):
            m[p] = "g:%d" % rnd.randrange(n)
        r.new("a", db)
        if r.export("a", "k", "f", "kdbx"):
            r.read("f", "k", "kdbx")
            r.imp("f", "k", "b", "kdbx")
    return f


def run(c):
    cfg = "CONSTANTS Focus = \"%s\" Busy = %d\nINIT Init\nNEXT Next\nINVARIANTS Right Never Emit\n"
    cases = []
    for focus, busy in (("groups", c.pick(2, 3)), ("entries", c.pick(2, 3)), ("icons", c.pick(2, 3))):
        arrs = sorted((json.loads(l[5:]) for l in c.model("RefGen", cfg % (focus, busy), "references among %s, up to %d set" % (focus, busy),
                                                          env={"EMIT": "1"}) if l.startswith("@REF ")), key=lambda a: json.dumps(a, sort_keys=True))
        n = 12
        for i in range(0, len(arrs), n):
            cases.append(Case("%s-%d" % (focus, i), loaded(focus, arrs[i:i + n], c.seed * 1000 + i)))
        arrs = [a for a in arrs if a["metafirst"]]
        for i in range(0, len(arrs), n):
            cases.append(Case("set-%s-%d" % (focus, i), saved(focus, arrs[i:i + n], c.seed * 1000 + i)))
    session.validate(c, cases, "assignments of references")
    session.validate(c, [Case("many-%d" % n, many(n, c.seed)) for n in c.pick([260], [260, 520])], "many targets")
