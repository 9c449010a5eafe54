"""C23: calls in different threads do not disturb each other."""
import json, random
from .. import both, prim, rec, session, tlc
from ..check import Case

KINDS = ["exportx", "exportk", "importx", "importk", "show", "json", "equal", "edit", "key", "derive", "base64", "gzip", "hashed",
         "cbc", "salsa", "uuid", "time"]
SAME = {"json", "eq", "transform", "b64e", "b64d", "gzw", "gzr", "hashw", "hashr", "cbc", "ecb", "salsa", "timestr"}


class Lane:
    """The calls of one thread: commands, and what to note about their results."""

    def __init__(self, r, i, seed, size):
        self.r, self.i, self.rnd, self.size = r, i, random.Random(seed), size
        self.cmds, self.notes = [], []
        self.n = 0
        self.owns = set()

    def name(self, s):
        self.n += 1
        return "%s%d-%d" % (s, self.i, self.n)

    def do(self, c, note=None, **kw):
        self.cmds.append(dict(kw, c=c))
        self.notes.append(note)

    def own_db(self):
        h = "own%d" % self.i
        if h not in self.owns:
            self.owns.add(h)
            d = both.db(self.rnd.randrange(1 << 30), self.size, self.size)

            def note(a):
                from .. import enc as E
                self.r.event("new", h=h, db=E.norm_db(d), proj=a.get("proj", {}))
            self.do("new", note, h=h, db=d)
        return h

    def own_key(self):
        k = "kown%d" % self.i
        if k not in self.owns:
            self.owns.add(k)
            self.key(k)
        return k

    def key(self, k):
        pw, kf = b"pass %d" % self.rnd.randrange(1000), self.rnd.randbytes(32)
        p = self.name("keyfile")
        self.r.put(p, rec.keyfile_xml(kf) if self.rnd.random() < .5 else kf.hex().encode())
        steps = [{"op": "pw", "v": pw.decode()}, {"op": "kf", "v": self.r.path(p)}]
        self.r.k[k] = rec.parts_of(pw, kf)
        parts = [x.hex() for x in self.r.k[k]]

        def note(a):
            self.r.event("key", k=k, parts=parts)
            self.r.fact("setting a key", a.get("outs", a.get("out")), ["ok", "ok"])
        self.do("key", note, k=k, steps=steps)

    def add(self, kind, arg):
        r, rnd = self.r, self.rnd
        h = lambda: "s" if arg == "shared" else self.own_db()
        k = lambda: "ks" if arg == "shared" else self.own_key()
        hx = rnd.randbytes(rnd.choice([0, 1, 15, 16, 100, 3000]))
        if kind in ("exportx", "exportk"):
            fmt = "kdbx" if kind == "exportx" else "kdb"
            p, hh, kk = self.name("out"), h(), k()
            r.fmt[p] = fmt

            def note(a):
                r.event("export", h=hh, k=kk, p=p, fmt=fmt, out=a["out"], what=a.get("what", ""), proj=a.get("proj", {}))
                if a["out"] == "ok":
                    r.read(p, kk, fmt)
            self.do("export", note, h=hh, k=kk, path=r.path(p), fmt=fmt, o="o%d" % self.i if rnd.random() < .5 else "_", proj="true")
        elif kind in ("importx", "importk"):
            fmt = "kdbx" if kind == "importx" else "kdb"
            p, kk = ("shared." + fmt, "ks")
            if arg == "own":
                p = "own%d.%s" % (self.i, fmt)
                if p not in self.owns:
                    self.owns.add(p)
                    r.copy("shared." + fmt, p)
            hh = self.name("got")

            def note(a):
                r.event("import", p=p, k=kk, h=hh, fmt=fmt, out=a["out"], what=a.get("what", "")[-300:], proj=a.get("proj", {}))
            self.do("import", note, h=hh, k=kk, path=r.path(p), fmt=fmt, o="o%d" % self.i if rnd.random() < .5 else "_")
        elif kind == "show":
            hh = h()
            self.do("proj", lambda a: r.event("show", h=hh, proj=a.get("proj", {})), h=hh)
        elif kind == "edit":
            hh = h()
            f, v = rnd.choice(["name", "notes"]), "edited %d" % rnd.randrange(99)
            self.do("edit", lambda a: r.event("edit", proj=a.get("proj", {}), h=hh, t="group", f=f, v=v, path=[]), h=hh, t="group", p="", f=f, v=v)
        elif kind == "json":
            self.do("json", h=h(), p="")
        elif kind == "equal":
            self.do("eq", h=h(), h2="s", t="group", p="", p2="")
        elif kind == "key":
            self.key(self.name("k"))
        elif kind == "derive":
            self.do("transform", k=k(), seed=rnd.randbytes(32).hex(), rounds=str(rnd.choice([0, 1, 100])), mode=rnd.choice(["kdb", "kdbx"]))
        elif kind == "base64":
            self.do("b64e", hex=hx.hex())
            self.do("b64d", hex=rnd.choice([b"QUJD", b"QQ==", b"!", b"Q U J D"]).hex())
        elif kind == "gzip":
            self.do("gzw", chunks=["abc" * 50, "x"])
            import gzip
            self.do("gzr", hex=gzip.compress(hx).hex(), sizes=["100"])
        elif kind == "hashed":
            self.do("hashw", bs="64", chunks=["abc" * 50, "x"])
        elif kind == "cbc":
            self.do("cbc", cipher=rnd.choice(["aes", "twofish"]), key=rnd.randbytes(32).hex(), iv=rnd.randbytes(16).hex(), dir="enc", hex=hx.hex())
        elif kind == "salsa":
            self.do("salsa", key=rnd.randbytes(32).hex(), iv=rnd.randbytes(8).hex(), src=[bytes(64).hex()] * 3)
        elif kind == "time":
            for _ in range(4):
                self.do("timestr", t=str(rnd.randrange(4000000000)))
        elif kind == "uuid":
            self.do("uuids", n="30")


def meet(seed, plan, reps, size=2):
    """plan: for every thread the kinds of its calls, [(kind, shared or own)]."""
    def f(r):
        rnd = random.Random(seed)
        r.key("ks", pw=b"shared", kf=bytes(range(32)))
        r.new("s", both.db(seed, size, size))
        r.export("s", "ks", "shared.kdbx", "kdbx")
        r.export("s", "ks", "shared.kdb", "kdb")
        lanes = [Lane(r, i, rnd.randrange(1 << 30), size) for i in range(len(plan))]
        for l, p in zip(lanes, plan):
            for j in range(reps):
                for kind, arg in p:
                    l.add(kind, arg)
        a = r.call("par", lanes=[l.cmds for l in lanes])
        if "lanes" not in a:
            r.fact("calls at the same time: " + a.get("stderr", "")[-1500:], a.get("out", "?"), "ok")
            return
        for l, got in zip(lanes, a["lanes"]):
            for c, n, g in zip(l.cmds, l.notes, got):
                if "driver_error" in g:
                    raise RuntimeError(g["driver_error"])
                if n:
                    n(g)
        ids = [v for got in a["lanes"] for g in got for v in g.get("v", []) if isinstance(g.get("v"), list)]
        r.fact("fresh identifiers repeat", str(len(ids)), str(len(set(ids))))
        # the same calls one thread after the other
        for l, got in zip(lanes, a["lanes"]):
            if any(c["c"] in SAME for c in l.cmds):
                b = r.call("par", lanes=[l.cmds])["lanes"][0]
                for c, g, w in zip(l.cmds, got, b):
                    if c["c"] in SAME:
                        r.fact("answer differs from the one alone: " + c["c"], g, w)
    return f


def run(c):
    q = lambda s: "{" + ", ".join('"%s"' % x for x in s) + "}"
    cfg = ("CONSTANTS Threads = {1, 2%s} Kinds = %s Calls = %d Process = %s\nSPECIFICATION Spec\n"
           "INVARIANTS AsAlone Undisturbed Emit\nVIEW View\n")
    lines = c.model("Threads", cfg % ("", q(KINDS), 1, "FALSE"), "every pair of calls, in every interleaving", env={"EMIT": "1"})
    c.model("Threads", cfg % (", 3", q(["importx", "edit"]), 2, "FALSE"), "three threads")
    bad = tlc.run("Threads", cfg % ("", q(["importx"]), 1, "TRUE"))
    if not bad.violated:
        raise tlc.ToolError("places of the process go unnoticed\n" + bad.tail())
    pairs = sorted({tuple(sorted(tuple(x) for x in json.loads(l[6:]))) for l in lines if l.startswith("@MEET ")})
    c.extra["pairs_of_calls"] = len(pairs)
    s = c.seed * 1000
    race = "tsan"
    if rec.driver(flavour="tsan").raw({"c": "ping"}) != {}:
        race = "plain"                # the race detector cannot run on this machine
        c.assumptions.append("run without the race detector, which does not start here")
    session.validate(c, [Case("meet-%d-%s-%s" % (i, "-".join(p[0]), "-".join(p[1])), meet(s + i, [[p[0]], [p[1]]], 2), flavour=race, timeout=120)
                         for i, p in enumerate(pairs)], "pairs of calls that meet, under a race detector", cfg=session.PLAIN)
    rnd = random.Random(c.seed)

    def plan(n, m, kinds):
        return [[(k, rnd.choice(["own", "shared"]) if k not in ("edit", "key") else "own") for k in (rnd.choice(kinds) for _ in range(m))]
                for _ in range(n)]
    session.validate(c, [Case("many-%d" % i, meet(s + 5000 + i, plan(c.pick(4, 8), 4, KINDS), 1, 6), flavour=race, timeout=300)
                         for i in range(c.pick(8, 60))], "many threads under a race detector", cfg=session.PLAIN)
    files = ["exportx", "exportk", "importx", "importk", "time", "json"]
    session.validate(c, [Case("stress-%d" % i, meet(s + 6000 + i, plan(c.pick(8, 16), 4, files), 2, 10), timeout=300)
                         for i in range(c.pick(6, 60))], "many threads at full speed", cfg=session.PLAIN)
