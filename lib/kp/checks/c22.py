"""C22: fresh random identifiers."""
import concurrent.futures, copy, json, random
from .. import build, codec, crypt as C, drv, gen, prim
from ..check import Case
from .c19 import kids, text

PW = "fresh"
PARTS = [C.sha256(PW.encode())]
KEY = [{"op": "pw", "v": PW}]


def made(seed, procs, each, short, few):
    """Identifiers of new objects from processes that live long and many that live briefly."""
    def f(r):
        for i in range(procs + short):
            d = drv.Driver()
            try:
                ids = d("uuids", n=str(each if i < procs else few)).get("v", [])
            finally:
                d.stop()
            if i == 0:
                r.event("varied", ids=ids[:3000], bytes=16, each=240, pair=500)
                ids = ids[3000:]
            r.event("drawn", what="process %d" % i, ids=ids)
    return f


def first(each):
    """The first identifier of each of very many processes: too many for a generator with few starting points."""
    def f(r):
        ds = [drv.Driver() for _ in range(8)]
        try:
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                lists = list(ex.map(lambda d: [x for _ in range(8) for x in d("forks", n=str(each // 8)).get("v", [])], ds))
        finally:
            for d in ds:
                d.stop()
        for i, ids in enumerate(lists):
            r.event("drawn", what="first of its process (%d)" % i, ids=ids)
    return f


def small_db():
    db = gen.empty_db()
    db["root"]["entries"] = [gen.empty_entry("ee" * 16)]
    return db


def starts(seed, procs, n):
    """Start sequences of exports of one database, from several processes."""
    def f(r):
        p = r.path("s.kdbx")
        ids = []
        for i in range(procs):
            d = drv.Driver()
            try:
                d("key", k="k", steps=KEY)
                d("new", h="a", db=small_db())
                for _ in range(n):
                    o = d("export", h="a", k="k", fmt="kdbx", path=p)
                    if o["out"] == "ok":
                        try:
                            ids.append(dict(codec.kdbx_read(r.bytes("s.kdbx"), PARTS)["fields"]).get(9, b"").hex())
                        except codec.Bad:
                            ids.append("unreadable %d" % len(ids))
            finally:
                d.stop()
        r.event("varied", ids=ids, bytes=32, each=len(set(range(256))) * 6 // 10, pair=300)
    return f


def refused(lo):
    """A start sequence that differs in one byte is not accepted."""
    def f(r):
        r.do("key", k="k", steps=KEY)
        r.do("new", h="a", db=small_db())
        r.do("export", h="a", k="k", fmt="kdbx", path=r.path("f"))
        raw = r.bytes("f")
        fields = codec.kdbx_read(raw, PARTS)["fields"]
        at = raw.index(dict(fields)[9])
        outs = []
        for i in range(lo, lo + 8):
            for m in (1, 0x80, 0xff):
                b = bytearray(raw)
                b[at + i] ^= m
                r.put("g", bytes(b))
                outs.append(r.do("import", h="b", k="k", fmt="kdbx", path=r.path("g"))["out"])
        # everything but the sequence is right: the header's digest, too
        doc = codec.kdbx_read(raw, PARTS)["tree"]
        f9 = [(i, bytes(32) if i == 9 else v) for i, v in fields]
        for st in (b"\1" + bytes(31), bytes(31) + b"\1", bytes(16) + b"\1" + bytes(15)):
            r.put("g", codec.kdbx_write(f9, copy.deepcopy(doc), PARTS, start=st))
            outs.append(r.do("import", h="b", k="k", fmt="kdbx", path=r.path("g"))["out"])
        r.event("wrong", outs=outs)
    return f


def kind(fmt, i):
    return "entry" if fmt == "kdb" or i % 2 == 0 else "group"


def ids_of(fmt, proj):
    g = proj["root"]["groups"][0] if fmt == "kdb" else proj["root"]
    es, gs = [e["uuid"] for e in g["entries"]], [] if fmt == "kdb" else [x["uuid"] for x in g["groups"]]
    return order(fmt, es, gs)


def order(fmt, es, gs):
    out = []
    es, gs = list(es), list(gs)
    while es or gs:
        xs = es if kind(fmt, len(out)) == "entry" else gs
        if not xs:
            return out + es + gs
        out.append(xs.pop(0))
    return out


def file_ids(fmt, raw):
    if fmt == "kdb":
        return [dict(e).get(1, b"").hex() for e in codec.kdb_read(raw, PARTS)["entries"]]
    root = kids(kids(codec.kdbx_read(raw, PARTS)["tree"], "Root")[0], "Group")[0]

    def uuid(n):
        return (codec.b64(text(n, "UUID")) or b"").hex()
    return order(fmt, [uuid(n) for n in kids(root, "Entry")], [uuid(n) for n in kids(root, "Group")])


def replay(fmt, runs, seed):
    """Histories of the model over two processes."""
    def f(r):
        rnd = random.Random(seed)
        path = r.path("h." + fmt)
        ds = {1: drv.Driver(), 2: drv.Driver()}
        base = gen.empty_db()
        if fmt == "kdb":
            base["mseed"] = "11" * 16
            base["root"]["groups"] = [gen.empty_group("dd" * 16)]
        at = "0" if fmt == "kdb" else ""
        try:
            for run in runs:
                n = {}

                def begin(p):
                    ds[p]("reset")
                    ds[p]("key", k="k", steps=KEY)
                    ds[p]("new", h="a", db=base)
                    n[p] = 0
                    r.event("restart", p=str(p))
                begin(1)
                begin(2)
                saved = 0
                for op in run:
                    o, p = op.rstrip("12"), int(op[-1]) if op[-1] in "12" else 0
                    d = ds.get(p)
                    if o == "make":
                        k = kind(fmt, n[p])
                        d("edit", h="a", t="group", p=at, f="add" + k, v={"icon": "1"})
                        now = ids_of(fmt, d("proj", h="a")["proj"])
                        n[p] += 1
                        r.event("make", p=str(p), id=now[-1] if len(now) == n[p] else "missing")
                    elif o == "set":
                        i = rnd.randrange(n[p])
                        u = "%032x" % rnd.getrandbits(128) if rnd.random() < .7 else rnd.choice(["00" * 16, "ff" * 16, "00" * 15 + "01"])
                        q = "%s/%d" % (at, i) if fmt == "kdb" else "/%d" % (i // 2) if i % 2 == 0 else "%d" % (i // 2)
                        d("edit", h="a", t=kind(fmt, i), p=q, f="uuid", v=u)
                        r.event("set", p=str(p), i=i + 1, id=u, got=ids_of(fmt, d("proj", h="a")["proj"])[i])
                    elif o == "save":
                        out = d("export", h="a", k="k", fmt=fmt, path=path)["out"]
                        st, ids = "", []
                        if out == "ok":
                            try:
                                raw = r.bytes("h." + fmt)
                                ids = file_ids(fmt, raw)
                                st = dict(codec.kdbx_read(raw, PARTS)["fields"])[9].hex() if fmt == "kdbx" else ""
                            except (codec.Bad, KeyError, IndexError):
                                out = "unreadable"
                        r.event("save", p=str(p), fmt=fmt, out=out, start=st, ids=ids)
                        saved = n[p]
                    elif o == "tamper":
                        raw = bytearray(r.bytes("h." + fmt))
                        # KDB has no start sequence; its counterpart is the digest of the content
                        i = raw.index(dict(codec.kdbx_read(bytes(raw), PARTS)["fields"])[9]) if fmt == "kdbx" else 56
                        raw[i + rnd.randrange(32)] ^= 1 << rnd.randrange(8)
                        r.put("h." + fmt, bytes(raw))
                        r.event("tamper")
                        saved = -1
                    elif o == "load":
                        a = d("import", h="b" if saved < 0 else "a", k="k", fmt=fmt, path=path)
                        r.event("load", p=str(p), out=a["out"], ids=ids_of(fmt, a["proj"]) if a["out"] == "ok" and saved >= 0 else [])
                        if saved >= 0 and a["out"] == "ok":
                            n[p] = saved
                    elif o == "restart":
                        ds[p].stop()
                        begin(p)
        finally:
            for d in ds.values():
                d.stop()
    return f


def run(c):
    build.build()
    runs = set()
    for l in c.model("Fresh", "CONSTANTS Own = {1000} MaxOps = %d\nSPECIFICATION Spec\nINVARIANTS Distinct Traceable StartFresh Emit\n" % c.pick(5, 6),
                     "lives of objects, files and two processes", env={"EMIT": "1"}):
        if l.startswith("@RUN "):
            runs.add(l[5:])
    rnd = random.Random(c.seed)
    runs = [json.loads(x) for x in sorted(runs)]
    rnd.shuffle(runs)
    cases = [Case("made-long", made(c.seed, 4, c.pick(40000, 100000), 0, 0)), Case("made-brief", made(c.seed, 1, 3000, c.pick(60, 600), 40)),
             Case("first", first(c.pick(36000, 80000)), timeout=300), Case("starts", starts(c.seed, 4, c.pick(120, 600)))]
    cases += [Case("refused-%d" % i, refused(i)) for i in range(0, 32, 8)]
    k = c.pick(320, 4000)
    for fmt in ("kdbx", "kdb"):
        for i in range(0, k, 40):
            cases.append(Case("%s-%d" % (fmt, i), replay(fmt, runs[i:i + 40], c.seed + i)))
    prim.validate(c, "FreshTrace", cases, "identifiers over several processes", twice=True)
