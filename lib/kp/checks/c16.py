"""C16: a save that fails says so."""
import json, os, random
from .. import both, gen, session, work
from ..check import Case


def kdb_of(n):
    d = gen.empty_db()
    d.update(meta={"present": "false"}, mseed="55" * 16, rkey="00" * 32, rounds="1")
    g = gen.empty_group("%032x" % 7)
    g["name"] = "group"
    e = gen.empty_entry("ab" * 16)
    e.update(title="U:title", notes="U:@%d:x61" % n)
    g["entries"].append(e)
    d["root"]["groups"].append(g)
    return d


def kdbx_of(n, compress):
    d = gen.empty_db()
    d.update(rounds="1", compress=compress)
    e = gen.empty_entry("ab" * 16)
    e.update(title="U:title", **{"pass": "P:secret"})
    e["att"] = [{"name": "file", "bin": "own", "data": "U:@%d:3" % n, "compress": "false"}]
    d["root"]["entries"].append(e)
    return d


KINDS = {"kdbx-plain": lambda n: ("kdbx", kdbx_of(n, "false")), "kdbx-gz": lambda n: ("kdbx", kdbx_of(n, "true")),
         "kdb-aes": lambda n: ("kdb", dict(kdb_of(n), cipher="aes")), "kdb-twofish": lambda n: ("kdb", dict(kdb_of(n), cipher="twofish"))}


def start(r, kind, n):
    r.key("k", pw=b"secret")
    fmt, d = KINDS[kind](n)
    r.new("a", d)
    r.export("a", "k", "f", fmt, o="o1")
    r.imp("f", "k", "b", fmt, o="o1")
    return fmt, len(r.bytes("f"))


def finish(r, fmt):
    """After all the failures: as if nothing had happened."""
    r.show("a")
    r.export("a", "k", "g", fmt, o="o1")
    r.read("g", "k", fmt)
    r.imp("g", "k", "b", fmt, o="o1")
    r.export("a", "k", "f", fmt, o="o1")
    r.imp("f", "k", "c", fmt)


def limits(kind, n, lo, step, seed, dense=160):
    """The file may not grow beyond any size from nothing to the whole."""
    def f(r):
        fmt, size = start(r, kind, n)
        rnd = random.Random(seed)
        at = set(range(0, 13)) | set(range(size - dense, size + 40)) | set(range(0, size, max(1, size // 150)))
        for b in range(8191, size, 8191):
            at |= set(range(b - 3, b + 4))
        if step > 0:
            at = sorted(at)[lo::step]
        for x in sorted(y for y in at if y >= 0):
            out = r.export_failing("a", "k", "f", fmt, x, o="o1")
            if out == "ok":
                r.imp("f", "k", "b", fmt)
            elif rnd.random() < .1:
                finish(r, fmt)
        finish(r, fmt)
    return f


def plans(kind, n, ps):
    """Every answer of the device, call by call."""
    def f(r):
        fmt, size = start(r, kind, n)
        for p in ps:
            r.d("iofault", plan=p["plan"], rest=p["rest"])
            r.cmds.append({"c": "iofault", "plan": p["plan"], "rest": p["rest"]})
            a = r.call("export", h="a", k="k", path=r.path("f"), fmt=fmt, o="o1", proj="true")
            io = r.d("iofault") if a["out"] not in ("crash", "hang") else {"hits": "0"}
            # without a refusal the save must succeed; with one it may only if the file is whole all the same
            r.event("export" if io["hits"] == "0" else "tryexport", h="a", k="k", p="f", fmt=fmt, out=a["out"], what=a.get("what", ""), there="true",
                    proj=r.p(a.get("proj", {})))
            if a["out"] == "ok":
                r.imp("f", "k", "b", fmt)
        finish(r, fmt)
    return f


def nowhere(kind, seed):
    """Places where nothing can be saved."""
    def f(r):
        fmt, size = start(r, kind, 100 + seed % 50)
        os.mkdir(r.path("dir"))
        r.put("file", b"x")
        big = KINDS[kind](30000)[1]
        for p in ("no/such/directory/f", "dir", "file/f", "x" * 300, "/dev/full", "/dev/full/f", ".", "", "/proc/no-such-file"):
            if p == "":
                continue
            r.export_nowhere("a", "k", fmt, p, o="o1")
        finish(r, fmt)
        r.new("a", big)
        r.export_nowhere("a", "k", fmt, "/dev/full", o="o1")
        finish(r, fmt)
        # a place another user may not write to; the file that is there stays
        before = r.sum("f")
        r.call("setuid", u="65534")
        try:
            r.export_nowhere("a", "k", fmt, "f", o="o1")
            r.export_nowhere("a", "k", fmt, "new", o="o1")
        finally:
            r.call("setuid", u="0")
        r.fact("the file there is kept", r.sum("f"), before)
        r.fact("no file is made", r.sum("new"), "absent")
        r.imp("f", "k", "b", fmt)
        finish(r, fmt)
    return f


def mixed(seed, n):
    """Any databases, formats, failures and successes in turn with one object."""
    def f(r):
        rnd = random.Random(seed)
        r.key("k", pw=b"secret", kf=rnd.randbytes(32))
        r.new("a", both.db(seed, 6, 8))
        sizes = {}
        for i in range(n):
            fmt = rnd.choice(["kdbx", "kdb"])
            k = rnd.random()
            if k < .3 or fmt not in sizes:
                r.export("a", "k", "f" + fmt, fmt, o="o1")
                sizes[fmt] = len(r.bytes("f" + fmt))
                r.imp("f" + fmt, "k", "b", fmt, o="o1")
            elif k < .7:
                if r.export_failing("a", "k", "f" + fmt, fmt, rnd.randrange(sizes[fmt] + 20), o="o1") == "ok":
                    r.imp("f" + fmt, "k", "b", fmt, o="o1")
            elif k < .85:
                r.export_nowhere("a", "k", fmt, rnd.choice(["no/f", "/dev/full", "."]), o="o1")
            else:
                r.new("a", both.db(rnd.getrandbits(30), 6, 8))
        r.show("a")
    return f


def run(c):
    cfg = "CONSTANTS Size = %d Buf = %d Calls = %d\nSPECIFICATION Spec\nINVARIANTS Honest NoLoss Reports Emit\nPROPERTY Ends\n"
    ps = [json.loads(l[6:]) for l in c.model("Writer", cfg % (5, 2, c.pick(4, 5)), "answers of a device to the calls of a save", env={"EMIT": "1"})
          if l.startswith("@PLAN ")]
    ps.sort(key=lambda p: json.dumps(p))
    cases = []
    s = c.seed * 1000
    for kind in KINDS:
        for i in range(c.pick(3, 8)):
            cases.append(Case("limits-%s-%d" % (kind, i), limits(kind, 60 + c.seed, i, c.pick(3, 8), s + i)))
        for i in range(2):
            cases.append(Case("limits-big-%s-%d" % (kind, i), limits(kind, 20000, i, c.pick(4, 2), s + i, c.pick(40, 300))))
        if not c.quick:
            for i in range(8):
                cases.append(Case("limits-each-%s-%d" % (kind, i), limits(kind, 200, 0, -1, s + i, 4000)))
        for i in range(0, len(ps), 150):
            cases.append(Case("plan-%s-%d" % (kind, i), plans(kind, 30000, ps[i:i + 150])))
        for i in range(c.pick(1, 4)):
            cases.append(Case("nowhere-%s-%d" % (kind, i), nowhere(kind, s + i)))
    for i in range(c.pick(16, 200)):
        cases.append(Case("mixed-%d" % i, mixed(s + i, c.pick(20, 60))))
    session.validate(c, cases, "saves that fail", chunk=48)
