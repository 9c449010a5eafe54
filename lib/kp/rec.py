"""Recorder: performs calls on the real library through the driver and writes down what happened as events of
spec/SessionTrace.tla."""
import base64, os, struct
from . import codec, crypt as C, drv, enc as E

_tls = {}


def driver(**kw):
    """One driver per process and configuration."""
    k = (os.getpid(), tuple(sorted(kw.items())))
    if k not in _tls:
        _tls[k] = drv.Driver(**kw)
    return _tls[k]


def keyfile_xml(key):
    return (b'<?xml version="1.0" encoding="utf-8"?>\n<KeyFile>\n\t<Meta>\n\t\t<Version>1.00</Version>\n\t</Meta>\n'
            b'\t<Key>\n\t\t<Data>' + base64.b64encode(key) + b'</Data>\n\t</Key>\n</KeyFile>\n')


def parts_of(pw=None, kf=None):
    """Key parts: digest of the password (bytes), 32 key-file bytes."""
    return ([C.sha256(pw)] if pw is not None else []) + ([kf] if kf is not None else [])


def file_x(raw, parts):
    """A KDBX file as the specification sees it."""
    f = {"bad": "", "sig": raw[:8].hex(), "ver": "", "vermajor": 0, "hdr": [], "rounds": "0", "hash": "", "blocks": [],
         "rest": "0", "gzrest": "0", "tree": {"t": "", "a": {}, "x": "", "c": []}}
    try:
        r = codec.kdbx_read(raw, parts)
    except codec.Bad as e:
        f["bad"] = str(e.args[0])
        return f
    f["ver"] = "%08x" % r["ver"]
    f["vermajor"] = r["ver"] >> 16
    f["hdr"] = [[str(i), str(len(v)), v.hex()] for i, v in r["fields"]]
    for i, v in r["fields"]:
        if i == 6:
            f["rounds"] = str(struct.unpack("<Q", v)[0])
    f["hash"] = r["hash"].hex()
    f["blocks"] = [{"idx": b["idx"], "size": b["size"], "hash": b["hash"]} for b in r["blocks"]]
    f["rest"] = str(len(r["rest"]))
    f["gzrest"] = str(len(r.get("gzrest", b"")))
    f["tree"] = codec.xml_json(r["tree"])
    return f


def file_k(raw, parts):
    f = {"bad": "", "sig0": "", "sig1": "", "flags": 0, "ver": "", "ng": 0, "ne": 0, "groups": [], "entries": [], "rest": "0",
         "mseed": "", "iv": "", "tseed": "", "rounds": "0"}
    try:
        r = codec.kdb_read(raw, parts)
    except codec.Bad as e:
        f["bad"] = str(e.args[0])
        return f
    f.update(sig0="%08x" % r["sig0"], sig1="%08x" % r["sig1"], flags=r["flags"] & 0x7fffffff, ver="%06x" % (r["ver"] >> 8), ng=r["ng"],
             ne=r["ne"], groups=[codec.rec_json(g) for g in r["groups"]], entries=[codec.rec_json(g) for g in r["entries"]],
             rest=str(len(r["rest"])), mseed=r["mseed"].hex(), iv=r["iv"].hex(), tseed=r["tseed"].hex(), rounds=str(r["rounds"]))
    return f


def flatten(db):
    """A database with its tree as the sequence of its nodes in preorder (see SessionTrace, flat)."""
    if "root" not in db or "entries" not in db["root"]:
        return db
    out = []
    stack = [(1, "g", db["root"])]
    while stack:
        d, k, v = stack.pop()
        if k == "g":
            out.append({"d": d, "k": k, "v": dict(v, groups=[], entries=[])})
            stack += [(d + 1, "g", x) for x in reversed(v["groups"])] + [(d + 1, "e", x) for x in reversed(v["entries"])]
        else:
            out.append({"d": d, "k": k, "v": dict(v, hist=[])})
            stack += [(d + 1, "h", x) for x in reversed(v["hist"])]
    return dict(db, root=out, flat="true")


class Over(Exception):
    """The process under test died; the run ends with the event that tells so."""


class Rec:
    def __init__(self, scratch, flat=False, **drvkw):
        self.p = flatten if flat else lambda x: x
        self.flat = flat
        self.d = driver(**drvkw)
        self.dir = scratch
        self.ev = []
        self.cmds = []
        self.k, self.fmt = {}, {}
        self.calls = 0
        self.dead = False
        self.d("reset")

    # ---- plumbing
    def call(self, c, **kw):
        if self.dead:
            raise Over()
        self.calls += 1
        self.cmds.append(dict(kw, c=c))
        r = self.d(c, **kw)
        self.dead = r.get("out") in ("crash", "hang")
        return r

    def path(self, p):
        return os.path.join(self.dir, p)

    def bytes(self, p):
        with open(self.path(p), "rb") as f:
            return f.read()

    def sum(self, p):
        try:
            return C.sha256(self.bytes(p)).hex()
        except OSError:
            return "absent"

    def put(self, p, data):
        with open(self.path(p), "wb") as f:
            f.write(data)
        self.cmds.append({"write": p, "len": len(data), "hex": data.hex() if len(data) <= 40000 else ""})

    def event(self, e, **kw):
        self.ev.append(dict(kw, e=e))

    # ---- events
    def new(self, h, db):
        r = self.call("new", h=h, db=db)
        self.event("new", h=h, db=self.p(E.norm_db(db)), proj=self.p(r.get("proj", {})))

    def key(self, k, pw=None, kf=None, order="pk", form="xml"):
        """pw: bytes; kf: 32 bytes of key file."""
        steps = []
        if pw is not None:
            steps.append({"op": "pw", "v": E.raw(pw)})
        if kf is not None:
            p = "%s.key" % k
            self.put(p, keyfile_xml(kf) if form == "xml" else kf.hex().encode() if form == "hex" else kf.hex().upper().encode())
            steps.append({"op": "kf", "v": self.path(p)})
        if order == "kp":
            steps.reverse()
        r = self.call("key", k=k, steps=steps)
        self.k[k] = parts_of(pw, kf)
        self.event("key", k=k, parts=[x.hex() for x in self.k[k]])
        return r

    def export(self, h, k, p, fmt, o="_", proj=True):
        kw = {"proj": "true"} if proj else {}
        self.fmt[p] = fmt
        r = self.call("export", h=h, k=k, path=self.path(p), fmt=fmt, o=o, **kw)
        e = {"h": h, "k": k, "p": p, "fmt": fmt, "out": r["out"], "what": r.get("what", "")}
        if proj:
            e["proj"] = self.p(r.get("proj", {}))
        self.event("export", **e)
        return r["out"] == "ok"

    def export_failing(self, h, k, p, fmt, limit, o="_"):
        """Saves while the file may not grow beyond a limit."""
        self.fmt[p] = fmt
        self.call("fsize", n=str(limit))
        r = self.call("export", h=h, k=k, path=self.path(p), fmt=fmt, o=o, proj="true")
        self.call("fsize", n="inf")
        self.event("tryexport", h=h, k=k, p=p, fmt=fmt, out=r["out"], what=r.get("what", ""), there="true", proj=self.p(r.get("proj", {})))
        return r["out"]

    def export_nowhere(self, h, k, fmt, path="no/such/directory/f", o="_"):
        """Saves to a place where no file can be made."""
        r = self.call("export", h=h, k=k, path=path if path.startswith("/") else self.path(path), fmt=fmt, o=o, proj="true")
        self.event("badexport", h=h, k=k, p=path, fmt=fmt, out=r["out"], what=r.get("what", ""), there="false",
                   proj=self.p(r.get("proj", {})))

    def copy(self, p, q):
        self.put(q, self.bytes(p))
        self.fmt[q] = self.fmt.get(p)
        self.event("copy", p=p, q=q)

    def remove(self, p):
        os.unlink(self.path(p))
        self.event("remove", p=p)

    def read(self, p, k, fmt):
        try:
            raw = self.bytes(p)
        except OSError:
            raw = b""
        f = (file_x if fmt == "kdbx" else file_k)(raw, self.k[k])
        self.event("read", p=p, fmt=fmt, file=f)
        return f

    def give(self, p, k, fmt, data, raw=None, key=None):
        """A file written by somebody else, with key k. raw: the bytes really there, unreadable with k: another key's."""
        self.put(p, data if raw is None else raw)
        f = (file_x if fmt == "kdbx" else file_k)(data, self.k[k])
        self.event("give", p=p, fmt=fmt, key=key or [x.hex() for x in self.k[k]], file=dict(f, flat="true") if self.flat else f)
        return f

    def imp(self, p, k, h, fmt, o="_"):
        r = self.call("import", h=h, k=k, path=self.path(p), fmt=fmt, o=o)
        self.event("import", p=p, k=k, h=h, fmt=fmt, out=r["out"], what=r.get("what", r.get("stderr", ""))[-300:],
                   proj=self.p(r.get("proj", {})))
        return r["out"] == "ok"

    def show(self, h):
        r = self.call("proj", h=h)
        self.event("show", h=h, proj=self.p(r.get("proj", {})))

    def edit(self, h, t, f, v, p="", norm=None):
        """norm: the value as the projection shows it."""
        e = {"h": h, "t": t, "f": f, "v": v if norm is None else norm}
        if t == "group":
            e["path"] = [int(x) for x in p.split(".") if x]
        elif t == "entry":
            g, i = p.split("/")
            e["path"] = [int(x) for x in g.split(".") if x]
            e["i"] = int(i)
        r = self.call("edit", h=h, t=t, p=p, f=f, v=v)
        self.event("edit", proj=self.p(r.get("proj", {})), **e)

    def fact(self, name, got, want):
        self.event("fact", name=name, got=got, want=want)

    def damage(self, p, data, kind):
        self.put(p, data)
        self.event("damage", p=p, kind=kind)
