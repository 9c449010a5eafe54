"""The textual value encoding shared with the driver (see enc/dec in harness/driver.cc)."""
import hashlib


def pattern(n, seed):
    x = (seed * 2654435761 + 12345) & 0xffffffff
    out = bytearray(n)
    for i in range(n):
        x = (x * 1664525 + 1013904223) & 0xffffffff
        out[i] = x >> 24
    return bytes(out)


_pat = {}


def tobytes(s):
    """Bytes of an input-encoded string."""
    if not s:
        return b""
    if s[0] == "%":
        return bytes.fromhex(s[1:])
    if s[0] == "@":
        n, rest = s[1:].split(":")
        if rest[0] == "x":
            return bytes([int(rest[1:], 16)]) * int(n)
        if s not in _pat:
            _pat[s] = pattern(int(n), int(rest))
        return _pat[s]
    assert s[0] != "#", s
    return s.encode("utf-8")


def enc(b):
    """Normal (projected) form of bytes."""
    if isinstance(b, str):
        b = b.encode("utf-8")
    if len(b) > 64:
        return "#%d:%s" % (len(b), hashlib.sha256(b).hexdigest()[:32])
    plain = all(0x20 <= c <= 0x7e and c not in b'\\"' for c in b) and not (b and b[:1] in b"#%@")
    return b.decode() if plain else "%" + b.hex()


def raw(b):
    """Input form that keeps every byte."""
    if isinstance(b, str):
        b = b.encode("utf-8")
    plain = all(0x20 <= c <= 0x7e and c not in b'\\"' for c in b) and not (b and b[:1] in b"#%@")
    return b.decode() if plain else "%" + b.hex()


def norm(s):
    return enc(tobytes(s))


def pnorm(s):
    return s[:2] + norm(s[2:])


PROT = {"title", "url", "user", "pass", "notes"}
TEXT_E = {"ovr", "tags", "bg", "fg"}
TEXT_G = {"name", "notes", "seq"}
TEXT_M = {"gen", "name", "desc", "user", "color"}


def norm_entry(e):
    r = {}
    for k, v in e.items():
        if k in PROT:
            r[k] = pnorm(v)
        elif k in TEXT_E:
            r[k] = norm(v)
        elif k == "auto":
            r[k] = dict(v, seq=norm(v["seq"]), assoc=[{"w": norm(a["w"]), "s": norm(a["s"])} for a in v["assoc"]])
        elif k == "att":
            r[k] = [dict(a, name=norm(a["name"]), data=pnorm(a["data"])) for a in v]
        elif k == "hist":
            r[k] = [norm_entry(h) for h in v]
        elif k == "fields":
            r[k] = [{"k": norm(f["k"]), "v": pnorm(f["v"])} for f in v]
        else:
            r[k] = v
    return r


def norm_group(g):
    r = {}
    for k, v in g.items():
        if k in TEXT_G:
            r[k] = norm(v)
        elif k == "groups":
            r[k] = [norm_group(c) for c in v]
        elif k == "entries":
            r[k] = [norm_entry(c) for c in v]
        else:
            r[k] = v
    return r


def norm_db(db):
    r = dict(db)
    m = db.get("meta", {"present": "false"})
    if m.get("present", "true") == "true":
        m = dict(m)
        for k in TEXT_M:
            m[k] = norm(m[k])
        m["bins"] = [dict(b, data=pnorm(b["data"])) for b in m["bins"]]
        m["icons"] = [dict(b, data=norm(b["data"])) for b in m["icons"]]
        m["fields"] = [{"k": norm(f["k"]), "v": norm(f["v"])} for f in m["fields"]]
        r["meta"] = m
    r["root"] = norm_group(db["root"])
    return r
