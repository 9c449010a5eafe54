"""Databases with a purpose, and the enumerated ones of the specification."""
import copy, json
from . import enc as E, gen


def deep(n, kdb=False, hist=0, entries=3):
    """One chain of n groups with an entry every now and then, the last entry with hist nested history versions."""
    db = gen.empty_db()
    if kdb:
        db.update(meta={"present": "false"}, mseed="55" * 16, rkey="00" * 32)
    g = db["root"]
    for i in range(n):
        c = gen.empty_group("%032x" % (i + 2))
        c["name"] = "level %d" % i
        if i % max(1, n // entries) == n // entries - 1:
            e = gen.empty_entry("%032x" % (100000 + i))
            e["title"] = "U:in %d" % i
            c["entries"].append(e)
        g["groups"].append(c)
        if i % 97 == 5:
            s = gen.empty_group("%032x" % (50000 + i))
            s["name"] = "beside %d" % i
            g["groups"].append(s)
        g = c
    e = gen.empty_entry("ff" * 16)
    g["entries"].append(e)
    for i in range(hist):
        h = gen.empty_entry("ff" * 16)
        h["title"] = "U:version %d" % i
        e["hist"].append(h)
        e = h
    return db


def wide(n):
    db = gen.empty_db()
    for i in range(n):
        e = gen.empty_entry("%032x" % (i + 5))
        e["title"] = "U:entry %d" % i
        e["pass"] = "P:%d" % (i * 7919)
        db["root"]["entries"].append(e)
    return db


def sized(field, n, compress, seed=0):
    """One value of n bytes: as notes, protected notes, stored or attached binary."""
    db = gen.empty_db()
    db["compress"] = compress
    e = gen.empty_entry("ab" * 16)
    db["root"]["entries"].append(e)
    data = "@%d:%d" % (n, seed)
    if field == "notes":
        e["notes"] = "U:@%d:x%02x" % (n, 0x61 + seed % 20)
    elif field == "pnotes":
        e["notes"] = "P:@%d:x%02x" % (n, 0x61 + seed % 20)
    elif field == "own":
        e["att"] = [{"name": "own", "bin": "own", "data": "U:" + data, "compress": "false"}]
    elif field == "pown":
        e["att"] = [{"name": "own", "bin": "own", "data": "P:" + data, "compress": "false"}]
    else:
        p = "P:" if field == "pbin" else "U:"
        z = "true" if field == "zbin" else "false"
        db["meta"]["bins"] = [{"data": p + data, "compress": z}, {"data": "U:after", "compress": "false"}]
        e["att"] = [{"name": "stored", "bin": "b:0", "data": p + data, "compress": z}]
    return db


SPACED = [" a", "a ", "  a  b  ", " ", "   ", "%0a", "%0d0a", "%09c3a5", "%c3a50a", "%0ac3a50d0a", "%2009c3a52009"]


def spaced(place, text):
    """A database with white space at the ends of an unprotected text."""
    db = gen.empty_db()
    e = gen.empty_entry("ab" * 16)
    db["root"]["entries"].append(e)
    if place in ("title", "url", "user", "pass", "notes"):
        e[place] = "U:" + text
    elif place in ("ovr", "tags", "bg", "fg"):
        e[place] = text
    elif place == "seq":
        e["auto"]["seq"] = text
    elif place == "assoc":
        e["auto"]["assoc"] = [{"w": text, "s": "x"}, {"w": "y", "s": text}]
    elif place == "att":
        e["att"] = [{"name": text, "bin": "own", "data": "U:x", "compress": "false"}]
    elif place == "key":
        e["fields"] = [{"k": "%78" + text[1:] if text[:1] == "%" else "x" + text, "v": "U:v"}]
    elif place == "value":
        e["fields"] = [{"k": "k", "v": "U:" + text}]
    elif place in ("gname", "gnotes", "gseq"):
        db["root"][place[1:]] = text
    else:
        db["meta"][place[1:]] = text
    return db


SPACED_AT = ["title", "url", "user", "pass", "notes", "ovr", "tags", "bg", "fg", "seq", "assoc", "att", "value", "gname", "gnotes",
             "gseq", "mgen", "mname", "mdesc", "muser", "mcolor"]


def enumerated(c, edits=1, simulate=0):
    """The databases of spec/KdbxGen, the model being checked on the way."""
    cfg = "CONSTANTS MaxEdits = %d TrimText = FALSE\nINIT Init\nNEXT Next\nINVARIANTS RoundTrip Saves Stable Emit\n" % edits
    extra = ["-simulate", "num=%d" % simulate, "-depth", str(edits + 1), "-seed", str(c.seed)] if simulate else []
    what = "small databases: reading what is written for them gives what the format can hold"
    out, seen = [], set()
    for l in c.model("KdbxGen", cfg, what, env={"EMIT": "1"}, extra=extra, sim=bool(simulate)):
        if l.startswith("@DB ") and l not in seen:
            seen.add(l)
            out.append(json.loads(l[4:]))
    return sorted(out, key=lambda d: json.dumps(d, sort_keys=True))


MANY = ["bins", "icons", "assoc", "att", "hist", "fields", "mfields", "groups", "entries", "equal"]


def many(kind, n):
    """A database whose list of the kind has n elements, the last ones referred to."""
    db = gen.empty_db()
    db["compress"] = "true" if n % 2 else "false"
    e = gen.empty_entry("ab" * 16)
    db["root"]["entries"].append(e)
    m = db["meta"]
    if kind == "bins":
        m["bins"] = [{"data": ("P:" if i % 3 == 0 else "U:") + "bin %d" % i, "compress": "true" if i % 3 == 1 else "false"} for i in range(n)]
        e["att"] = [{"name": "a%d" % i, "bin": "b:%d" % i, "data": m["bins"][i]["data"], "compress": m["bins"][i]["compress"]} for i in range(n)]
    elif kind == "equal":   # binaries of the same content are still different objects
        m["bins"] = [{"data": "U:same", "compress": "true" if i % 2 else "false"} for i in range(n)]
        e["att"] = [{"name": "a%d" % i, "bin": "b:%d" % i, "data": "U:same", "compress": m["bins"][i]["compress"]} for i in range(n)]
        e["att"].append({"name": "own", "bin": "own", "data": "U:same", "compress": "false"})
    elif kind == "icons":
        m["icons"] = [{"uuid": "%032x" % (i * 7 + 1), "data": "icon %d" % i} for i in range(n)]
        e["cicon"] = "i:%d" % (n - 1)
        db["root"]["cicon"] = "i:%d" % (n // 2)
    elif kind == "assoc":
        e["auto"]["assoc"] = [{"w": "w%d" % i, "s": "s%d" % (i * i)} for i in range(n)]
    elif kind == "att":
        e["att"] = [{"name": "a%d" % (i % 7), "bin": "own", "data": ("P:" if i % 5 == 0 else "U:") + "data %d" % i, "compress": "false"} for i in range(n)]
    elif kind == "hist":
        for i in range(n):
            h = gen.empty_entry("ab" * 16 if i % 2 else "%032x" % (i + 9))
            h["title"] = "U:version %d" % i
            h["pass"] = "P:%d" % i
            e["hist"].append(h)
    elif kind == "fields":
        e["fields"] = [{"k": "k%d" % (i % 50), "v": ("P:" if i % 2 else "U:") + "v%d" % i} for i in range(n)]
    elif kind == "mfields":
        m["fields"] = [{"k": "k%d" % (i % 50), "v": "v%d" % i if i % 4 else ""} for i in range(n)]
    elif kind == "groups":
        for i in range(n):
            g = gen.empty_group("%032x" % (i + 2))
            g["name"] = "g%d" % i
            db["root"]["groups"].append(g)
        m["rb"], m["lsg"], m["lvg"] = "g:%d" % (n - 1), "g:%d" % (n // 2), "g:0"
    else:
        for i in range(n):
            x = gen.empty_entry("%032x" % (i + 5))
            x["title"] = "U:e%d" % i
            db["root"]["entries"].append(x)
        db["root"]["last"] = "e:/%d" % n
    return db


def headers():
    """Header values of unusual sizes and amounts."""
    out = []
    for n in (0, 1, 15, 16, 17, 31, 32, 33, 64, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535):
        db = gen.empty_db()
        db["mseed"] = "".join("%02x" % (i * 37 % 251) for i in range(n))
        out.append(("seed-%d" % n, db))
    for n in (0, 1, 2, 255, 256, 257, 6000, 65535, 65536, 65537, 100000):
        db = gen.empty_db()
        db["rounds"] = str(n)
        out.append(("rounds-%d" % n, db))
    for k, n in (("iv", 16), ("tseed", 32), ("rkey", 32)):
        for x in ("00", "ff", "80"):
            db = gen.empty_db()
            db[k] = x * n
            db["root"]["notes"] = "x"
            db["root"]["entries"].append(dict(gen.empty_entry("cd" * 16), **{"pass": "P:secret"}))
            out.append(("%s-%s" % (k, x), db))
    return out


# ---- one value at a time
def leaves(x, at=()):
    """Places of the plain values inside a record."""
    if isinstance(x, dict):
        for k in x:
            if k not in ("bin", "compress", "last", "cicon", "present", "rb", "tmpl", "lsg", "lvg"):
                yield from leaves(x[k], at + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, at + (i,))
    else:
        yield at, x


def rich(kdb=False):
    """A database with one of everything."""
    d = gen.empty_db()
    e = gen.empty_entry("aa" * 16)
    e.update(title="U:t", url="U:u", user="U:n", notes="U:o", **{"pass": "U:p"})
    e["att"] = [{"name": "n", "bin": "own", "data": "U:d", "compress": "false"}]
    g = gen.empty_group("bb" * 16)
    g["name"] = "g"
    if kdb:
        d.update(meta={"present": "false"}, mseed="55" * 16, rkey="00" * 32)
        inner = gen.empty_group("dd" * 16)
        inner["name"] = "inner"
        inner["entries"] = [copy.deepcopy(e)]
        g["groups"] = [inner, gen.empty_group("ee" * 16)]
        g["entries"] = [e, dict(copy.deepcopy(e), uuid="ac" * 16)]
        d["root"]["groups"] = [g]
        return d
    e["auto"]["assoc"] = [{"w": "w", "s": "s"}]
    e["fields"] = [{"k": "k", "v": "U:v"}, {"k": "l", "v": "P:w"}]
    h = copy.deepcopy(e)
    e["hist"] = [h, dict(copy.deepcopy(h), title="U:old")]
    m = d["meta"]
    m["bins"] = [{"data": "U:b", "compress": "false"}, {"data": "U:c", "compress": "true"}]
    m["icons"] = [{"uuid": "cc" * 16, "data": "i"}]
    m["fields"] = [{"k": "k", "v": "v"}]
    e["att"].append({"name": "m", "bin": "b:1", "data": "U:c", "compress": "true"})
    g["entries"] = [dict(copy.deepcopy(e), uuid="ad" * 16)]
    d["root"]["groups"], d["root"]["entries"] = [g], [e]
    return d


SIGNED = {"hmi": 32, "hms": 64, "mkcr": 64, "mkcf": 64}


def values(at, v, kdb=False):
    k = at[-1]
    if k in ("iv", "mseed", "tseed", "rkey", "cipher", "rounds"):
        return []
    if v in ("true", "false"):
        return ["true", "false"] if not kdb else []
    if k == "uuid":
        return ["00" * 16, "ff" * 16, "00" * 15 + "01", "80" + "00" * 15, "".join("%02x" % (7 * i) for i in range(16))]
    if k == "flags":
        return gen.U16 if kdb else []
    if k in SIGNED:
        b = SIGNED[k] - 1
        return [str(x) for x in (-1 << b, -2, -1, 0, 1, 255, 256, 65536, (1 << 31) - 1, (1 << b) - 1)] + (["2147483648", "4294967296", "-2147483649"] if b > 31 else [])
    if k in ("icon", "usage", "ob", "mhd"):
        return gen.U32 if not kdb or k == "icon" else []
    if k in ("ct", "mt", "at", "et", "lt", "namet", "desct", "usert", "mkc", "rbt", "tmplt"):
        return ["0"] + [t for t in gen.TIMES if t != "0" and not (kdb and (gen._ambiguous(int(t)) or int(t) > 64000000000))] if not kdb or k != "lt" else []
    if k in ("bg", "fg", "color"):
        return gen.COLORS
    if k == "data":
        m = "" if v[:2] not in ("U:", "P:") else "U:"
        return [p + x for p in ([m] if m == "" or kdb else ["U:", "P:"]) for x in gen.BIN[:14] if x or m]
    text = [E.raw(t) for t in (gen.KDBTEXT if kdb else gen.TEXT)]
    if v[:2] in ("U:", "P:"):
        out = ["U:" + t for t in text if kdb or t == E.raw(E.tobytes(t).decode().strip(" \t\r\n"))]
        return out + ([] if kdb else ["P:" + t for t in text])
    if kdb and k in ("ovr", "tags", "seq", "w", "s", "notes"):
        return []
    if k == "k":
        text = [t for t in text if t not in ("", "Title", "URL", "UserName", "Password", "Notes")]
    return [t for t in text if kdb or t == E.raw(E.tobytes(t).decode().strip(" \t\r\n"))]


def sweep(kdb=False, thin=1):
    """(place, databases): every kind of value at every place, all else the same.  thin: every how many of them."""
    base = rich(kdb)
    n = 0
    for at, v in leaves(base):
        if kdb and (at == ("root", at[-1]) or at[0] != "root" or "auto" in at or "hist" in at or "fields" in at):
            continue
        out = []
        for x in values(at, v, kdb):
            n += 1
            if n % thin == 0 or x in ("true", "false", "U:", "P:", ""):
                d = copy.deepcopy(base)
                o = d
                for k in at[:-1]:
                    o = o[k]
                if o.get("bin", "")[:2] == "b:" and at[-1] == "data":
                    continue
                o[at[-1]] = x
                if at[:2] == ("meta", "bins"):      # what refers to it says so
                    for t, e in leaves_entries(d["root"]):
                        for a in e["att"]:
                            if a["bin"] == "b:%d" % at[2]:
                                a["data"] = d["meta"]["bins"][at[2]]["data"]
                                if a["data"][:1] == "P":
                                    d["meta"]["bins"][at[2]]["compress"] = "false"
                                a["compress"] = d["meta"]["bins"][at[2]]["compress"]
                out.append(d)
        if out:
            yield ".".join(map(str, at)), out


def leaves_entries(g):
    for e in g["entries"]:
        yield "", e
        for h in e["hist"]:
            yield "", h
    for x in g["groups"]:
        yield from leaves_entries(x)
