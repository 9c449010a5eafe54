"""C14: operations depend on their arguments only and leave them as they were."""
import random
from .. import both, docs, gen, session, work
from ..check import Case


def reused(seed, n):
    """One library object meets documents that share identifiers, in random order, among failures and exports."""
    def f(r):
        rnd = random.Random(seed)
        both.keyset(r)
        vs = both.variants(seed)
        fs = [("%s-%d" % (name, j), fn) for j, v in enumerate((vs, both.variants(seed + 1))) for name, fn in v]
        for name, fn in fs:
            r.give(name, "k1", "kdbx", fn(r.k["k1"]))
        r.new("a", both.db(seed))
        for i in range(n):
            k = rnd.random()
            o = rnd.choice(["o1", "o1", "o2", "_"])
            if k < .7:
                r.imp(rnd.choice(fs)[0], rnd.choice(["k1"] * 5 + ["k2"]), "h%d" % rnd.randrange(2), "kdbx", o=o)
            elif k < .8:
                r.imp(rnd.choice(fs)[0], "k1", "h0", "kdb", o=o)
            elif k < .85:
                r.imp("absent", "k1", "h0", "kdbx", o=o)
            else:
                h = rnd.choice([e["h"] for e in r.ev if e["e"] in ("new", "import") and e.get("out", "ok") == "ok"])
                r.export(h, "k1", "out", "kdbx", o=o)
                r.imp("out", "k1", "h1", "kdbx", o=rnd.choice(["o1", "_"]))
    return f


def again(seed):
    """What a database is when read back: a second and a third time the same file content."""
    def f(r):
        both.keyset(r)
        r.new("a", both.db(seed, 8, 8))
        for fmt in ("kdbx", "kdb"):
            h = "a"
            for i in range(4):
                r.export(h, "k2", fmt, fmt, o="o1")
                r.export(h, "k2", fmt, fmt, o="o1")
                r.read(fmt, "k2", fmt)
                h = "%s%d" % (fmt, i)
                r.imp(fmt, "k2", h, fmt, o="o1")
                r.show("a")
    return f


def shrink(seed):
    """A big file is replaced by a small one and the other way round."""
    def f(r):
        both.keyset(r)
        for fmt in ("kdbx", "kdb"):
            for n in (40, 0, 12, 1):
                r.new("a", both.db(seed + n, n, n))
                r.export("a", "k1", "f", fmt, o="o1")
                r.read("f", "k1", fmt)
                r.imp("f", "k1", "b", fmt, o="o1")
                r.imp("f", "k2", "b", fmt, o="o1")
                r.imp("f", "k1", "b", "kdb" if fmt == "kdbx" else "kdbx", o="o1")
    return f


def after(kind, n, seed):
    """One object that has met very many things of a kind meets few of them, and documents that lack them."""
    def f(r):
        both.keyset(r)
        big, small = work.many(kind, n), work.many(kind, 12)
        small["root"]["name"] = "small"
        m = small["meta"]
        for i, x in enumerate(m["bins"] + m["icons"]):
            x["data"] = x["data"][:2] + "small %d" % i if x in m["bins"] else "small %d" % i
        for e in small["root"]["entries"]:
            for a in e["att"]:
                if a["bin"].startswith("b:"):
                    a["data"] = m["bins"][int(a["bin"][2:])]["data"]
        r.new("a", big)
        r.new("b", small)
        r.export("b", "k1", "small", "kdbx", o="_")
        r.export("a", "k1", "big", "kdbx", o="o1")
        r.export("b", "k1", "small2", "kdbx", o="o1")
        r.imp("big", "k1", "c", "kdbx", o="o1")
        r.imp("small", "k1", "d", "kdbx", o="o1")
        r.imp("small2", "k1", "e", "kdbx", o="o1")
        r.imp("big", "k1", "c", "kdbx", o="o1")
        for name, fn in both.variants(seed):
            r.give(name, "k1", "kdbx", fn(r.k["k1"]))
            r.imp(name, "k1", "v", "kdbx", o="o1")
        r.export("d", "k1", "small3", "kdbx", o="o1")
        r.imp("small3", "k1", "f", "kdbx", o="_")
        r.show("a")
    return f


def large(seed, size):
    """Saving changes nothing of a database that holds much, whatever the sizes and choices of its parts."""
    def f(r):
        both.keyset(r)
        rnd = random.Random(seed)
        d = both.db(seed, 3, 3)
        d["compress"] = rnd.choice(["true", "false"])
        e = gen.empty_entry("ab" * 16)
        e["notes"] = "U:Very" + " much to say." * (size // 13)
        d["root"]["entries"].append(e)
        for prot in "UP":
            for comp in ("true", "false") if prot == "U" else ("false",):
                b = {"data": prot + ":" + "".join(rnd.choice("abcdefgh ") for _ in range(97)) * (size // 97), "compress": comp}
                e["att"].append({"name": "big%d" % len(d["meta"]["bins"]), "bin": "b:%d" % len(d["meta"]["bins"]), "data": b["data"], "compress": comp})
                d["meta"]["bins"].append(b)
        d["meta"]["icons"].append({"uuid": "cd" * 16, "data": "icon" * (size // 4)})
        r.new("a", d)
        k = dict(gen.empty_db(), mseed="11" * 16)
        x = gen.empty_entry("ab" * 16)
        x["notes"] = e["notes"]
        x["att"] = [{"name": "big", "bin": "own", "data": "U:" + " large" * (size // 6), "compress": "false"}]
        g = gen.empty_group("%032x" % 5)
        g["entries"].append(x)
        k["root"]["groups"].append(g)
        r.new("b", k)
        for o in ("o1", "_", "o1"):
            r.export("a", "k1", "f", "kdbx", o=o)
            r.show("a")
            r.imp("f", "k1", "c", "kdbx", o="o1")
            r.export("b", "k1", "g", "kdb", o=o)
            r.show("b")
            r.imp("g", "k1", "d", "kdb", o=o)
        r.export("c", "k2", "f", "kdbx", o="o1")
        r.show("c")
        r.show("a")
    return f


def run(c):
    seqs = both.sequences(c, c.pick(120, 1500), c.pick(14, 30))
    session.validate(c, [Case("model-%d" % i, both.replay(o, c.seed * 1000 + i)) for i, o in enumerate(seqs)],
                     "operation sequences of the model")
    session.validate(c, [Case("reused-%d" % i, reused(c.seed * 1000 + i, c.pick(14, 40))) for i in range(c.pick(40, 400))],
                     "one object for documents sharing identifiers")
    session.validate(c, [Case("again-%d" % i, again(c.seed * 1000 + i)) for i in range(c.pick(10, 100))], "read back and saved again")
    session.validate(c, [Case("shrink-%d" % i, shrink(c.seed * 1000 + i)) for i in range(c.pick(6, 40))], "replaced files")
    session.validate(c, [Case("after-%s-%d" % (k, n), after(k, n, c.seed * 1000 + n)) for k in work.MANY for n in c.pick([270], [17, 270, 1100])],
                     "few things after many")

    session.validate(c, [Case("large-%d" % n, large(c.seed * 1000 + n, n), timeout=300) for n in c.pick([1000, 66000, 140000], [1000, 66000, 140000, 1200000])],
                     "large parts")
