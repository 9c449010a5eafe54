"""Workload generator: databases in the specification's vocabulary, boundary rich."""
import copy, random
from . import enc as E

U32 = ["0", "1", "2", "63", "64", "68", "69", "127", "128", "255", "256", "65535", "65536", "2147483647",
       "2147483648", "4294967295"]
U16 = ["0", "1", "255", "256", "32768", "65535"]
I32 = ["-1", "0", "1", "10", "255", "65536", "2147483647", "-2147483648", "-2"]
I64 = ["-1", "0", "1", "6291456", "2147483648", "4294967296", "9223372036854775807", "-9223372036854775808", "-2"]
# seconds, 0 = none; all representable in KDB and KDBX
TIMES = ["0", "1", "59", "60", "86399", "86400", "951782400", "951868799", "951868800", "1078012800", "1230767999",
         "1230768000", "1409529600", "1456704000", "1456790399", "1483228799", "1483228800", "1582934400",
         "1703980799", "1735689599", "2147483647", "2147483648", "4102444799", "4294967295", "4294967296",
         "1425081600", "32503679999", "10000000000", "253402300799", "1416435552"]
TEXT = ["", "a", "Title", " leading", "trailing ", " ", "   ", "two  spaces", "\t", "\ttab\t", "\n", "line1\nline2\n", "\n\n",
        "cr\r\nlf", "\r", "a\rb", "<tag>&amp;\"quoted\"'", "]]>", "<![CDATA[x]]>", "&#10;&lt;", "&", "--><!--", "<?pi?>",
        "\u00e5\u00e4\u00f6", "\u65e5\u672c\u8a9e", "\U0001f511\U0002a6da\U0010fffd", "\u2028", "\u00a0", "e\u0301", "\ufeffbom",
        "0", "true", "False", "-1", "2999-12-28T22:59:59Z", "None", "%41", "#x", "@x", "\\", "\\n", "\"", "{}", "$",
        "a=b&c=d", "a,b,,c;d;", "\"a,b\"", "a;b , c", "https://example.com/?q=1#frag", "{USERNAME}{TAB}{PASSWORD}{ENTER}", "QUJD", "====", "\x7f",
        "x" * 63, "x" * 64, "x" * 65, "y" * 255, "z" * 256]
CTRL = ["\x01", "a\x1fb", "\x0b"]
KDBTEXT = [t for t in TEXT] + CTRL
BIG = ["@2000:x61", "@16384:x20", "@70000:x7a", "@65536:x41"]
BIN = ["", "%00", "%0000", "%00ff00", "a", "abc", "%ff", "%0d0a", "@15:1", "@16:2", "@17:3", "@63:4", "@64:5", "@65:6", "@100:7",
       "@256:x00", "@1000:8", "%1f8b0800", "%504b0304", "hello world", "@4096:x41", "@16383:9", "@16384:10", "@16385:11"]
BIGBIN = ["@32768:12", "@70000:13", "@131072:x00"]
COLORS = ["", E.raw("#FF0000"), E.raw("#00ff00"), "red", "a b"]
HEXC = "0123456789abcdef"


class Gen:
    def __init__(self, seed, fmt="kdbx", big=False, ws=False):
        self.ws = ws
        self.r = random.Random(seed)
        self.r2 = random.Random("also %s" % seed)
        self.fmt = fmt
        self.big = big
        self.serial = 0
        self.protp = self.r.choice([0.1, 0.3, 0.6, 1.0])

    # ---- scalars
    def ch(self, xs):
        return self.r.choice(xs)

    def hexs(self, n):
        k = self.r.random()
        if k < 0.04:
            return "00" * n
        if k < 0.08:
            return "ff" * n
        return "".join(self.r.choice(HEXC) for _ in range(2 * n))

    def uuid(self):
        self.serial += 1
        return self.hexs(14) + "%04x" % self.serial

    def boolean(self):
        return self.ch(["true", "false"])

    def u32(self):
        return self.ch(U32) if self.r.random() < .6 else str(self.r.getrandbits(self.r.choice([8, 16, 31, 32])))

    def time(self):
        if self.fmt == "kdb":
            return self.kdbtime()
        return self.ch(TIMES) if self.r.random() < .5 else str(self.r.randrange(0, 1 << self.r.choice([31, 32, 33])))

    def kdbtime(self):
        while True:
            t = self.ch(TIMES) if self.r.random() < .5 else str(self.r.randrange(0, 1 << self.r.choice([31, 32, 33])))
            # the hour repeated when the local clock goes back has no unique KDB form
            if int(t) and int(t) < 64000000000 and not _ambiguous(int(t)):
                return t
            if t == "0":
                return t

    def text(self, big=True):
        k = self.r.random()
        if k < .7:
            t = self.ch(TEXT if self.fmt != "kdb" else KDBTEXT)
        elif k < .95 or not (big and self.big):
            n = self.ch([1, 2, 3, 5, 8, 13, 31, 32, 33])
            t = "".join(self.ch("abcXYZ019 -_<>&'\"/\\\u00e9\u4e2d\t") for _ in range(n))
        else:
            t = self.ch(BIG)
            return t if self.ws or self.fmt == "kdb" or ":x20" not in t else "@70000:x62"
        return E.raw(self.trim(t))

    def trim(self, t):
        """Unprotected KDBX texts with white space at the ends are a known finding and have runs of their own."""
        return t if self.ws or self.fmt == "kdb" else t.strip(" \t\r\n")

    def name(self):
        self.serial += 1
        return E.raw("n%d" % self.serial)

    def prot(self, v, p=None):
        if self.fmt == "kdb":
            return "U:" + v
        return ("P:" if self.r.random() < (self.protp if p is None else p) else "U:") + v

    def ptext(self, p=None):
        v = self.prot("", p)
        if v == "P:":
            ws, self.ws = self.ws, True
            v += self.text()
            self.ws = ws
            return v
        return v + self.text()

    def binary(self):
        k = self.r.random()
        if k < .6:
            return self.ch(BIN)
        if k < .92 or not self.big:
            return "@%d:%d" % (self.r.randrange(0, 300), self.r.randrange(1000))
        return self.ch(BIGBIN)

    # ---- records
    def times(self, d):
        for k in ("ct", "mt", "at", "et"):
            d[k] = self.time()
        d["lt"] = self.time() if self.fmt != "kdb" else "0"

    def entry(self, ctx, depth=0):
        kdb = self.fmt == "kdb"
        e = {"uuid": self.uuid() if depth == 0 or self.r.random() < .5 else ctx["euuid"], "icon": self.u32()}
        ctx = dict(ctx, euuid=e["uuid"])
        e["cicon"] = "i:%d" % self.r.randrange(ctx["nicons"]) if ctx["nicons"] and self.r.random() < .4 else "none"
        for k in ("title", "url", "user", "notes"):
            e[k] = self.ptext()
        e["pass"] = self.ptext(None if self.r.random() < .3 else 1.0)
        if kdb:
            for k in ("ovr", "tags", "bg", "fg"):
                e[k] = ""
            e["expires"], e["usage"] = "false", "0"
            e["auto"] = {"en": "false", "ob": "0", "seq": "", "assoc": []}
            e["cicon"] = "none"
        else:
            for k in ("ovr", "tags"):
                e[k] = self.text(False)
            e["bg"], e["fg"] = self.ch(COLORS), self.ch(COLORS)
            e["expires"], e["usage"] = self.boolean(), self.u32()
            e["auto"] = {"en": self.boolean(), "ob": self.ch(["0", "1", "2", "255", "4294967295"]),
                         "seq": self.text(False),
                         "assoc": [{"w": self.text(False), "s": self.text(False)}
                                   for _ in range(self.ch([0, 0, 0, 1, 2, 3, 5]))]}
        self.times(e)
        e["att"] = []
        if kdb:
            if self.r.random() < .4:
                nm = self.text(False)
                data = self.binary()
                e["att"].append({"name": nm, "bin": "own", "data": "U:" + data, "compress": "false"})
        else:
            for _ in range(self.ch([0, 0, 0, 1, 1, 2, 3]) if depth < 2 else self.ch([0, 0, 1])):
                if ctx["nbins"] and self.r.random() < .8:
                    b = "b:%d" % self.r.randrange(ctx["nbins"])
                    e["att"].append({"name": self.text(False), "bin": b, "data": ctx["bins"][int(b[2:])]["data"],
                                     "compress": ctx["bins"][int(b[2:])]["compress"]})
                else:
                    e["att"].append({"name": self.text(False), "bin": "own", "data": self.prot(self.binary()),
                                     "compress": "false"})
        e["hist"] = []
        if not kdb and depth < 2:
            for _ in range(self.ch([0, 0, 0, 1, 2, 4]) if depth == 0 else self.ch([0, 0, 0, 0, 1])):
                e["hist"].append(self.entry(ctx, depth + 1))
        e["fields"] = []
        if not kdb:
            for i in range(self.ch([0, 0, 1, 2, 3, 6])):
                k = self.text(False) if self.r.random() < .5 else self.name()
                if E.tobytes(k).decode("utf-8", "replace") in ("Title", "URL", "UserName", "Password", "Notes"):
                    k = self.name()
                if e["fields"] and self.r.random() < .15:    # keys may repeat
                    k = self.ch(e["fields"])["k"]
                e["fields"].append({"k": k, "v": self.ptext()})
        if self.r2.random() < .06:                      # a bookkeeping entry of KeePass 1: content like any other
            e.update(title=self.prot("Meta-Info"), user=self.prot("SYSTEM"), url=self.prot("$"), notes=self.prot("notes"))
            e["att"] = [{"name": "bin-stream", "bin": "own", "data": self.prot("%0001ff"), "compress": "false"}] + e["att"][1:]
        elif self.r2.random() < .05 and not kdb:        # keys that differ from the standard ones in a letter
            e["fields"].insert(0, {"k": self.r2.choice(["title", "TITLE", "Title2", "Url", "Username", "User Name", "password", "notes", "Note"]), "v": self.prot("x")})
        return e

    def group(self, ctx, path, depth, budget):
        kdb = self.fmt == "kdb"
        g = {"uuid": self.uuid(), "icon": self.u32(), "name": self.text(), "notes": "" if kdb else self.text()}
        g["cicon"] = "i:%d" % self.r.randrange(ctx["nicons"]) if ctx["nicons"] and self.r.random() < .3 else "none"
        self.times(g)
        g["flags"] = self.ch(U16) if kdb else "0"
        g["expires"] = "false" if kdb else self.boolean()
        g["expanded"] = "false" if kdb else self.boolean()
        g["usage"] = "0" if kdb else self.u32()
        g["seq"] = "" if kdb else self.text(False)
        g["autotype"] = "false" if kdb else self.boolean()
        g["search"] = "false" if kdb else self.boolean()
        ne = 0 if (kdb and path == "") else min(self.ch([0, 1, 1, 2, 3, 5]), budget[0])
        budget[0] -= ne
        g["entries"] = [self.entry(ctx) for _ in range(ne)]
        ctx["paths"].append(path)
        g["last"] = "none"
        if not kdb and ne and self.r.random() < .5:
            g["last"] = "e:%s/%d" % (path, self.r.randrange(ne))
        g["groups"] = []
        ng = self.ch(ctx["fan"]) if depth < ctx["maxdepth"] else 0
        if path == "" and ng == 0 and self.r.random() < .8:
            ng = 1
        for i in range(ng):
            if budget[1] <= 0:
                break
            budget[1] -= 1
            g["groups"].append(self.group(ctx, ("%s.%d" % (path, i)) if path else str(i), depth + 1, budget))
        return g

    def meta(self, ctx):
        m = {"present": "true", "gen": E.raw("KeePass") if self.r.random() < .3 else self.text(False), "name": self.text(False), "namet": self.time(),
             "desc": self.text(False), "desct": self.time(), "user": self.text(False), "usert": self.time(),
             "mhd": self.u32(), "color": self.ch(COLORS), "mkc": self.time(), "mkcr": self.ch(I64),
             "mkcf": self.ch(I64),
             "mp": {k: self.boolean() for k in ("title", "user", "pass", "url", "notes")},
             "rbt": self.time(), "tmplt": self.time(), "hmi": self.ch(I32), "hms": self.ch(I64),
             "bins": ctx["bins"], "icons": ctx["icons"],
             "fields": [{"k": self.name() if self.r.random() < .7 else (self.text(False) or "k"), "v": self.text(False)}
                        for _ in range(self.ch([0, 0, 1, 2, 4]))]}
        return m

    def shape(self):
        k = self.r.random()
        if k < .15:
            return dict(maxdepth=0, fan=[0])
        if k < .3:
            return dict(maxdepth=25, fan=[1, 1, 1, 2])
        if k < .5:
            return dict(maxdepth=1, fan=[0, 3, 8])
        return dict(maxdepth=5, fan=[0, 0, 1, 2, 3])

    def db(self, ngroups=12, nentries=12, nbins=None):
        kdb = self.fmt == "kdb"
        ctx = dict(self.shape(), paths=[], bins=[], icons=[], nbins=0, nicons=0)
        if not kdb:
            nb = self.ch([0, 1, 2, 3, 12]) if nbins is None else nbins
            for _ in range(nb):
                p = self.r.random() < .35
                ctx["bins"].append({"data": ("P:" if p else "U:") + self.binary(),
                                    "compress": "false" if p else self.boolean()})
            ni = self.ch([0, 0, 1, 2, 3])
            for _ in range(ni):
                ctx["icons"].append({"uuid": self.uuid(), "data": self.ch([b for b in BIN if b])})
            ctx["nbins"], ctx["nicons"] = len(ctx["bins"]), ni
        budget = [nentries, ngroups]
        root = self.group(ctx, "", 0, budget)
        d = {"cipher": "aes" if not kdb else self.ch(["aes", "twofish"]),
             "mseed": self.hexs(16 if kdb else self.ch([16, 32, 32, 32, 1, 64])),
             "iv": self.hexs(16), "tseed": self.hexs(32),
             "rkey": self.hexs(32) if not kdb else "00" * 32,
             "rounds": self.ch(["0", "1", "2", "3", "10", "100"]),
             "compress": "false" if kdb else self.boolean(),
             "root": root}
        if kdb:
            for k, v in dict(uuid=self.uuid(), icon="0", name="", ct="0", mt="0", at="0", et="0", flags="0").items():
                root[k] = v
            d["meta"] = {"present": "false"}
        else:
            m = self.meta(ctx)

            def gref():
                return "g:" + self.ch(ctx["paths"])
            m["rb"] = gref() if self.r.random() < .6 else "none"
            m["tmpl"] = gref() if self.r.random() < .7 else "none"
            m["lsg"] = gref() if self.r.random() < .7 else "none"
            m["lvg"] = gref() if self.r.random() < .7 else "none"
            d["meta"] = m
        if self.r2.random() < .2:
            self.alike(root)
        return d

    def alike(self, root):
        """Groups and entries that differ in little more than their place."""
        gs, es = [], []

        def walk(g):
            for x in g["groups"]:
                gs.append(x)
                walk(x)
            es.extend(g["entries"])
        walk(root)
        own = ("uuid", "groups", "entries", "last")
        if gs and self.r2.random() < .8:
            a = self.r2.choice(gs)
            for g in gs:
                if self.r2.random() < .7:
                    g.update({k: v for k, v in a.items() if k not in own})
        if es and self.r2.random() < .6:
            a = self.r2.choice(es)
            for e in es:
                if self.r2.random() < .5:
                    e.update(copy.deepcopy({k: v for k, v in a.items() if k != "uuid" or self.fmt == "kdb" and self.r2.random() < .3}))


def _ambiguous(t):
    """Is t within the CET/CEST hour that occurs twice? (European rule, last Sunday of October)"""
    import calendar, time
    y = time.gmtime(t).tm_year
    last = max(w[6] for w in calendar.monthcalendar(y, 10) if w[6])
    change = calendar.timegm((y, 10, last, 1, 0, 0))
    return abs(t - change) <= 3600


def empty_entry(uuid):
    return {"uuid": uuid, "icon": "0", "cicon": "none", "title": "U:", "url": "U:", "user": "U:", "pass": "U:",
            "notes": "U:", "ovr": "", "tags": "", "bg": "", "fg": "", "ct": "0", "mt": "0", "at": "0", "et": "0",
            "lt": "0", "expires": "false", "usage": "0",
            "auto": {"en": "false", "ob": "0", "seq": "", "assoc": []}, "att": [], "hist": [], "fields": []}


def empty_group(uuid):
    return {"uuid": uuid, "icon": "0", "cicon": "none", "name": "", "notes": "", "ct": "0", "mt": "0", "at": "0",
            "et": "0", "lt": "0", "flags": "0", "expires": "false", "expanded": "false", "usage": "0", "seq": "",
            "autotype": "false", "search": "false", "last": "none", "groups": [], "entries": []}


def empty_meta():
    return {"present": "true", "gen": "", "name": "", "namet": "0", "desc": "", "desct": "0", "user": "", "usert": "0",
            "mhd": "365", "color": "", "mkc": "0", "mkcr": "-1", "mkcf": "-1",
            "mp": {"title": "false", "user": "false", "pass": "true", "url": "false", "notes": "false"},
            "rb": "none", "rbt": "0", "tmpl": "none", "tmplt": "0", "hmi": "-1", "hms": "-1", "lsg": "none",
            "lvg": "none", "bins": [], "icons": [], "fields": []}


def empty_db(uuid="00" * 15 + "01"):
    return {"cipher": "aes", "mseed": "11" * 32, "iv": "22" * 16, "tseed": "33" * 32, "rkey": "44" * 32, "rounds": "1",
            "compress": "false", "root": empty_group(uuid), "meta": empty_meta()}
