"""C03: what a well-formed KDB file means."""
from .. import codec, kdbwork, rec, session
from ..check import Case


def given(files):
    """files: functions of the key parts returning bytes."""
    def f(r):
        r.key("k", pw=b"secret")
        for i, raw in enumerate(files):
            r.give("f%d" % i, "k", "kdb", raw(r.k["k"]))
            r.imp("f%d" % i, "k", "h", "kdb")
    return f


def run(c):
    shapes = kdbwork.enumerated(c, *c.pick((4, 2, 1), (5, 2, 1)))
    if not c.quick:
        shapes += kdbwork.enumerated(c, 6, 1, 1)
    B = 20
    cases = [Case("enum-%d" % i, given([lambda k, b=b: kdbwork.simple_file(b, k) for b in shapes[i:i + B]]))
             for i in range(0, len(shapes), B)]
    session.validate(c, cases, "every small sequence of group levels and entry owners")
    n = c.pick(120, 2500)
    cases = []
    for i in range(n):
        s = c.seed * 100000 + i
        cases.append(Case("random-%d" % s, given([lambda k, s=s, j=j: kdbwork.KdbFiles(s * 10 + j).file(k) for j in range(5)]), locale="grouped" if s % 10 == 9 else ""))
    session.validate(c, cases, "random well-formed files")
    cases = []
    for i in range(c.pick(12, 200)):
        s = c.seed * 100000 + i
        cases.append(Case("fault-%d" % s, given([lambda k, s=s, f=f: kdbwork.KdbFiles(s * 10).file(k, f) for f in kdbwork.FAULTS])))
    session.validate(c, cases, "files with one fault")
    cases = [Case("each-%s" % n, given([lambda k, x=x, i=i: codec.kdb_write(k, *x, ("aes", "twofish")[i % 2]) for i, x in enumerate(xs)]))
             for n, xs in kdbwork.sweep(c.pick(2, 1))]
    session.validate(c, cases, "every field left out, moved and with every kind of value")
    cases = [Case("deep-%d" % n, given([lambda k, n=n: kdbwork.deep_file(k, n)]), flat=True) for n in c.pick([129, 257, 600], [129, 257, 600, 1000])]
    session.validate(c, cases, "deep files")
