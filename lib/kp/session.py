"""Workloads shared by the checks that run on SessionTrace."""
import functools
from . import check, rec

CFG = 'CONSTANTS Trim = %s TimeZone = "CET"\nINIT Init\nNEXT Next\nINVARIANT Accept\n'
PLAIN = CFG % "FALSE"
TRIM = CFG % "TRUE"


def recorder(scratch, case):
    return rec.Rec(scratch, **case.kw)


def validate(c, cases, what, cfg=PLAIN, **kw):
    if c.only:
        cases = [x for x in cases if str(x.id) == c.only]
    if not cases or c.violations:
        return []
    return c.validate("SessionTrace", cases, recorder, cfg, what=what, **kw)


def with_finding(c, cases, what, fid):
    """Runs that may show the known finding: what the plain specification rejects, the one describing the finding must accept."""
    known = c.known.get(fid)
    if c.only:
        cases = [x for x in cases if str(x.id) == c.only]
    if not cases or c.violations:
        return
    recs = c.record(cases, recorder)
    c.part(what, recs)
    bad = c.accept("SessionTrace", recs, PLAIN)
    if bad and known:
        worse = c.accept("SessionTrace", [b[0] for b in bad], TRIM)
        if len(worse) < len(bad):
            c.finding(known)
        ids = {str(w[0][0].id) for w in worse}
        bad = [b for b in bad if str(b[0][0].id) in ids]
    if bad:
        validate(c, [b[0][0] for b in bad[:6]], what + " (again)")
