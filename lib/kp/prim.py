"""Recorder for the library's layers below the files (ciphers, streams, encodings): events of the small trace specifications."""
import random
from . import check, enc as E, rec

CFG = "INIT Init\nNEXT Next\nINVARIANT Accept\n"


class Prim(rec.Rec):
    def __init__(self, scratch, **kw):
        super().__init__(scratch, **kw)

    def do(self, c, **kw):
        """A driver command whose death is an outcome of its own."""
        r = self.call(c, **kw)
        return r


def recorder(scratch, case):
    return Prim(scratch, **case.kw)


def ints(b):
    return list(b)


def unhex(s):
    return list(bytes.fromhex(s))


def validate(c, module, cases, what, cfg=CFG, **kw):
    if c.only:
        cases = [x for x in cases if str(x.id) == c.only]
    if not cases or c.violations:
        return []
    return c.validate(module, cases, recorder, cfg, what=what, **kw)
