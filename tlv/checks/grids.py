"""The programs of the grids of C01, C02, C03 and C07: every form of expression in every context"""
import random

from .. import forms
from . import c01, c02, c03, c07

MODS = {"c01": c01, "c02": c02, "c03": c03, "c07": c07}


def program(arg):
    """the program of one case, not run"""
    mod, fn, a = arg
    m = MODS[mod]
    old = m.run_prog
    m.run_prog = lambda p, *_: p
    try:
        return getattr(m, fn)(a)
    finally:
        m.run_prog = old


def cases(c, quick=1500):
    out = [("c01", "operand", a) for a in c01.operands(c)]
    n = len(forms.World().ints()), len(forms.World().bytes())
    out += [("c02", "conditions", (w, i, c.seed)) for w in c02.COND for i in range(n[0])]
    out += [("c03", "bound", (t, i, 0, c.seed)) for t, m in zip(("int", "bytes"), n) for i in range(m)]
    out += [("c07", "used", (k, i, j, c.seed)) for k, m, us in (("int", n[0], c07.INT_USES), ("bytes", n[1], c07.BYTES_USES)) for i in range(m) for j in range(len(us))]
    random.Random(c.seed).shuffle(out)
    return out[: c.scale(quick, len(out))]
