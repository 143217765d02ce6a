"""C03: the values of a return are the parts of its text between the commas outside of brackets and string literals."""
from tealish import nodes

from .chars import Text, zz
from .domain import Refuted, runs
from .interp import fresh
from .maps import Inv, check
from .oc14 import ESC, IN, OUT, ended, state, step_of
from .values import *  # noqa: F401,F403

I, B = z3.IntSort(), z3.BoolSort()
ASSUMPTIONS = ["texts of return values in which a bracket is closed that was not opened are rejected by the grammar however they are split"]


def depth(t):
    """open brackets before each character of a text, those in string literals not counted"""
    f = z3.Function(f"depth in {t.name}", I, I)
    return lambda j: f(z3.simplify(zz(j)))


def depth_step(t, j):
    d, s, c = depth(t), state(t)(j), t.at(z3.simplify(t.lo + zz(j)))
    j = zz(j)
    out = s == OUT
    return z3.And(d(0) == 0, z3.Implies(z3.And(j >= 0, j < t.n), d(j + 1) == d(j) + z3.If(z3.And(out, c == ord("(")), 1, 0) - z3.If(z3.And(out, c == ord(")")), 1, 0)))


def comma(t, j):
    return z3.And(j >= 0, j < t.n, state(t)(j) == OUT, depth(t)(j) == 0, t.at(z3.simplify(t.lo + j)) == ord(","))


def split_values(o):
    """split_return_args: what is before the first such comma, then the values of what is behind it; the whole text if there is none"""
    t = Text.new("values")
    o.unroll = 6
    J = z3.Int("any position")
    names = ("parentheses", "quotes", "escaped")

    def rest(ip, s):
        s = ip.resolve(s)
        if not isinstance(s, Text) or s.name != t.name:
            raise Unsupported(f"split_return_args({s!r})")
        check(ip, s.n < t.n, "the text behind a comma is shorter")
        n = fresh("n_rest")
        ip.ctx.assume(n >= 1)
        lst = SList("values behind the comma", n, lambda i: Opaque("value", attrs={}))
        ip.rest = (s, lst)
        return lst

    def facts(ip, k):
        ip.contracts["split_return_args"] = rest
        ip.k = z3.simplify(zz(k) - 1)
        return [step_of(t, k), depth_step(t, k), step_of(t, k + 1), step_of(t, 0), depth_step(t, 0), step_of(t, J), depth(t)(k) >= 0, depth(t)(k + 1) >= 0, z3.Implies(J <= t.n, depth(t)(J) >= 0)]

    def passed(k):
        return z3.Implies(z3.And(J >= 0, J < k), z3.Not(comma(t, J)))

    def of(ip, fr):
        inv.need(fr, names)
        p, q, e = (ip.resolve(fr.loc[v]) for v in names)
        q, e = (x.e if isinstance(x, SBool) else z3.BoolVal(bool(x)) for x in (q, e))
        return zi(p), q, e

    def lexical(k, q, e):
        return z3.And(z3.Implies(e, q), state(t)(k) == z3.If(e, ESC, z3.If(q, IN, OUT)))

    def chk(ip, fr, k):
        p, q, e = of(ip, fr)
        check(ip, passed(k), "a comma between values is passed by")
        check(ip, lexical(k, q, e), "in a string literal or not")
        check(ip, p == depth(t)(k), "the open brackets")

    def put(ip, fr, k):
        inv.need(fr, names)
        ip.k = k
        q, e = fresh("quotes", B), fresh("escaped", B)
        ip.ctx.assume(z3.And(passed(k), lexical(k, q, e)))
        fr.loc.update(parentheses=SInt(depth(t)(k)), quotes=SBool(q), escaped=SBool(e))
    inv = Inv(put, chk, assume=facts)

    def build(ip):
        ip.rest = None
        v = ip.resolve(ip.call(nodes.split_return_args, [t], {}))
        segs = ip.segs(v)
        if len(segs) == 1 and segs[0][0] == "one":
            x = ip.resolve(segs[0][1])
            if not isinstance(x, Text):
                raise Unsupported(f"the only value is {x!r}")
            w = t.strip(ip)
            check(ip, z3.Or(z3.And(x.lo == t.lo, x.hi == t.hi), z3.And(x.lo == w.lo, x.hi == w.hi)), "the only value is not the whole text")
            check(ip, z3.Not(comma(t, J)), "a text with a comma between values is one value")
            return v
        if len(segs) != 2 or segs[0][0] != "one" or ip.rest is None or segs[1][1] is not ip.rest[1]:
            raise Unsupported(f"the values are {segs}")
        x, y, k = ip.resolve(segs[0][1]), ip.rest[0], ip.k
        check(ip, comma(t, k), "a text is split elsewhere than at a comma between values")
        check(ip, passed(k), "a text is not split at the first comma between values")
        for v, lo, hi, what in ((x, t.lo, t.lo + k, "before"), (y, t.lo + k + 1, t.hi, "behind")):
            if not isinstance(v, Text):
                raise Unsupported(f"a value is {v!r}")
            # but for the white space around it
            w = Text(t.name, t.at, lo, hi)
            same = z3.And(v.lo == w.lo, v.hi == w.hi)
            w = w.strip(ip)
            check(ip, z3.Or(same, z3.And(v.lo == w.lo, v.hi == w.hi), z3.And(v.n == 0, w.n == 0)), f"the text {what} the comma")
        return v
    rs = runs(o, build, loops={("split_return_args", "for"): inv}, base=[t.hi >= 0])
    ended(rs)
    return len(rs)


OBLIGATIONS = [("split_return_args", split_values)]
