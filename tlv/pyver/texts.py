"""Tests of unknown texts: regular expressions by contract, and what the tests of one text say of each other.

re.match and re.fullmatch of an unknown text give an unknown outcome, a predicate of the text named
by the language of the pattern; `check` and `settled` add, for every text that is tested, exactly the
combinations of outcomes that some text has (regex.outcomes)."""
import functools

import z3

from . import regex
from .sem import Refuted
from .values import *  # noqa: F401,F403

STR, B = z3.StringSort(), z3.BoolSort()
LANGS = {}


def within(language, t):
    """z3: the text t is of the language"""
    f = z3.Function(f"is of language {language.n}", STR, B)
    LANGS[f.name()] = language
    return f(t)


def matched(pattern, t, full=False):
    return within((regex.fullmatch if full else regex.match)(pattern), t)


def tests(cs):
    """{text: {test: language}} of the tests in the constraints"""
    out, seen, todo = {}, set(), list(cs)
    while todo:
        c = todo.pop()
        if c.get_id() in seen or not z3.is_app(c):
            if z3.is_quantifier(c):
                continue
            if not z3.is_app(c):
                continue
            continue
        seen.add(c.get_id())
        todo += c.children()
        k, a = c.decl().kind(), c.children()
        if k == z3.Z3_OP_SEQ_PREFIX and z3.is_string_value(a[0]):
            out.setdefault(a[1], {})[c] = regex.starts(value(a[0]))
        elif k == z3.Z3_OP_SEQ_SUFFIX and z3.is_string_value(a[0]):
            out.setdefault(a[1], {})[c] = regex.ends(value(a[0]))
        elif k == z3.Z3_OP_EQ and a[0].sort() == STR and (z3.is_string_value(a[0]) or z3.is_string_value(a[1])):
            v, t = (a[0], a[1]) if z3.is_string_value(a[0]) else (a[1], a[0])
            if not z3.is_string_value(t):
                out.setdefault(t, {})[c] = regex.text(value(v))
        elif k == z3.Z3_OP_SEQ_CONTAINS and z3.is_string_value(a[1]):
            out.setdefault(a[0], {})[c] = regex.cat(regex.ALL, regex.cat(regex.text(value(a[1])), regex.ALL))
        elif c.decl().name() in LANGS:
            out.setdefault(a[0], {})[c] = LANGS[c.decl().name()]
    return out


def value(s):
    """the text of a z3 string constant"""
    import re

    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m[1], 16)), s.as_string())


@functools.lru_cache(None)
def _outcomes(langs, inside):
    return regex.outcomes(langs, inside)


def abstract(cs, inside=regex.ALL):
    """the constraints with each test of a text a symbol of its own, and the combinations there are; {text: (symbols, outcomes)}"""
    ts = tests(cs)
    subs, facts, known = [], [], {}
    for t, d in ts.items():
        items = sorted(d.items(), key=lambda x: x[1].n)
        found = _outcomes(tuple(l for _, l in items), inside(t) if callable(inside) else inside)
        syms = []
        for c, l in items:
            b = z3.Bool(f"test {t} {l.n}")
            subs.append((c, b))
            syms.append(b)
        facts.append(z3.Or(*[z3.And(*[b if x else z3.Not(b) for b, x in zip(syms, o)]) for o in found]))
        known[t] = (syms, found)
    return [z3.substitute(c, *subs) if subs else c for c in cs] + facts, known


def settled(known, c, inside=regex.ALL):
    """True if c follows; else the texts of a counterexample"""
    cs, tx = abstract([x for x in known] + [z3.Not(c)], inside)
    r, m = solve(cs, 10000)
    if r == z3.unsat:
        return True
    if r == z3.unknown:
        raise Unsupported("unknown whether the tests of a text agree")
    out = {}
    for t, (syms, found) in tx.items():
        o = tuple(bool(z3.is_true(m.eval(b, model_completion=True))) for b in syms)
        out[str(t)] = found[o]
    return out


def check(ip, c, what, inside=regex.ALL):
    r = settled(ip.ctx.constraints(), c if not isinstance(c, bool) else z3.BoolVal(c), inside)
    if r is not True:
        raise Refuted(f"{what}: {r}")


def possible(ip, inside=regex.ALL):
    """False if no text takes this path"""
    return settled(ip.ctx.constraints(), z3.BoolVal(False), inside) is not True


class Match:
    """what re.match gives for an unknown text: its groups are texts by contract"""

    pyver_symbolic = True

    def __init__(self, pattern, t, optional):
        self.pattern, self.t, self.optional = pattern, t, optional

    def group(self, name):
        import re

        i = name if isinstance(name, int) else re.compile(self.pattern).groupindex[name]
        f = z3.Function(f"group {i} of {self.pattern}", STR, STR)(self.t)
        v = Rope([Atom(f, what="group")])
        if i in self.optional:
            has = z3.Function(f"group {i} of {self.pattern} takes part", STR, B)(self.t)
            return OneOf(f"group {i}", [(has, v), (z3.Not(has), None)])
        return v

    def sym_truth(self, ip):
        return True

    def sym_eq(self, ip, o):
        return False

    def sym_getitem(self, ip, k):
        return self.group(k)

    def sym_getattr(self, ip, name):
        return MatchMethod(self, name)


class MatchMethod:
    pyver_symbolic = True

    def __init__(self, m, name):
        self.m, self.name = m, name

    def sym_call(self, ip, args, kwargs):
        import re

        if self.name == "groupdict" and not args:
            return ip.born({k: self.m.group(k) for k in re.compile(self.m.pattern).groupindex})
        if self.name == "group" and len(args) == 1:
            return self.m.group(args[0])
        if self.name == "groups" and not args:
            return tuple(self.m.group(i + 1) for i in range(re.compile(self.m.pattern).groups))
        raise Unsupported(f"{self.name} of a match")


def optional_groups(pattern):
    """the groups that need not take part in a match"""
    import re._constants as K
    import re._parser as P

    out = set()

    def go(items, opt):
        for op, av in items:
            if op is K.SUBPATTERN:
                if av[0] is not None and opt:
                    out.add(av[0])
                go(av[3], opt)
            elif op is K.BRANCH:
                for b in av[1]:
                    go(b, True)
            elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
                go(av[2], opt or av[0] == 0)
            elif op in (K.ASSERT, K.ASSERT_NOT, K.GROUPREF_EXISTS):
                raise Unsupported("assertions in a regular expression")

    go(P.parse(pattern), False)
    return out


def re_match(full):
    def f(ip, pattern, t, flags=0):
        t = ip.resolve(t)
        if isinstance(t, str):
            import re

            return (re.fullmatch if full else re.match)(pattern, t, flags)
        if not isinstance(pattern, str) or flags:
            raise Unsupported("a symbolic regular expression")
        z = zs(t)
        if not ip.ctx.branch(matched(pattern, z, full)):
            return None
        return Match(pattern, z, optional_groups(pattern))
    return f


CONTRACTS = {"re.match": re_match(False), "re.fullmatch": re_match(True)}
