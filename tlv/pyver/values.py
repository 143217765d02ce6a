"""Symbolic values and path contexts of the verifier."""
import re

import z3

z3.set_param("model.compact", False)
TIMEOUT = 4000
STATS = {"queries": 0, "seconds": 0.0, "unknown": 0, "again": 0}


class Unsupported(Exception):
    """the verifier cannot handle this construct: the obligation stays undischarged"""


class Infeasible(Exception):
    pass


class PyRaise(Exception):
    """an exception of the interpreted program"""

    def __init__(self, exc):
        super().__init__(repr(exc)[:200])
        self.exc = exc

    @property
    def cls(self):
        return self.exc if isinstance(self.exc, type) else type(self.exc)


def solve(constraints, timeout=TIMEOUT):
    import time

    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*constraints)
    t = time.time()
    r = s.check()
    STATS["queries"] += 1
    STATS["seconds"] += time.time() - t
    if r == z3.unknown:
        STATS["unknown"] += 1
    return r, (s.model() if r == z3.sat else None)


ANSWERS = {}  # of queries up to the numbering of fresh names: a path is evaluated again for each of its branches
TEXTS = {}
FRESH = re.compile(r"!\d+")


def answer(constraints, timeout=TIMEOUT):
    """sat, unsat or unknown, as solve would say"""
    names, seen, text = {}, set(), []
    for c in constraints:
        if c.get_id() not in seen:
            seen.add(c.get_id())
            known = TEXTS.get(c.get_id())
            if known is None:
                known = TEXTS[c.get_id()] = (c, c.sexpr())  # keeping c keeps its number
            text.append(known[1])
    key = FRESH.sub(lambda m: names.setdefault(m.group(), f"!{len(names)}!"), "\n".join(text))
    r = ANSWERS.get(key)
    if r is None or (r[0] == z3.unknown and r[1] < timeout):
        r = ANSWERS[key] = (solve(constraints, timeout)[0], timeout)
    else:
        STATS["again"] += 1
    return r[0]


class Ctx:
    """one path: its decisions so far and the constraints they stand for"""

    def __init__(self, prefix=(), base=()):
        self.prefix = list(prefix)
        self.taken = []
        self.base = list(base)
        self.local = []
        self.alts = []
        self.log = []

    def constraints(self):
        return self.base + self.local

    def assume(self, c):
        if c is True or z3.is_true(c):
            return
        self.local.append(c if not isinstance(c, bool) else z3.BoolVal(c))

    def feasible(self, *extra):
        return answer(self.constraints() + list(extra), 1000) != z3.unsat  # unknown: taken as feasible

    def valid(self, c):
        """True only if c holds on every state of this path"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return answer(self.constraints() + [z3.Not(c)]) == z3.unsat

    def branch(self, c, why=""):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if not self.feasible(c):
            return False
        if not self.feasible(z3.Not(c)):
            return True
        r = self.decide(2, why or c) == 0
        self.assume(c if r else z3.Not(c))
        return r

    def decide(self, n, why=""):
        """fork into n alternatives"""
        k = len(self.taken)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            d = 0
            for j in range(1, n):
                self.alts.append(self.taken + [j])
        self.taken.append(d)
        self.log.append((why, d))
        if len(self.taken) > 400:
            raise Unsupported("too many decisions on one path")
        return d


def explore(f, limit=3000, base=()):
    """all paths of f(ctx): [(ctx, result)]"""
    pending, out = [[]], []
    while pending:
        if len(out) > limit:
            raise Unsupported(f"more than {limit} paths")
        ctx = Ctx(pending.pop(), base)
        try:
            r = f(ctx)
        except Infeasible:
            r = None
        else:
            out.append((ctx, r))
        pending += ctx.alts
    return out


# -- values ---------------------------------------------------------------
class SInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"<{self.e}>"


class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"<{self.e}>"


def mkint(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else SInt(e)


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    return True if z3.is_true(e) else False if z3.is_false(e) else SBool(e)


def zi(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"not an int: {v!r}")


def is_int(v):
    return isinstance(v, (int, SInt, SBool))


class Atom:
    """an unknown text; safe: it has no white space, quotes, ';', ':' or '/' in it and is not empty"""

    def __init__(self, term, safe=False, what="", re=None):
        self.term, self.safe, self.what, self.re = term, safe, what, re

    def __repr__(self):
        return "{" + str(self.term) + "}"


class IntText:
    """the decimal text of an int"""

    def __init__(self, e):
        self.e = e

    safe = True

    def __repr__(self):
        return "{#" + str(self.e) + "}"


class Many:
    """the texts of the elements of a list, one after the other; glue stands between two of them"""

    def __init__(self, k, n, rope, glue="", alts=None):
        self.k, self.n, self.rope, self.glue, self.alts = k, n, rope, glue, alts

    safe = False

    def __repr__(self):
        return "{*" + repr(self.rope) + "}"


class Rope:
    """a text with unknown parts"""

    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Rope):
                for q in p.parts:
                    _add(out, q)
            else:
                _add(out, p)
        self.parts = tuple(out)

    def __repr__(self):
        return "R" + "".join(p if isinstance(p, str) else repr(p) for p in self.parts)

    def z(self):
        ts = []
        for p in self.parts:
            if isinstance(p, str):
                ts.append(z3.StringVal(p))
            elif isinstance(p, Atom):
                ts.append(p.term)
            elif isinstance(p, IntText):
                ts.append(z3.IntToStr(p.e))
            else:
                raise Unsupported(f"text of {p!r}")
        if not ts:
            return z3.StringVal("")
        return ts[0] if len(ts) == 1 else z3.Concat(*ts)


def _add(out, p):
    if isinstance(p, str):
        if not p:
            return
        if out and isinstance(out[-1], str):
            out[-1] += p
            return
    elif isinstance(p, IntText):
        e = z3.simplify(p.e)
        if z3.is_int_value(e):
            return _add(out, str(e.as_long()))
    elif isinstance(p, Atom):
        t = z3.simplify(p.term)
        if z3.is_string_value(t):
            return _add(out, t.as_string())
    out.append(p)


def mkstr(r):
    if isinstance(r, Rope):
        if not r.parts:
            return ""
        if len(r.parts) == 1 and isinstance(r.parts[0], str):
            return r.parts[0]
    return r


def zs(v):
    if isinstance(v, str):
        return z3.StringVal(v)
    if isinstance(v, Rope):
        return v.z()
    raise Unsupported(f"not a text: {v!r}")


def is_str(v):
    return isinstance(v, (str, Rope))


class Store:
    """what is known of the elements of a list of unknown length: attributes by index, with updates in order"""

    def __init__(self, name, cls=None, fields=None, opaque=None):
        self.name, self.cls, self.fields, self.opaque = name, cls, fields or {}, opaque
        self.updates = {}
        self.cache = {}


class SElem:
    """element number idx of a list of objects of one class"""

    __slots__ = ("store", "idx")

    def __init__(self, store, idx):
        self.store, self.idx = store, idx

    def __repr__(self):
        return f"{self.store.name}[{self.idx}]"


class SList:
    """a list (or range) of unknown length: elem(i) for the z3 int i"""

    def __init__(self, name, n, elem, kind="list"):
        self.name, self.n, self.elem, self.kind = name, n, elem, kind
        self.memo = {}

    def at(self, i):
        i = z3.simplify(i if not isinstance(i, int) else z3.IntVal(i))
        key = i.sexpr()
        if key not in self.memo:
            self.memo[key] = self.elem(i)
        return self.memo[key]

    def __repr__(self):
        return f"{self.name}[..{self.n}]"


class SeqV:
    """a list made of single values and lists of unknown length; mutable"""

    def __init__(self, segs):
        self.segs = segs  # ("one", v) | ("many", SList)

    def __repr__(self):
        return "Seq" + repr([s[1] for s in self.segs])


class SMap:
    """a dictionary known only through the function from keys to values"""

    def __init__(self, name, get, has=None):
        self.name, self.get, self.has = name, get, has


_NONE = object()


class Family:
    """a family of unknown nodes, by index: what is known of their attributes"""

    def __init__(self, name, kind, cls=None, exclude=(), fields=None):
        self.name, self.kind, self.cls, self.exclude = name, kind, cls, tuple(exclude)
        self.fields = dict(fields or {})
        self.cache, self.sets = {}, {}

    def get(self, attr, hole):
        f = self.fields.get(attr, _NONE)
        if f is _NONE:
            return _NONE
        key = (attr,) + hole.key()
        if key not in self.cache:
            self.cache[key] = f(*hole.idx) if callable(f) else f
        return self.cache[key]

    def __call__(self, *idx):
        return Hole(self, idx)


class Hole:
    """a node of unknown kind: its methods are taken by contract"""

    __slots__ = ("family", "idx")

    def __init__(self, family, idx=()):
        self.family, self.idx = family, tuple(idx)

    name = property(lambda self: self.family.name)
    kind = property(lambda self: self.family.kind)
    cls = property(lambda self: self.family.cls)
    exclude = property(lambda self: self.family.exclude)

    def key(self):
        return (self.name,) + tuple(z3.simplify(i).sexpr() for i in self.idx)

    def __repr__(self):
        return f"<{self.name}{list(self.idx) or ''}>"


class Opaque:
    """a value nothing is known about except what the contracts say"""

    def __init__(self, name, attrs=None, cls=None):
        self.name, self.attrs, self.cls = name, dict(attrs or {}), cls

    def __repr__(self):
        return f"<{self.name}>"


class OneOf:
    """a value that is one of several alternatives: decided where it is first looked at"""

    def __init__(self, name, alts):
        self.name, self.alts = name, alts

    def __repr__(self):
        return f"<one of {self.name}>"


class Poison:
    def __init__(self, why):
        self.why = why


def subst(v, k, t):
    """v with the z3 int k replaced by t"""
    if isinstance(v, SInt):
        return mkint(z3.substitute(v.e, (k, t)))
    if isinstance(v, SBool):
        return mkbool(z3.substitute(v.e, (k, t)))
    if isinstance(v, Rope):
        out = []
        for p in v.parts:
            if isinstance(p, Atom):
                out.append(Atom(z3.substitute(p.term, (k, t)), p.safe, p.what, p.re))
            elif isinstance(p, IntText):
                out.append(IntText(z3.substitute(p.e, (k, t))))
            elif isinstance(p, Many):
                out.append(Many(p.k, z3.substitute(p.n, (k, t)), subst(p.rope, k, t) if p.rope is not None else None, p.glue,
                                p.alts and [([z3.substitute(g, (k, t)) for g in gs], subst(x, k, t)) for gs, x in p.alts]))
            else:
                out.append(p)
        return mkstr(Rope(out))
    if isinstance(v, SElem):
        return SElem(v.store, z3.simplify(z3.substitute(v.idx, (k, t))))
    if isinstance(v, Hole):
        if not v.idx:
            return v
        return Hole(v.family, [z3.simplify(z3.substitute(i, (k, t))) for i in v.idx])
    if isinstance(v, (list, tuple)):
        return type(v)(subst(x, k, t) for x in v)
    if z3.is_expr(v):
        return z3.substitute(v, (k, t))
    if isinstance(v, (str, int, bytes, bool, type(None), type, SMap)):
        return v
    if isinstance(v, SList):
        return SList(v.name, z3.simplify(z3.substitute(v.n, (k, t))), lambda i, v=v: subst(v.at(i), k, t))
    if isinstance(v, Opaque):
        return v
    if hasattr(v, "subst"):
        return v.subst(k, t)
    raise Unsupported(f"value {v!r} that depends on the iteration")
