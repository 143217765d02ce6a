"""Dictionaries of unknown contents, and loops with invariants."""
import z3

from .interp import BreakEx, ContinueEx, PathEnd, SymMethod, fresh
from .sem import Refuted
from .values import *  # noqa: F401,F403

STR = z3.StringSort()
_n = [0]


def check(ip, c, what):
    """the condition holds on this path, or the obligation is refuted"""
    if isinstance(c, SBool):
        c = c.e
    if isinstance(c, bool):
        if not c:
            raise Refuted(what)
        return
    known = ip.ctx.constraints() + [z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), f)) for k, n, f in ip.facts]
    r, m = solve(known + [z3.Not(c)], 8000)
    if r == z3.unsat:
        return
    if r == z3.unknown:
        raise Unsupported(f"{what}: not decided")
    raise Refuted(f"{what}: {m}"[:600])


class MapV:
    """a dictionary: updates, newest last, over a base known by two functions (has: key -> z3 Bool, get: key -> value)

    Keys are z3 terms made from the text or int that is looked up."""

    pyver_symbolic = True
    wrapper = None
    about = None  # the facts about a key, assumed once it is looked up
    lazy = False  # facts about the enumeration: of the positions and keys used only, instead of all

    def __init__(self, name, has, get, layers=(), sort=STR):
        self.name, self.has, self.get, self.layers, self.sort = name, has, get, list(layers), sort

    def __repr__(self):
        return f"<map {self.name}+{len(self.layers)}>"

    @classmethod
    def of(cls, d, sort=STR):
        m = cls("{}", lambda k: z3.BoolVal(False), lambda k: None, sort=sort)
        for k, v in d.items():
            m.layers.append(("set", m.key(k), v))
        return m

    def copy(self):
        m = MapV(self.name, self.has, self.get, self.layers, self.sort)
        for a in ("last", "pair"):
            if hasattr(self, a):
                setattr(m, a, getattr(self, a))
        m.wrapper, m.lazy, m.about = self.wrapper, self.lazy, self.about
        return m

    def key(self, k):
        if z3.is_expr(k):
            return k
        if is_str(k):
            return zs(k)
        if is_int(k):
            return zi(k)
        raise Unsupported(f"key {k!r}")

    def look(self, ip, k):
        """(found, value) of key k on this path"""
        k = self.key(k)
        ip.note_read(self, "[]")
        for layer in reversed(self.layers):
            if layer[0] == "clear":
                return False, None
            if layer[0] in ("set", "del"):
                if ip.ctx.branch(layer[1] == k):
                    return (True, layer[2]) if layer[0] == "set" else (False, None)
            else:
                f, v = layer[1].look(ip, k)
                if f:
                    return f, v
        self.known(ip, k)
        if ip.ctx.branch(self.has(k)):
            return True, self.get(k)
        return False, None

    def known(self, ip, k):
        if self.about:
            ip.ctx.assume(self.about(k))
        if self.lazy and hasattr(self, "_enum"):
            self.at_key(ip, k)

    def push(self, ip, layer):
        old = list(self.layers)
        ip.journal.append(("call", lambda: setattr(self, "layers", old), self))
        ip.note_write(self, "[]")
        self.layers = old + [layer]

    def sym_contains(self, ip, k):
        return self.look(ip, ip.resolve(k))[0]

    def sym_getitem(self, ip, k):
        f, v = self.look(ip, ip.resolve(k))
        if not f:
            raise PyRaise(KeyError("?"))
        return v

    def sym_setitem(self, ip, k, v):
        self.push(ip, ("set", self.key(ip.resolve(k)), v))

    def sym_delitem(self, ip, k):
        f, _ = self.look(ip, ip.resolve(k))
        if not f:
            raise PyRaise(KeyError("?"))
        self.push(ip, ("del", self.key(ip.resolve(k)), None))

    def sym_truth(self, ip):
        raise Unsupported("truth of a dictionary")

    def sym_getattr(self, ip, name):
        return MapMethod(self, name)

    def sym_eq(self, ip, o):
        if o is self:
            return True
        raise Unsupported("comparison of dictionaries")

    def sym_isinstance(self, ip, cls):
        return issubclass(dict, cls)

    def sym_iter(self, ip):
        return [("many", self.keys(ip))]

    def enumeration(self, ip):
        """n, key(j): every key once"""
        if self.layers:
            raise Unsupported("iteration over an updated dictionary")
        if not hasattr(self, "_enum"):
            _n[0] += 1
            n = z3.Int(f"size({self.name})")
            key = z3.Function(f"key of {self.name}", z3.IntSort(), self.sort)
            pos = z3.Function(f"position in {self.name}", self.sort, z3.IntSort())
            self._enum = n, key, pos
        n, key, pos = self._enum
        if self.lazy:
            ip.ctx.assume(n >= 0)
            return n, key, pos
        j, x = z3.Int("j!enum"), z3.Const("x!enum", self.sort)
        ip.ctx.assume(n >= 0)
        ip.ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(self.has(key(j)), pos(key(j)) == j)), patterns=[key(j)]))
        ip.ctx.assume(z3.ForAll([x], z3.Implies(self.has(x), z3.And(pos(x) >= 0, pos(x) < n, key(pos(x)) == x)), patterns=[pos(x)]))
        return n, key, pos

    def at_position(self, ip, j):
        """the fact about position j"""
        n, key, pos = self._enum
        ip.ctx.assume(z3.Implies(z3.And(j >= 0, j < n), z3.And(self.has(key(j)), pos(key(j)) == j)))

    def at_key(self, ip, x):
        n, key, pos = self._enum
        ip.ctx.assume(z3.Implies(self.has(x), z3.And(pos(x) >= 0, pos(x) < n, key(pos(x)) == x)))

    def wrap(self, k):
        if self.wrapper:
            return self.wrapper(k)
        if self.sort == STR:
            return Rope([Atom(k, safe=True)])
        return SInt(k)

    def sym_copy(self, ip):
        return self.copy()

    def listed(self, l):
        l.source = self
        return l

    def keys(self, ip):
        n, key, _ = self.enumeration(ip)

        def elem(j):
            if self.lazy:
                self.at_position(ip, j)
            return self.wrap(key(j))
        return self.listed(SList(f"keys of {self.name}", n, elem))

    def values(self, ip):
        n, key, _ = self.enumeration(ip)
        return SList(f"values of {self.name}", n, lambda j: self.get(key(j)))

    def items(self, ip):
        n, key, _ = self.enumeration(ip)

        def elem(j):
            if self.lazy:
                self.at_position(ip, j)
            return self.wrap(key(j)), self.get(key(j))
        return self.listed(SList(f"items of {self.name}", n, elem))


class MapMethod:
    pyver_symbolic = True

    def __init__(self, m, name):
        self.m, self.name = m, name

    def sym_call(self, ip, args, kwargs):
        m, name = self.m, self.name
        args = [ip.resolve(a) for a in args]
        if name == "get":
            f, v = m.look(ip, args[0])
            return v if f else (args[1] if len(args) > 1 else None)
        if name == "update":
            o = args[0]
            if isinstance(o, dict):
                for k, v in o.items():
                    m.sym_setitem(ip, k, v)
            elif isinstance(o, MapV):
                m.push(ip, ("map", o.copy()))
            else:
                raise Unsupported("update")
            return None
        if name == "clear" and not args:
            m.push(ip, ("clear",))
            return None
        if name == "pop":
            f, v = m.look(ip, args[0])
            if f:
                m.push(ip, ("del", m.key(args[0]), None))
                return v
            if len(args) > 1:
                return args[1]
            raise PyRaise(KeyError("?"))
        if name == "setdefault":
            f, v = m.look(ip, args[0])
            if not f:
                v = args[1] if len(args) > 1 else None
                m.sym_setitem(ip, args[0], v)
            return v
        if name in ("keys", "values", "items"):
            return getattr(m, name)(ip)
        if name == "copy":
            return m.copy()
        raise Unsupported(f"dict.{name}")


def of_pairs(ip, lst):
    """the dictionary of a list of pairs of unknown length: of pairs with the same key, the last"""
    j = fresh("j")
    k = ip.resolve(lst.at(j)[0])
    term = zs(k) if is_str(k) else zi(k)
    key = lambda t: z3.substitute(term, (j, t))  # noqa: E731
    no = fresh("pairs").decl().name()
    has, last = z3.Function(f"has {no}", term.sort(), z3.BoolSort()), z3.Function(f"last {no}", term.sort(), z3.IntSort())
    n = lst.n if z3.is_expr(lst.n) else z3.IntVal(lst.n)
    m = MapV(f"of {lst.name}", lambda t: has(t), lambda t: lst.at(last(t))[1], sort=term.sort())
    m.about = lambda x: z3.Implies(has(x), z3.And(last(x) >= 0, last(x) < n, key(last(x)) == x))  # noqa: E731
    m.last, m.pair, m.lazy = last, (lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(has(key(i)), last(key(i)) >= i))), True
    ip.__dict__.setdefault("pair_maps", []).append(m)
    return m


def as_map(ip, d):
    d = ip.resolve(d)
    if isinstance(d, MapV):
        return d
    if isinstance(d, dict):
        return MapV.of(d)
    raise Unsupported(f"{d!r} is no dictionary")


def same_map(ip, a, b, same, what):
    """the two dictionaries agree on an arbitrary key"""
    x = fresh("x", STR)
    fa, va = as_map(ip, a).look(ip, x)
    fb, vb = as_map(ip, b).look(ip, x)
    check(ip, fa == fb, f"{what}: a key is in one only")
    if fa:
        same(ip, va, vb, what)


class Cells:
    """a list of known length and unknown values: updates over get(i)"""

    pyver_symbolic = True

    def __init__(self, name, n, get, layers=()):
        self.name, self.n, self.get, self.layers = name, n, get, list(layers)

    def at(self, ip, i):
        ip.note_read(self, "[]")
        for j, v in reversed(self.layers):
            if ip.ctx.branch(j == i):
                return v
        return self.get(i)

    def index(self, ip, i):
        i = zi(ip.resolve(i))
        if ip.ctx.branch(i < 0):
            i = i + self.n
        if not ip.ctx.branch(z3.And(i >= 0, i < self.n)):
            raise PyRaise(IndexError("list index out of range"))
        return z3.simplify(i)

    def sym_getitem(self, ip, i):
        return self.at(ip, self.index(ip, i))

    def sym_setitem(self, ip, i, v):
        i = self.index(ip, i)
        old = list(self.layers)
        ip.journal.append(("call", lambda: setattr(self, "layers", old), self))
        ip.note_write(self, "[]")
        self.layers = old + [(i, v)]

    def sym_iter(self, ip):
        if self.layers:
            raise Unsupported("iteration over changed cells")
        return [("many", SList(self.name, z3.IntVal(self.n) if isinstance(self.n, int) else self.n, self.get))]

    def sym_len(self, ip):
        return self.n if isinstance(self.n, int) else SInt(self.n)

    def sym_truth(self, ip):
        return mkbool(self.n > 0) if not isinstance(self.n, int) else self.n > 0


UNROLL = {"on": False, "used": False, "limit": 3}


class Inv:
    """an invariant of a loop: what the variables are after k iterations

    set(ip, fr, k): make the state be that of k iterations; check(ip, fr, k): it is;
    assume(ip, k): facts about the ghost functions the state is described by."""

    own_effects = False  # check() compares the effects of the iteration

    def __init__(self, set, check, assume=None, bound=None, final=None):
        self.set, self.check, self.assume, self.bound, self.final = set, check, assume, bound, final

    def ghost(self, ip, k):
        if self.assume:
            for c in self.assume(ip, k):
                ip.ctx.assume(c)

    def need(self, fr, names):
        for n in names:
            if n not in fr.loc:
                raise Unsupported(f"the invariant names {n}, which the loop does not have")

    def open(self, ip, fr, k, s):
        """the state after k iterations: what the invariant does not name is unknown if the loop assigns it"""
        for v in _stored(s):
            if v in fr.loc:
                fr.loc[v] = Poison(f"{v}, which the loop changes and the invariant does not name")
        at, before = len(ip.journal), dict(fr.loc)
        self.set(ip, fr, k)
        self.named = {_place(e) for e in ip.journal[at:]}
        self.given = set()
        for v, x in fr.loc.items():
            if before.get(v) is not x:
                _reach(x, self.given)
        for e in ip.journal[at:]:
            if e[0] == "dict":
                _reach(e[1].get(e[2]), self.given)
        self.mark, self.effects0, self.out0 = len(ip.journal), len(ip.effects), len(ip.out)

    def shut(self, ip, k):
        """an iteration changes nothing that the invariant does not name, except objects of its own"""
        if not self.own_effects and len(ip.effects) != self.effects0 or len(ip.out) != self.out0:
            raise Unsupported("the loop has effects, which the invariant does not name")
        for c in ip.effects_since(self.mark):
            e = {"attr": ("dict",), "elem": ("upd",), "list": ("list",), "segs": ("segs",), "call": ("call",)}[c[0]]
            place = _place(c[1]) if c[0] == "call" else _place(e + tuple(c[1:]))
            if place in self.named or place[1] in ip.fresh_objects or place[1] in self.given:
                continue
            if c[0] == "attr" and isinstance(c[2], tuple) and any(str(k) in str(x) for x in c[2][1:]):
                continue  # an attribute of the element of this iteration
            raise Unsupported(f"the loop changes {c[2] if c[0] in ('attr', 'elem') else c[1]!r}, which the invariant does not name")

    # for loops
    def run(self, ip, s, fr, it):
        UNROLL["used"] = True
        if UNROLL["on"]:
            return self.unrolled(ip, s, fr, it)
        segs = ip.iterate(it)
        if not segs:
            self.ghost(ip, z3.IntVal(0))
            self.check(ip, fr, z3.IntVal(0))
            ip.block(s.orelse, fr)
            return
        if len(segs) != 1 or segs[0][0] != "many":
            raise Unsupported("the invariant is for one list of unknown length")
        lst = segs[0][1]
        self.ghost(ip, z3.IntVal(0))
        self.check(ip, fr, z3.IntVal(0))
        if ip.ctx.decide(2, "an iteration, or after the loop") == 0:
            k = fresh("k")
            ip.ctx.assume(z3.And(k >= 0, k < lst.n))
            if not ip.ctx.feasible():
                raise Infeasible()
            self.ghost(ip, k)
            self.ghost(ip, k + 1)
            self.open(ip, fr, k, s)
            ip.assign(s.target, lst.at(k), fr)
            try:
                ip.block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                pass
            self.shut(ip, k)
            self.check(ip, fr, k + 1)
            raise PathEnd()
        self.ghost(ip, lst.n)
        if self.final:
            for c in self.final(ip, lst.n):
                ip.ctx.assume(c)
        self.open(ip, fr, lst.n, s)
        for x in _targets(s.target):
            fr.loc[x] = Poison(f"{x} after a loop")
        ip.block(s.orelse, fr)

    def unrolled(self, ip, s, fr, it):
        """the first iterations themselves, without the invariant"""
        segs = ip.iterate(it)
        k = 0
        self.ghost(ip, z3.IntVal(0))
        for kind, x in segs:
            m = 1 if kind == "one" else ip.ctx.decide(UNROLL["limit"] + 1, "how many")
            if kind == "many":
                ip.ctx.assume(x.n == m)
                if not ip.ctx.feasible():
                    raise Infeasible()
            for i in range(m):
                self.ghost(ip, z3.IntVal(k + 1))
                ip.assign(s.target, x if kind == "one" else x.at(i), fr)
                k += 1
                try:
                    ip.block(s.body, fr)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
        if self.final:
            for c in self.final(ip, z3.IntVal(k)):
                ip.ctx.assume(c)
        ip.block(s.orelse, fr)

    # while loops
    def enter(self, ip, fr):
        UNROLL["used"] = True
        self.ghost(ip, z3.IntVal(0))
        self.check(ip, fr, z3.IntVal(0))

    def havoc(self, ip, fr):
        self.k = k = fresh("k")
        ip.ctx.assume(k >= 0)
        if self.bound is not None:
            ip.ctx.assume(k <= self.bound)
        self.ghost(ip, k)
        self.ghost(ip, k + 1)
        self.open(ip, fr, k, self.stmt)

    def begin(self, ip, fr):
        pass

    def end(self, ip, fr):
        self.shut(ip, self.k)
        self.check(ip, fr, self.k + 1)
        if self.bound is not None:
            check(ip, self.k + 1 <= self.bound, "the bound of the loop")


def _place(e):
    """what a journal entry changes"""
    if e[0] in ("dict", "upd"):
        return e[0], id(e[1]), e[2]
    return e[0] if e[0] != "segs" else "list", id(e[2]) if e[0] == "call" and len(e) > 2 else id(e[1]), None


def _reach(x, seen, depth=3):
    """the containers an invariant gives"""
    if x is None or isinstance(x, (str, int, type)) or id(x) in seen or depth == 0:
        return
    seen.add(id(x))
    if isinstance(x, (list, tuple)):
        for y in x:
            _reach(y, seen, depth)
        return
    d = x.attrs if isinstance(x, Opaque) else getattr(x, "__dict__", None)
    if isinstance(d, dict):
        seen.add(id(d))
        for y in d.values():
            _reach(y, seen, depth - 1)


def _stored(s):
    import ast

    return sorted({x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))})


def _targets(t):
    import ast

    return [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]
