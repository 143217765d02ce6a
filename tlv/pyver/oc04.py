"""C04: names resolve to the innermost declaration, and a declaration gets a slot of its own."""
import z3

from tealish import nodes, scope as scope_mod, tealish_builtins, base as base_mod

from .domain import *  # noqa: F401,F403
from .domain import Event
from .interp import PathEnd, fresh
from .maps import *  # noqa: F401,F403
from .oc02 import compiler, node_init, outer
from .sem import Refuted
from .values import *  # noqa: F401,F403

FIELDS = ("slots", "consts", "blocks", "functions")
I = z3.IntSort()
N = z3.Int("n_scopes")
HAS = {f: z3.Function(f"has {f}", I, STR, z3.BoolSort()) for f in FIELDS}
SLOTK = z3.Function("slot", I, STR, I)
SCNAME = z3.Function("scope name", I, STR)
UH = {f: z3.Function(f"visible {f}", I, STR, z3.BoolSort()) for f in FIELDS}
UJ = {f: z3.Function(f"level of {f}", I, STR, I) for f in FIELDS}


class Entry:
    """what scope k declares under the name x"""

    pyver_symbolic = True

    def __init__(self, kind, k, x):
        self.kind, self.k, self.x = kind, k, x

    def __repr__(self):
        return f"<{self.kind} {self.x} of scope {self.k}>"

    def sym_truth(self, ip):
        return True

    def sym_eq(self, ip, o):
        if o is None:
            return False
        if isinstance(o, Entry):
            return mkbool(z3.And(self.k == o.k, self.x == o.x)) if self.kind == o.kind else False
        raise Unsupported("comparison of declarations")

    def sym_getattr(self, ip, name):
        if name == "scratch_slot" and self.kind == "slots":
            return SInt(SLOTK(self.k, self.x))
        raise Unsupported(f"{name} of a declaration")

    def subst(self, k, t):
        return Entry(self.kind, z3.simplify(z3.substitute(self.k, (k, t))), z3.simplify(z3.substitute(self.x, (k, t))))


class ScopeAt:
    """the k-th scope of a chain of N, the innermost is 0"""

    pyver_symbolic = True

    def __init__(self, k, cache):
        self.k, self.cache = k, cache

    def __repr__(self):
        return f"<scope {self.k}>"

    def sym_isinstance(self, ip, cls):
        return issubclass(scope_mod.Scope, cls)

    def sym_truth(self, ip):
        return True

    def sym_eq(self, ip, o):
        if isinstance(o, ScopeAt):
            return mkbool(self.k == o.k)
        if o is None:
            return False
        raise Unsupported("comparison of scopes")

    def sym_getattr(self, ip, name):
        if name in FIELDS:
            key = (name, z3.simplify(self.k).sexpr())
            if key not in self.cache:
                k = self.k
                self.cache[key] = MapV(f"{name} of scope {k}", lambda x: HAS[name](k, x), lambda x: Entry(name, k, x))
            return self.cache[key]
        if name == "parent":
            return ScopeAt(z3.simplify(self.k + 1), self.cache) if ip.ctx.branch(self.k + 1 < N) else None
        if name == "name":
            return Rope([Atom(SCNAME(self.k), safe=False)])
        a = scope_mod.Scope.__dict__.get(name)
        if a is None:
            ip.no_attr(self, name)
        return ip.bind(a, self, scope_mod.Scope)

    def subst(self, k, t):
        return ScopeAt(z3.simplify(z3.substitute(self.k, (k, t))), self.cache)


class Somewhere(base_mod.BaseNode):
    """a node in the program"""


def at(cache, **attrs):
    return mk(Somewhere, parent=None, **attrs)


def current(cache):
    return {"BaseNode.get_current_scope": lambda ip, self: ScopeAt(z3.IntVal(0), cache)}


def chain(cache, n=None, off=0):
    return SList("scopes", N, lambda i: ScopeAt(i, cache))


def find(fr, pred):
    got = [v for v, x in fr.loc.items() if pred(x)]
    if len(got) != 1:
        raise Unsupported("the variable the invariant is about is not found")
    return got[0]


def same_list(ip, v, n, elem, what):
    """v is the list elem(0..n-1)"""
    check(ip, ip.length(v) == n if z3.is_expr(ip.length(v)) else zi(ip.length(v)) == n, f"{what}: its length")
    if ip.ctx.decide(2, "an element") == 1:
        return
    i = fresh("i")
    ip.ctx.assume(z3.And(i >= 0, i < n))
    if not ip.ctx.feasible():
        raise Infeasible()
    x = ip.resolve(ip.index(ip.resolve(v), i))
    e = ip.same(x, elem(i))
    check(ip, e, f"{what}: an element")
    raise PathEnd()


# -- the chain of scopes ----------------------------------------------------------------
def get_scopes(o):
    """the scopes from the current one outwards, all of them"""
    cache = {}
    names = {}

    def chk(ip, fr, k):
        if not names:
            names["list"] = find(fr, lambda v: isinstance(v, list))
            names["s"] = find(fr, lambda v: isinstance(ip.resolve(v), ScopeAt))
        inv.need(fr, names.values())
        s = ip.resolve(fr.loc[names["s"]])
        check(ip, ip.same(s, ScopeAt(k, cache)), "the scope reached")
        same_list(ip, fr.loc[names["list"]], k, lambda i: ScopeAt(i, cache), "the scopes so far")

    def put(ip, fr, k):
        fr.loc[names["s"]] = ScopeAt(k, cache)
        fr.loc[names["list"]] = SeqV([("many", SList("scopes", k, lambda i: ScopeAt(i, cache)))])

    inv = Inv(put, chk, bound=N - 1)

    def build(ip):
        r = ip.call(ip.get_attr(at(cache), "get_scopes"), [], {})
        same_list(ip, r, N, lambda i: ScopeAt(i, cache), "get_scopes")

    rs = runs(o, build, current(cache), {("BaseNode.get_scopes", "while"): inv}, base=[N >= 1])
    if any(r.kind == "raise" for r in rs) or not any(r.kind == "ok" for r in rs):
        raise Refuted("get_scopes fails")
    return len(rs)


def union(f, k):
    """what the outermost k scopes make visible"""
    return MapV(f"visible {f} {k}", lambda x: UH[f](k, x), lambda x: Entry(f, UJ[f](k, x), x))


def axioms(fields):
    """definition: outermost k+1 scopes = outermost k scopes overridden by scope N-1-k"""
    def f(ip, k):
        x = z3.Const("x!u", STR)
        out = []
        for g in fields:
            out.append(z3.ForAll([x], z3.Not(UH[g](0, x)), patterns=[UH[g](0, x)]))
            for kk in (k - 1, k):
                h = HAS[g](N - 1 - kk, x)
                out.append(z3.Implies(kk >= 0, z3.ForAll([x], z3.And(UH[g](kk + 1, x) == z3.Or(h, UH[g](kk, x)),
                                                                     UJ[g](kk + 1, x) == z3.If(h, N - 1 - kk, UJ[g](kk, x))))))
        return [z3.simplify(c) for c in out]
    return f


def same_decl(ip, a, b, what):
    check(ip, ip.same(a, b), what)


def scopes_contract(cache):
    return {"BaseNode.get_scopes": lambda ip, self: chain(cache)}


def visible_maps(fn, field):
    """get_slots / get_blocks: the outermost scopes overridden by the inner ones"""
    def ob(o):
        cache, names = {}, {}

        def chk(ip, fr, k):
            if not names:
                names["m"] = find(fr, lambda v: isinstance(v, dict) and not v)
            inv.need(fr, names.values())
            same_map(ip, fr.loc[names["m"]], union(field, k), same_decl, fn)

        def put(ip, fr, k):
            fr.loc[names["m"]] = union(field, k)

        inv = Inv(put, chk, axioms([field]))

        def build(ip):
            r = ip.call(ip.get_attr(at(cache), fn), [], {})
            same_map(ip, r, union(field, N), same_decl, fn)

        rs = runs(o, build, {**current(cache), **scopes_contract(cache)}, {(f"BaseNode.{fn}", "for", 0): inv}, base=[N >= 1])
        if any(r.kind == "raise" for r in rs) or not any(r.kind == "ok" for r in rs):
            raise Refuted(f"{fn} fails")
        return len(rs)
    return ob


def get_scope(o):
    """get_scope: every kind of name, the inner scopes override the outer ones"""
    cache, names = {}, {}
    c = 0

    def chk(ip, fr, k):
        if not names:
            names["s"] = find(fr, lambda v: isinstance(v, scope_mod.Scope))
        inv.need(fr, names.values())
        f = FIELDS[ip.ctx.decide(len(FIELDS), "kind of name")]
        same_map(ip, ip.get_attr(fr.loc[names["s"]], f), union(f, k), same_decl, "get_scope")

    def put(ip, fr, k):
        for f in FIELDS:
            ip.set_attr(fr.loc[names["s"]], f, union(f, k))

    inv = Inv(put, chk, axioms(FIELDS))

    def build(ip):
        r = ip.call(ip.get_attr(at(cache), "get_scope"), [], {})
        f = FIELDS[ip.ctx.decide(len(FIELDS), "kind of name")]
        same_map(ip, ip.get_attr(r, f), union(f, N), same_decl, "get_scope")

    rs = runs(o, build, {**current(cache), **scopes_contract(cache)}, {("BaseNode.get_scope", "for", 0): inv}, base=[N >= 1])
    if any(r.kind == "raise" for r in rs) or not any(r.kind == "ok" for r in rs):
        raise Refuted("get_scope fails")
    return len(rs)


def innermost(f, k):
    """P(k): what is visible of the outermost k scopes is the innermost declaration among them"""
    x, j = z3.Const("x!l", STR), z3.Int("j!l")
    u, w = UH[f](k, x), UJ[f](k, x)
    return x, z3.And(
        z3.Implies(u, z3.And(w >= N - k, w < N, HAS[f](w, x), z3.ForAll([j], z3.Implies(z3.And(j >= N - k, j < w), z3.Not(HAS[f](j, x)))))),
        z3.Implies(z3.Not(u), z3.ForAll([j], z3.Implies(z3.And(j >= N - k, j < N), z3.Not(HAS[f](j, x))))))


def lemma_innermost(o):
    """induction on k: the union of the scopes is exactly the innermost declaration of each name"""
    for f in FIELDS:
        k = z3.Int("k!l")
        ax = axioms([f])(None, k)
        x, p0 = innermost(f, z3.IntVal(0))
        _, pk = innermost(f, k)
        _, pk1 = innermost(f, k + 1)
        ax1 = axioms([f])(None, k + 1)
        for name, hyp, goal in (("base", [N >= 1], p0), ("step", [N >= 1, k >= 0, k < N, pk], pk1)):
            r, m = solve(hyp + ax + ax1 + [z3.Not(goal)], 10000)
            if r == z3.unknown:
                raise Unsupported(f"{name}: not decided")
            if r == z3.sat:
                raise Refuted(f"{name}: {m}")
        r, _ = solve([N >= 1, k >= 0, k < N, pk] + ax + ax1, 10000)
        if r == z3.unsat:
            raise Refuted("the lemma is vacuous")
    return 2 * len(FIELDS)


# the contract of get_scope/get_slots/get_blocks from here on
VIS = {f: z3.Function(f"is visible {f}", STR, z3.BoolSort()) for f in FIELDS}
LEV = {f: z3.Function(f"declared at {f}", STR, I) for f in FIELDS}


def visible(f):
    return MapV(f"visible {f}", lambda x: VIS[f](x), lambda x: Entry(f, LEV[f](x), x))


def vis_facts():
    out = []
    for f in FIELDS:
        x, j = z3.Const("x!v", STR), z3.Int("j!v")
        out.append(z3.ForAll([x], z3.And(
            z3.Implies(VIS[f](x), z3.And(LEV[f](x) >= 0, LEV[f](x) < N, HAS[f](LEV[f](x), x))),
            z3.Implies(z3.And(HAS[f](0, x), N >= 1), z3.And(VIS[f](x), LEV[f](x) == 0)))))
    return out


def whole_scope(ip, self):
    s = mk(scope_mod.Scope, name="", parent=None, slot_range=(0, 200))
    for f in FIELDS:
        s.__dict__[f] = visible(f)
    return s


VISIBLE = {"BaseNode.get_scope": whole_scope, "BaseNode.get_slots": lambda ip, self: visible("slots"), "BaseNode.get_blocks": lambda ip, self: visible("blocks"),
           "BaseNode.lookup_var": None, "BaseNode.get_var": None, "BaseNode.get_block": None}


def lookups(fn, field, missing):
    """the lookup finds the innermost declaration; without one it is a KeyError (or None)"""
    def ob(o):
        n = text("x")
        z = zs(n)
        found = 0

        def build(ip):
            return ip.call(ip.get_attr(at({}), fn), [n], {})

        for r in runs(o, build, VISIBLE):
            if r.kind == "raise":
                if missing is None or not isinstance(r.value, KeyError):
                    raise Refuted(f"raises {r.value!r}")
                must(r, z3.Not(VIS[field](z)), "a visible name is not found")
                continue
            v = r.ip.resolve(r.value)
            if v is None:
                if missing is not None:
                    raise Refuted("finds nothing without an error")
                must(r, z3.Not(VIS[field](z)), "a visible name is not found")
                continue
            if not isinstance(v, Entry) or v.kind != field:
                raise Refuted(f"finds {v!r}")
            must(r, z3.And(VIS[field](z), v.k == LEV[field](z), v.x == z), "another declaration than the innermost is found")
            found += 1
        if not found:
            raise Refuted("never finds anything")
        return found
    return ob


def must(r, c, what):
    x, model = solve(r.facts() + [z3.Not(c)], 8000)
    if x == z3.unknown:
        raise Unsupported(f"{what}: not decided")
    if x == z3.sat:
        raise Refuted(what)


# -- one scope ---------------------------------------------------------------------------
H1 = {f: z3.Function(f"in {f}", STR, z3.BoolSort()) for f in FIELDS}
SLOT1 = z3.Function("slot in scope", STR, I)


class Decl:
    pyver_symbolic = True

    def __init__(self, kind, x):
        self.kind, self.x = kind, x

    def sym_truth(self, ip):
        return True

    def sym_eq(self, ip, o):
        if isinstance(o, Decl):
            return mkbool(self.x == o.x) if self.kind == o.kind else False
        return False

    def sym_getattr(self, ip, name):
        if name == "scratch_slot":
            return SInt(SLOT1(self.x))
        raise Unsupported(name)

    def subst(self, k, t):
        return Decl(self.kind, z3.simplify(z3.substitute(self.x, (k, t))))

    def __repr__(self):
        return f"<{self.kind} {self.x}>"


def one(ip=None, lo=0, hi=200):
    s = mk(scope_mod.Scope, name="", parent=None, slot_range=(lo, hi))
    for f in FIELDS:
        s.__dict__[f] = MapV(f, (lambda f: lambda x: H1[f](x))(f), (lambda f: lambda x: Decl(f, x))(f))
    return s


USED = z3.Function("used", I, I, z3.BoolSort())
LO, HI = z3.Ints("lo hi")


def find_slot(o):
    """a slot of the range that no variable of the scope has; an error only if there is none"""
    s = one(lo=SInt(LO), hi=SInt(HI))
    n = z3.Int("size(slots)")
    key = z3.Function("key of slots", I, STR)
    x = z3.Const("x!s", STR)
    ok = [z3.ForAll([x], z3.Implies(H1["slots"](x), z3.And(SLOT1(x) >= 0, SLOT1(x) < 255))), LO >= 0, HI < 255, LO <= HI]
    names = {}

    def slot(j):
        return SLOT1(key(j))

    def assume(ip, k):
        i = z3.Int("i!a")
        if z3.is_int_value(k):
            return [z3.ForAll([i], z3.Not(USED(0, i)), patterns=[USED(0, i)])]
        return [z3.Implies(k >= 1, z3.ForAll([i], USED(k, i) == z3.Or(USED(k - 1, i), i == slot(k - 1)), patterns=[USED(k, i)]))]

    def final(ip, k):
        # by the lemma below
        j = z3.Int("j!a")
        return [z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), USED(k, SLOT1(key(j)))), patterns=[key(j)])]

    def chk(ip, fr, k):
        if not names:
            names["u"] = find(fr, lambda v: isinstance(v, list) and len(v) >= 200)
        inv.need(fr, names.values())
        u = ip.resolve(fr.loc[names["u"]])
        i = fresh("i")
        ln = ip.length(u) if not isinstance(u, Cells) else u.n
        ip.ctx.assume(z3.And(i >= 0, i < ln))
        if isinstance(u, list):
            if any(y is not False for y in u):
                raise Refuted("a slot is taken before any variable was looked at")
            v = z3.BoolVal(False)
        else:
            v = u.at(ip, i)
            v = z3.BoolVal(v) if isinstance(v, bool) else v.e
        check(ip, v == USED(k, i), "the slots in use")

    def put(ip, fr, k):
        u = fr.loc[names["u"]]
        fr.loc[names["u"]] = Cells("used", len(u) if isinstance(u, list) else u.n, lambda i, k=k: SBool(USED(k, i)))

    inv = Inv(put, chk, assume, final=final)
    good = 0
    for r in runs(o, lambda ip: ip.call(ip.get_attr(s, "find_slot"), [], {}), None, {("Scope.find_slot", "for", 0): inv}, base=ok):
        if r.kind == "cut":
            continue
        y = z3.Const("y!s", STR)
        if r.kind == "raise":
            # every slot of the range is that of a variable
            i = z3.Int("i!r")
            must(r, z3.Implies(z3.And(i >= LO, i <= HI), USED(n, i)), "an error although there is a free slot")
            good |= 1
            continue
        v = zi(r.ip.resolve(r.value))
        pos = z3.Function("position in slots", STR, I)
        must(r, z3.And(v >= LO, v <= HI), "a slot outside of the range")
        must(r, z3.Implies(z3.And(H1["slots"](y), pos(y) == pos(y)), SLOT1(y) != v), "a slot another variable of the scope has")
        good |= 2
    if good != 3:
        raise Refuted("find_slot does not find a slot, or never fails")
    return 2


def used_lemma(o):
    """induction: after k variables, exactly their slots are in use"""
    k, i, j = z3.Ints("k i j")
    sl = z3.Function("slot of variable", I, I)
    i_ = z3.Int("i!q")
    ax = [z3.ForAll([i_], z3.Not(USED(0, i_))), z3.ForAll([i_], USED(k + 1, i_) == z3.Or(USED(k, i_), i_ == sl(k)))]

    def p(k):
        return z3.And(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), USED(k, sl(j)))),
                      z3.ForAll([i], z3.Implies(USED(k, i), z3.Exists([j], z3.And(j >= 0, j < k, sl(j) == i)))))
    for hyp, goal in (([], p(z3.IntVal(0))), ([k >= 0, p(k)], p(k + 1))):
        r, m = solve(ax + hyp + [z3.Not(goal)], 10000)
        if r != z3.unsat:
            raise (Refuted(str(m)) if r == z3.sat else Unsupported("not decided"))
    return 2


FREE = z3.Int("free slot")


def found_slot(ip, self):
    """contract of find_slot (above)"""
    if ip.ctx.decide(2, "a slot is free") == 1:
        raise PyRaise(Exception("No available slots!"))
    x = z3.Const("x!f", STR)
    lo, hi = self.slot_range if not isinstance(self, ScopeAt) else (0, 200)
    ip.ctx.assume(z3.And(FREE >= zi(lo), FREE <= zi(hi)))
    m = ip.resolve(ip.get_attr(self, "slots"))
    ip.slot_free_in = m
    return SInt(FREE)


def scope_declare(o):
    """a new variable: not declared in this scope before, with the given slot or a free one, at most 255; nothing else changes"""
    n, t = text("x"), SymType(z3.Const("t", TY))
    z = zs(n)
    given = z3.Int("given")
    c = set()
    for with_slot in (True, False):
        def build(ip, with_slot=with_slot):
            s = one()
            v = ip.call(ip.get_attr(s, "declare_scratch_var"), [n, t], {"max_slot": SInt(given) if with_slot else None})
            return s, v

        for r in runs(o, build, {"Scope.find_slot": found_slot}):
            if r.kind == "raise":
                c.add("raise")
                if not r.ctx.valid(z3.Or(H1["slots"](z), given > 255)) and with_slot:
                    raise Refuted("a new name is rejected")
                continue
            s, v = r.value
            must(r, z3.Not(H1["slots"](z)), "a name declared before is accepted")
            slot = zi(r.ip.get_attr(v, "scratch_slot"))
            must(r, slot == (given if with_slot else FREE), "another slot than the free one")
            if with_slot:
                must(r, slot <= 255, "a slot above 255")
            if repr(r.ip.get_attr(v, "name")) != repr(n) or r.ip.get_attr(v, "tealish_type") is not t:
                raise Refuted("the variable has another name or type")
            m = s.slots
            if [(la[0], la[1].eq(z), la[2] is v) for la in m.layers] != [("set", True, True)]:
                raise Refuted("what is declared in the scope")
            if any(getattr(s, f).layers for f in FIELDS[1:]):
                raise Refuted("other names of the scope changed")
            c.add("ok")
    if c != {"ok", "raise"}:
        raise Refuted(f"only {c}")
    return 2


def scope_simple(o):
    """declare_/lookup_/delete_/update: exactly the entry of the given name"""
    n, z = text("x"), z3.String("x")
    c = 0
    for fn, f, args in (("declare_function", "functions", True), ("declare_const", "consts", True), ("declare_block", "blocks", True), ("delete_var", "slots", False)):
        val = Opaque("decl")

        def build(ip):
            s = one()
            ip.call(ip.get_attr(s, fn), [n] + ([val] if args else []), {})
            return s
        for r in runs(o, build):
            if r.kind != "ok":
                raise Refuted(f"{fn} fails: {r.value!r}")
            y = fresh("y", STR)
            s = r.value
            for g in FIELDS:
                ls = s.__dict__[g].layers
                if g != f and ls:
                    raise Refuted(f"{fn} changes {g}")
                if g == f:
                    if args and [(la[0], la[1].eq(z), la[2] is val) for la in ls] != [("set", True, True)]:
                        raise Refuted(f"{fn}: {ls}")
                    if not args and not all(la[0] == "del" and la[1].eq(z) for la in ls):
                        raise Refuted(f"{fn}: {ls}")
                    if not args and not ls:
                        must(r, z3.Not(H1["slots"](z)), "the variable is kept")
            c += 1
    for fn, f in (("lookup_func", "functions"), ("lookup_var", "slots"), ("lookup_const", "consts")):
        for r in runs(o, lambda ip: ip.call(ip.get_attr(one(), fn), [n], {})):
            if r.kind == "raise":
                if not isinstance(r.value, KeyError):
                    raise Refuted(f"{fn} raises {r.value!r}")
                must(r, z3.Not(H1[f](z)), f"{fn} misses a declared name")
            else:
                v = r.value
                if not isinstance(v, Decl) or v.kind != f or not v.x.eq(z):
                    raise Refuted(f"{fn} finds {v!r}")
                must(r, H1[f](z), f"{fn} finds an undeclared name")
            c += 1

    def build(ip):
        s, other = one(), whole_scope(ip, None)
        ip.call(ip.get_attr(s, "update"), [other], {})
        return s, other
    for r in runs(o, build):
        s, other = r.value
        for f in FIELDS:
            ls = s.__dict__[f].layers
            if len(ls) != 1 or ls[0][0] != "map" or ls[0][1].name != other.__dict__[f].name:
                raise Refuted(f"update of {f}")
        c += 1
    return c


def scope_init(o):
    """a new scope is empty, has the given parent, the full range of slots and the joined name"""
    c = 0
    for named in (False, True, None):
        pname = text("outer")

        def build(ip, named=named):
            ip.ctx.assume(z3.Length(zs(pname)) > 0)
            p = None if named is None else Opaque("parent scope", attrs={"name": pname if named else "", "parent": None})
            return p, ip.call(scope_mod.Scope, [text("inner"), p], {})
        for r in runs(o, build):
            p, s = r.value
            want = Rope([pname, "__", text("inner")]) if named else text("inner")
            if repr(r.ip.get_attr(s, "name")) != repr(want):
                raise Refuted(f"the name of a scope is {s.name!r}")
            if s.__dict__["parent"] is not p or any(s.__dict__[f] != {} for f in FIELDS) or tuple(s.slot_range) != (0, 200):
                raise Refuted("a new scope is not empty or not inside its parent")
            if len({id(s.__dict__[f]) for f in FIELDS}) != 4:
                raise Refuted("two kinds of names share a dictionary")
            c += 1
    return c


# -- declaration of a variable at a node ------------------------------------------------------
MAXS = z3.Int("max_slot")


def node_declare(o):
    """a variable: not visible before; its slot differs from that of every visible variable (outside of functions: the free one of the
    whole visible scope; inside: above every slot used so far), and is counted"""
    n, tn = text("x"), text("tname")
    z = zs(n)
    T0 = SymType(z3.Const("the type", TY))
    x = z3.Const("x!d", STR)
    y = z3.Const("y!d", STR)
    seen = set()

    def build(ip):
        cache = {}
        comp = compiler(max_slot=SInt(MAXS))
        me = at(cache, compiler=comp)
        me.__dict__["parent"] = Opaque("parent", attrs={"compiler": comp})
        ip.comp, ip.cache = comp, cache
        ip.contracts = {**ip.contracts, **current(cache)}
        return ip.call(ip.get_attr(me, "declare_scratch_var"), [n, tn], {})

    def type_of(ip, name):
        if ip.ctx.decide(2, "the type is known") == 1:
            raise PyRaise(KeyError("type"))
        ip.type_name = name
        return T0

    every = z3.ForAll([x], z3.Implies(VIS["slots"](x), z3.And(SLOTK(LEV["slots"](x), x) >= 0, SLOTK(LEV["slots"](x), x) <= MAXS)))
    base = vis_facts() + [N >= 1, MAXS >= 0, every]
    for r in runs(o, build, {**VISIBLE, "get_type_instance": type_of, "Scope.find_slot": found_slot}, base=base):
        if r.kind == "raise":
            seen.add("raise")
            continue
        seen.add("ok")
        v = r.value
        slot = zi(r.ip.get_attr(v, "scratch_slot"))
        must(r, z3.Not(VIS["slots"](z)), "a visible name is declared again")
        if r.ip.type_name is not tn and repr(r.ip.type_name) != repr(tn) or r.ip.get_attr(v, "tealish_type") is not T0 or repr(r.ip.get_attr(v, "name")) != repr(n):
            raise Refuted("the name or type of the variable")
        vis = z3.And(VIS["slots"](y), y != z)
        infunc = z3.Contains(SCNAME(0), z3.StringVal("func__"))
        free = getattr(r.ip, "slot_free_in", None)
        if free is None:
            must(r, z3.Implies(vis, slot != SLOTK(LEV["slots"](y), y)), "a visible variable has the same slot")
            must(r, z3.And(slot > MAXS, slot <= 255), "a slot that was used before, or none at all")
        else:
            # find_slot's contract: free in the dictionary it looked at, which must hold every visible variable with its slot
            must(r, z3.Not(infunc), "a variable of a function shares a slot of the code that calls it")
            ls = [la for la in free.layers if not (la[0] == "set" and la[1].eq(z))]
            if len(ls) != 1 or ls[0][0] != "map" or ls[0][1].name != "visible slots" or ls[0][1].layers or free.name != "slots of scope 0":
                raise Refuted("a slot is chosen without looking at every visible variable")
            # the dictionary is that of the current scope with all visible ones: an entry only of the scope itself is visible too
            must(r, z3.Implies(HAS["slots"](0, y), VIS["slots"](y)), "an entry of the scope that is not visible")
        m = r.ip.cache.get(("slots", "0"))
        if not any(la[0] == "set" and la[1].eq(z) and la[2] is v for la in m.layers[-1:]):
            raise Refuted("the variable is not declared in the current scope")
        must(r, zi(r.ip.comp.attrs["max_slot"]) == z3.If(slot > MAXS, slot, MAXS), "the slots used so far")
    if seen != {"ok", "raise"}:
        raise Refuted(f"only {seen}")
    return len(seen)


def scopes_of_nodes(o):
    """new_scope: a scope inside that of the parent; a node without one of its own is in its parent's"""
    c = 0
    makers = [nodes.Node] + sorted((k for k in vars(nodes).values() if isinstance(k, type) and issubclass(k, nodes.Node) and k is not nodes.Node
                                    and "get_current_scope" in k.__dict__), key=lambda k: k.__name__)
    for has_parent in makers + [None]:
        def build(ip, has_parent=has_parent):
            ps = mk(scope_mod.Scope, name="", parent=None)
            p = mk(has_parent, current_scope=ps) if has_parent else None
            n = mk(nodes.Node, parent=p, current_scope=Opaque("none"))
            ip.call(ip.get_attr(n, "new_scope"), [text("inner")], {})
            return ps, n, ip.call(ip.get_attr(n, "get_current_scope"), [], {})
        for r in runs(o, build):
            if r.kind != "ok":
                raise Refuted(f"{r.value!r}")
            ps, n, s = r.value
            if s is not n.__dict__["current_scope"] or type(s) is not scope_mod.Scope or s.__dict__["parent"] is not (ps if has_parent else None) or repr(s.name) != repr(text("inner")):
                raise Refuted("a new scope is not inside the scope of the parent")
            if tuple(s.slot_range) != (0, 200):
                raise Refuted("the range of slots of a scope")
            c += 1

    for k in makers:
        def build(ip, k=k):
            cur = Opaque("scope of the parent")
            p = mk(k, current_scope=cur)
            n = mk(base_mod.BaseNode, parent=p)
            return cur, ip.call(ip.get_attr(n, "get_current_scope"), [], {})
        for r in runs(o, build):
            if r.kind != "ok" or r.value[1] is not r.value[0]:
                raise Refuted("an expression is not in the scope of its statement")
            c += 1
    return c


def scope_makers(o):
    """who has a scope of its own, and under which names functions, blocks and loops are declared where"""
    c = 0
    for cls, fields, want, declares in (
        (nodes.Func, dict(name=text("f"), args=Opaque("args"), return_type="", returns=[]), Rope(["func__", text("f")]), "declare_function"),
        (nodes.Block, dict(name=text("b")), text("b"), "declare_block"),
        (nodes.ForStatement, dict(var_name=text("v"), start=expr("a")(), end=expr("b")()), Rope(["for__", IntText(z3.Int("count0"))]), None),
        (nodes.For_Statement, dict(start=expr("a")(), end=expr("b")()), Rope(["for__", IntText(z3.Int("count0"))]), None),
        (nodes.WhileStatement, dict(condition=expr("a")(), modifier=None), Rope(["while__", IntText(z3.Int("count0"))]), None),
    ):
        def build(ip):
            log = []
            ip.contracts = {**ip.contracts, "Node.__init__": node_init(**fields),
                            "Node.new_scope": lambda ip, self, name="", slot_range=None: log.append(("scope", self, name, slot_range)),
                            "Scope.declare_function": lambda ip, self, name, fn: log.append(("declare_function", self, name, fn)),
                            "Scope.declare_block": lambda ip, self, name, fn: log.append(("declare_block", self, name, fn))}
            p = outer()
            n = ip.call(cls, [text("line", False, "line"), p, compiler(conditional_count=SInt(z3.Int("count0")))], {})
            return log, n, p
        for r in runs(o, build):
            if r.kind != "ok":
                raise Refuted(f"{cls.__name__}: {r.value!r}")
            log, n, p = r.value
            sc = [e for e in log if e[0] == "scope"]
            if len(sc) != 1 or sc[0][1] is not n or repr(sc[0][2]) != repr(want) or sc[0][3] is not None:
                raise Refuted(f"the scope of a {cls.__name__}: {sc}")
            de = [e for e in log if e[0] != "scope"]
            if declares is None:
                if de:
                    raise Refuted(f"{cls.__name__} declares {de}")
            elif [e[0] for e in de] != [declares] or de[0][3] is not n or repr(de[0][2]) != repr(fields["name"]) or getattr(de[0][1], "name", "") != "scope" or log[0] is not de[0]:
                raise Refuted(f"where a {cls.__name__} is declared: {de}")
            c += 1
    return c


# -- order of processing -----------------------------------------------------------------------
def functions_last(o):
    """every child is processed once: first those that are no functions in order, then the functions"""
    n = z3.Int("n_nodes")
    isf = z3.Function("is function", I, z3.BoolSort())
    count = 0
    lst = 3

    # bounded in the number of children, for every choice of which are functions
    import itertools
    for size in range(0, 5):
        for kinds in itertools.product((nodes.Func, nodes.DecoratedFunc, nodes.Block, nodes.Assignment), repeat=min(size, 4)):
            def build(ip, kinds=kinds):
                ns = [Hole(Family(f"n{i}", "stmt", cls=k), ()) for i, k in enumerate(kinds)]
                ip.call(nodes.process_functions_last, [ns], {})
                return [e.obj.name for e in ip.effects if e.what == "process"]
            fs = (nodes.Func, nodes.DecoratedFunc)
            want = [f"n{i}" for i, k in enumerate(kinds) if k not in fs] + [f"n{i}" for i, k in enumerate(kinds) if k in fs]
            for r in runs(o, build, {}):
                if r.kind != "ok" or r.value != want:
                    raise Refuted(f"children {[k.__name__ for k in kinds]} are processed in the order {r.value}")
            count += 1
    return count


def processes_last(o):
    """program and block process their children by process_functions_last, and nothing before; the flag of inner groups gets a slot above all"""
    c = 0
    for cls, macro in ((nodes.Program, False), (nodes.Program, True), (nodes.Block, None)):
        def build(ip, cls=cls, macro=macro):
            kids = SList("children", z3.Int("n_children"), lambda i: stmt("child")(i))
            comp = compiler(use_inner_txns_macro=macro, max_slot=SInt(MAXS))
            s = one()
            n = mk(cls, nodes=kids, child_nodes=kids, compiler=comp, current_scope=s, parent=None)
            ip.contracts = {**ip.contracts, "process_functions_last": lambda ip, ns: ip.effects.append(Event("last", ns))}
            ip.call(ip.get_attr(n, "process"), [], {})
            return n, kids, comp, s
        for r in runs(o, build, base=[z3.Int("n_children") >= 0, MAXS >= 0]):
            if r.kind == "raise":
                if macro and (r.ctx.valid(MAXS + 1 > 255) or r.ctx.valid(z3.Or(MAXS + 1 > 255, H1["slots"](z3.StringVal("inner_group_flag"))))):
                    continue
                raise Refuted(f"{cls.__name__}: {r.value!r}")
            n, kids, comp, s = r.value
            ev = r.ip.effects
            if len(ev) != 1 or not isinstance(ev[0], Event) or ev[0].what != "last" or ev[0].obj is not kids:
                raise Refuted(f"how a {cls.__name__} processes its children: {ev}")
            if macro:
                la = s.slots.layers
                if len(la) != 1 or la[0][0] != "set":
                    raise Refuted("the flag of inner groups is not declared")
                must(r, zi(la[0][2].scratch_slot) > MAXS, "the flag of inner groups shares a slot")
            c += 1
    return c


def writers_of_slots(o):
    """closed world: slots are given only by Scope.declare_scratch_var, scopes' dictionaries and the count of slots change nowhere else"""
    import ast
    import glob
    import os

    import tealish

    allowed = {"scratch_slot": {"Scope.declare_scratch_var"}, "slots": {"Scope.__init__"}, "functions": {"Scope.__init__"}, "blocks": {"Scope.__init__"},
               "consts": {"Scope.__init__"}, "slot_range": {"Scope.__init__"}, "max_slot": {"TealishCompiler.__init__", "TealishCompiler.parse", "BaseNode.declare_scratch_var", "Program.process"}}
    calls = {"declare_scratch_var", "find_slot", "delete_var"}
    found, seen = 0, set()
    for path in sorted(glob.glob(os.path.join(os.path.dirname(tealish.__file__), "*.py"))):
        tree = ast.parse(open(path).read())

        def walk(node, qual):
            nonlocal found
            for ch in ast.iter_child_nodes(node):
                q = qual
                if isinstance(ch, (ast.ClassDef, ast.FunctionDef)):
                    q = qual + [ch.name]
                if isinstance(ch, ast.Attribute) and isinstance(ch.ctx, (ast.Store, ast.Del)) and ch.attr in allowed:
                    name = ".".join(qual)
                    if name not in allowed[ch.attr]:
                        raise Unsupported(f"{ch.attr} is set in {name}")
                    found += 1
                if isinstance(ch, ast.Call) and isinstance(ch.func, ast.Name) and ch.func.id == "setattr" and not (len(ch.args) > 1 and isinstance(ch.args[1], ast.Name)):
                    raise Unsupported("setattr")
                if isinstance(ch, ast.Attribute) and ch.attr == "slots" and isinstance(ch.ctx, ast.Load):
                    seen.add(".".join(qual))
                walk(ch, q)
        walk(tree, [])
    extra = {s for s in seen if not s.startswith("Scope.") and s != "BaseNode.get_slots"}
    if extra:
        raise Unsupported(f"the dictionary of a scope is used in {extra}")
    return found


ASSUMPTIONS = [
    "C04: the contracts give: a variable outside of functions gets a slot no visible variable has; a variable of a function gets one above all given before it; "
    "functions are processed after everything else of their block. That a function is only called from code whose variables already have their slots then follows "
    "from the visibility of names (prose argument in DESIGN.md); whole programs are covered by the bounded part",
]
OBLIGATIONS = [
    ("get_scopes: the whole chain", get_scopes), ("get_slots", visible_maps("get_slots", "slots")), ("get_blocks", visible_maps("get_blocks", "blocks")), ("get_scope", get_scope),
    ("lemma: visible is the innermost declaration", lemma_innermost),
    ("lookup_var", lookups("lookup_var", "slots", KeyError)), ("lookup_func", lookups("lookup_func", "functions", KeyError)),
    ("lookup_const", lookups("lookup_const", "consts", KeyError)), ("get_block", lookups("get_block", "blocks", KeyError)), ("get_var", lookups("get_var", "slots", None)),
    ("find_slot", find_slot), ("lemma: slots in use", used_lemma), ("Scope.declare_scratch_var", scope_declare), ("Scope: declare, lookup, delete, update", scope_simple),
    ("Scope.__init__", scope_init), ("declare_scratch_var", node_declare), ("scopes of nodes", scopes_of_nodes), ("who has a scope", scope_makers),
    ("process_functions_last (bounded: 4 children)", functions_last), ("program, block: order of processing", processes_last), ("closed world: who gives slots", writers_of_slots),
]
