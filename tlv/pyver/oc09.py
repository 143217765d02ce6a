"""C09: inner transactions and inner groups."""
import z3

from . import sem
from .domain import *  # noqa: F401,F403
from .domain import Event
from .interp import ForEach, fresh
from .maps import MapV
from .oc02 import compiler, node_init, outer
from .oc03 import must_
from .sem import Instr, Loc, Outcome, Refuted, Seg, V, is_B, is_I
from .values import *  # noqa: F401,F403

STR, I = z3.StringSort(), z3.IntSort()
FLAG = z3.Int("slot of the flag")
N = z3.Int("n_children")
CHILD = stmt("child")


# -- the routines -----------------------------------------------------------------
# the flag: 0 no group, 1 a group without a transaction yet, 2 a group with transactions
def flag(m):
    v = m.load(FLAG)
    return v


def at(m, n):
    return m.ctx.branch(V.n(flag(m)) == n)


def group_begin(m):
    v = flag(m)
    m.require(z3.And(is_I(v), V.n(v) == 0))
    m.store(FLAG, V.I(1))


def begin(m):
    m.require(is_I(flag(m)))
    if at(m, 0):
        m.op("itxn_begin", [], [])
    elif at(m, 1):
        m.op("itxn_begin", [], [])
        m.store(FLAG, V.I(2))
    elif at(m, 2):
        m.op("itxn_next", [], [])
    else:
        return m.fail() if hasattr(m, "fail") else Outcome("fail")


def submit(m):
    m.require(is_I(flag(m)))
    if at(m, 0):
        m.op("itxn_submit", [], [])


def group_submit(m):
    m.op("itxn_submit", [], [])
    m.store(FLAG, V.I(0))


ROUTINES = {"_itxn_begin": begin, "_itxn_submit": submit, "_itxn_group_begin": group_begin, "_itxn_group_submit": group_submit}
CALLS = {repr(k): f for k, f in ROUTINES.items()}


def program(ip, macro, kids):
    var = Opaque("Var", attrs={"scratch_slot": SInt(FLAG)})
    ip.contracts = {**ip.contracts, "BaseNode.get_var": lambda ip, self, name: flag_var(ip, name, var)}
    return mk(nodes.Program, nodes=kids, child_nodes=kids, compiler=compiler(use_inner_txns_macro=macro), parent=None)


def flag_var(ip, name, var):
    if name != "inner_group_flag":
        raise Refuted(f"the routines use the variable {name}")
    return var


def routines(o):
    """the four routines do what the groups need, whatever the flag"""
    c = 0
    for label, spec in ROUTINES.items():
        def build(ip):
            n = program(ip, True, [])
            ip.call(ip.get_attr(n, "write_teal"), [SymWriter()], {})
            return n

        def start(m, r, spec=spec):
            x = spec(m)
            return x if isinstance(x, Outcome) else Outcome("retsub", stack=[])

        for r in runs(o, build, base=[FLAG >= 0, FLAG < 256]):
            if r.kind != "ok":
                raise Refuted(f"{r.value!r}")
            c += simulate([Instr("b", [label], None)] + r.ip.out, lambda m, r=r: start(m, r), None, None, r.facts())
    return c


def appended(o):
    """the routines follow the program's code, and only where they are used"""
    c = 0
    for macro in (True, None, False):
        def build(ip, macro=macro):
            n = program(ip, macro, many(CHILD, N))
            ip.call(ip.get_attr(n, "write_teal"), [SymWriter()], {})
            return n

        def start(m, r):
            x = m.body(CHILD(z3.IntVal(0)), (z3.IntVal(0), N))
            if x is not None:
                return x if isinstance(x, Outcome) else m.fail()
            return m.end()

        for r in runs(o, build, base=[FLAG >= 0, FLAG < 256, N >= 0]):
            if r.kind != "ok":
                raise Refuted(f"{r.value!r}")
            code = sem.compile_items(r.ip.out)
            labels = [x.text for x in code if isinstance(x, sem.Label)]
            calls = [x for x in code if not isinstance(x, (sem.Label, sem.Seq, sem.Instr))]
            if calls:
                raise Unsupported(f"{calls}")
            first = [x for x in code if isinstance(x, sem.Seq)]
            if macro:
                for l in ROUTINES:
                    if labels.count(l) != 1:
                        raise Refuted(f"{l} is defined {labels.count(l)} times")
            elif len(code) > len(first):
                raise Refuted(f"the program is followed by {code[len(first):]}")
            if len(first) != 1 or code[0] is not first[0] or repr(first[0].hole.family.name) != repr(CHILD.name):
                raise Refuted("the program's statements are not written first, in order")
            must_(r, z3.And(first[0].n == N, first[0].off == 0), "the statements written")
            c += 1
    return c


OBLIGATIONS = [("the routines for inner transactions", routines), ("where the routines are", appended)]


# -- what is written -----------------------------------------------------------------
E_ = expr("e")
CI = z3.Int("conditional_count")


def ancestor(ip, self, cls):
    """find_parent: there is one of the class, or none"""
    if ip.ctx.branch(z3.Bool(f"inside {cls.__name__}")):
        return Opaque(cls.__name__, attrs={}, cls=cls)
    return None


def write(ip, n):
    ip.contracts = {**ip.contracts, "BaseNode.find_parent": ancestor}
    ip.call(ip.get_attr(n, "write_teal"), [SymWriter()], {})
    return n


def statement(cls, start_):
    def f(o):
        c = 0
        for macro in ((True, False, None) if cls is nodes.InnerTxn else (True,)):
            def build(ip, macro=macro):
                kids = many(CHILD, N)
                n = mk(cls, child_nodes=kids, nodes=kids, compiler=compiler(use_inner_txns_macro=macro), parent=outer(), group=None, group_index=0, inners=[])
                return n
            c += means(o, build, lambda m, r, macro=macro: start_(m, macro), base=[FLAG >= 0, FLAG < 256, N >= 0], env=sem.Env(calls=CALLS), prepare=write)
        return c
    return f


def txn_ref(m, macro):
    x = begin(m) if macro else m.op("itxn_begin", [], [])
    if isinstance(x, Outcome):
        return x
    x = m.body(CHILD(z3.IntVal(0)), (z3.IntVal(0), N))
    if x is not None:
        return x if isinstance(x, Outcome) else m.fail()
    if macro:
        submit(m)
    else:
        m.op("itxn_submit", [], [])
    return m.end()


def group_ref(m, macro):
    group_begin(m)
    x = m.body(CHILD(z3.IntVal(0)), (z3.IntVal(0), N))
    if x is not None:
        return x if isinstance(x, Outcome) else m.fail()
    group_submit(m)
    return m.end()


def setter(o):
    """one evaluation, one itxn_field with the name as written"""
    def build(ip):
        return node(nodes.InnerTxnFieldSetter, field_name=text("field_name"), index=OneOf("index", [(z3.Bool("indexed"), text("index")), (z3.Not(z3.Bool("indexed")), None)]),
                    expression=E_(), compiler=compiler(), parent=outer())

    def ref(m, r):
        v = m.eval1(E_())
        m.op("itxn_field", [text("field_name")], [v])
        return m.end()

    return means(o, build, ref, base=[shape("e") == 1], prepare=write)


OBLIGATIONS += [("an inner transaction", statement(nodes.InnerTxn, txn_ref)), ("an inner group", statement(nodes.InnerGroup, group_ref)), ("a field of an inner transaction", setter)]


# -- what is accepted ------------------------------------------------------------------
ISC = z3.Function("is comment", I, z3.BoolSort())
FN = z3.Function("field name", I, STR)
HASIX = z3.Function("has index", I, z3.BoolSort())
IXT = z3.Function("index text", I, STR)
NUM = z3.Function("number written", STR, I)
KNOWNF = z3.Function("is a field", STR, z3.BoolSort())
CNT = z3.Function("elements so far", I, STR, I)
EXPR = expr("value")
MEM = z3.Function("element of array", I, I, I)


def isa_item(cls, i):
    if cls is nodes.Comment:
        return ISC(i)
    if cls is nodes.InnerTxnFieldSetter:
        return z3.Not(ISC(i))
    return None


ITEM = Family("item", "stmt", cls=base.BaseNode, fields=dict(
    isa=isa_item, field_name=lambda i: Rope([Atom(FN(i), safe=True)]), expression=lambda i: EXPR(i),
    index=lambda i: OneOf(f"index {i}", [(HASIX(i), Rope([Atom(IXT(i), safe=True)])), (z3.Not(HASIX(i)), None)])))


class Arrays:
    """the array fields seen so far, each with its elements: a dictionary that makes lists (contract of defaultdict)"""

    pyver_symbolic = True

    def __init__(self, k):
        self.k, self.added = k, []

    def sym_getitem(self, ip, key):
        return Elements(self, zs(ip.resolve(key)))

    def sym_getattr(self, ip, name):
        if name == "values":
            return self
        raise Unsupported(f"array_fields.{name}")

    def sym_call(self, ip, args, kwargs):
        if self.added:
            raise Unsupported("values of a dictionary that changed")
        return SList("arrays", z3.Int("n_arrays"), lambda j: SList("array", z3.Function("array length", I, I)(j), lambda i: ITEM(MEM(j, i))))


class Elements:
    pyver_symbolic = True

    def __init__(self, arrays, key):
        self.arrays, self.key = arrays, key

    def sym_len(self, ip):
        n = CNT(self.arrays.k, self.key)
        for k, _ in self.arrays.added:
            n = n + z3.If(k == self.key, 1, 0)
        return n

    def sym_getattr(self, ip, name):
        if name == "append":
            return self
        raise Unsupported(f"list.{name}")

    def sym_call(self, ip, args, kwargs):
        self.arrays.added.append((self.key, args[0]))


def single_value(ip, h, e):
    """contract of check_single_value (C05)"""
    if not ip.ctx.branch(shape(e.name, *e.idx) == 1):
        from tealish.errors import CompileError

        raise PyRaise(CompileError("no single value"))
    ip.effects.append(Event("single", e))


def accepts(o):
    """a field is accepted if and only if the op knows it, its index is the next of its array, and its expression yields one value"""
    from .maps import Inv, check

    def arr(k):
        return z3.And(z3.Not(ISC(k)), HASIX(k))

    def axioms(ip, k):
        x = z3.Const("x!f", STR)
        out = [z3.ForAll([x], CNT(0, x) == 0)]
        for kk in (k - 1, k):
            out.append(z3.Implies(kk >= 0, z3.ForAll([x], CNT(kk + 1, x) == CNT(kk, x) + z3.If(z3.And(arr(kk), FN(kk) == x), 1, 0))))
        return [z3.simplify(c) for c in out]

    def put(ip, fr, k):
        ip.at_k = k
        ip.mark = len(ip.effects)
        ip.set_attr(fr.loc["self"], "array_fields", Arrays(k))

    def chk(ip, fr, k):
        a = ip.get_attr(fr.loc["self"], "array_fields")
        if isinstance(a, dict):
            if a or getattr(a, "default_factory", None) is not list:
                raise Refuted(f"the arrays are {a} before the first field")
            check(ip, k == 0, "the arrays")
            return
        if not isinstance(a, Arrays):
            raise Unsupported(f"array_fields is {a!r}")
        j = z3.simplify(k - 1)
        x = fresh("x", STR)
        n = CNT(a.k, x)
        for key, v in a.added:
            n = n + z3.If(key == x, 1, 0)
            if repr(v) != repr(ITEM(j)):
                raise Refuted(f"{v!r} is kept for the field {j}")
        check(ip, n == CNT(k, x), "the elements of an array")
        check(ip, z3.Implies(z3.Not(ISC(j)), KNOWNF(FN(j))), "an unknown field is accepted")
        check(ip, z3.Implies(arr(j), NUM(IXT(j)) == CNT(j, FN(j))), "an array element out of order is accepted")
        got = [(e.what, repr(e.obj)) for e in ip.effects[ip.mark:] if isinstance(e, Event)]
        done = got == [("process", repr(EXPR(j))), ("single", repr(EXPR(j)))]
        if got and not done:
            raise Unsupported(f"effects {got}")
        check(ip, z3.BoolVal(done) == z3.And(z3.Not(ISC(j)), z3.Not(HASIX(j))), "which fields are processed at once")

    def build(ip):
        def field_op(ip, self, name):
            if name != "itxn_field":
                raise Refuted(f"the fields of {name} are looked up")
            return Opaque("op", attrs={"arg_enum_dict": MapV("fields", KNOWNF, lambda k: Opaque("type"))})
        ip.contracts = {**ip.contracts, "BaseNode.lookup_op": field_op, ("stmt", "check_single_value"): single_value,
                        "int of text": lambda ip, t: SInt(NUM(zs(t)))}
        n = mk(nodes.InnerTxn, child_nodes=SList("children", N, lambda i: ITEM(i)), compiler=compiler(), parent=outer())
        ip.call(ip.get_attr(n, "process"), [], {})
        return n

    inv = Inv(put, chk, axioms)
    inv.own_effects = True
    c = ok = 0
    for r in runs(o, build, loops={("InnerTxn.process", "for", 0): inv}, base=[N >= 0]):
        c += 1
        if r.kind == "raise":
            k = getattr(r.ip, "at_k", None)
            if k is None:
                raise Refuted(f"rejected without a reason: {r.value!r}")
            if z3.simplify(k).eq(N):  # in the second loop: the expression of an element
                continue
            must_(r, z3.And(z3.Not(ISC(k)), z3.Or(z3.Not(KNOWNF(FN(k))), z3.And(HASIX(k), NUM(IXT(k)) != CNT(k, FN(k))), shape("value", k) != 1)), "a field is rejected without a reason")
            continue
        if r.kind != "ok":
            continue
        ok += 1
        ev = [e for e in r.ip.effects if isinstance(e, ForEach)]
        if len(ev) != 1 or len(ev) != len(r.ip.effects):
            raise Unsupported(f"effects {r.ip.effects}")
        fe = ev[0]
        must_(r, fe.n == z3.Int("n_arrays"), "an array is left out")
        for g, body in fe.alts:
            if len(body) != 1 or not isinstance(body[0], ForEach) or not z3.simplify(body[0].n).eq(z3.Function("array length", I, I)(fe.k)):
                raise Unsupported(f"effects {body}")
            e = EXPR(MEM(fe.k, body[0].k))
            for g2, b2 in body[0].alts:
                if [(x.what, repr(x.obj)) for x in b2] != [("process", repr(e)), ("single", repr(e))]:
                    raise Refuted(f"an element is not checked: {b2}")
    if not ok:
        raise Refuted("no inner transaction is ever accepted")
    return c


OBLIGATIONS += [("the fields accepted", accepts)]


# -- which form is used -----------------------------------------------------------------
IS = z3.Function("is of the class", I, z3.BoolSort())
BELOW = z3.Function("has one below", I, z3.BoolSort())


def found(o):
    """has_child_node: one of the nodes is of the class or has one below it (so, by induction, any descendant)"""
    fam = Family("item", "stmt", cls=base.BaseNode, fields=dict(isa=lambda cls, i: IS(i) if cls is nodes.InnerGroup else None))

    def below(ip, h, cls):
        if cls is not nodes.InnerGroup:
            raise Refuted("another class is looked for")
        return SBool(BELOW(h.idx[0]))

    def build(ip):
        ip.contracts = {**ip.contracts, ("stmt", "has_child_node"): below}
        n = mk(nodes.Program, nodes=SList("nodes", N, lambda i: fam(i)), compiler=compiler(), parent=None)
        return ip.truth(ip.call(ip.get_attr(n, "has_child_node"), [nodes.InnerGroup], {}))

    i = z3.Int("i!x")
    some = z3.Exists([i], z3.And(i >= 0, i < N, z3.Or(IS(i), BELOW(i))))
    c = 0
    for r in runs(o, build, base=[N >= 0]):
        if r.kind != "ok":
            raise Refuted(f"{r.value!r}")
        must_(r, some if r.value else z3.Not(some), f"{r.value} is wrong")
        c += 1
    return c


def form(o):
    """the routines are used if and only if the program has an inner group somewhere; decided before anything is written"""
    has = z3.Bool("has an inner group")
    c = 0

    def build(ip):
        def look(ip, self, cls):
            if cls is not nodes.InnerGroup:
                raise Unsupported(f"has_child_node({cls})")
            ip.effects.append(Event("look", self))
            return SBool(has)

        def declare(ip, self, name, ty, above):
            ip.effects.append(Event("declare", name, ty, above))
            return Opaque("var", attrs={"scratch_slot": above})
        ip.contracts = {**ip.contracts, "BaseNode.has_child_node": look, "process_functions_last": lambda ip, ns: ip.effects.append(Event("children", ns)),
                        "Scope.declare_scratch_var": declare}
        kids = many(CHILD, N)
        n = mk(nodes.Program, nodes=kids, child_nodes=kids, compiler=compiler(use_inner_txns_macro=None), parent=None, current_scope=Opaque("scope", attrs={}, cls=__import__("tealish.scope").scope.Scope))
        ip.call(ip.get_attr(n, "process"), [], {})
        return n

    for r in runs(o, build, base=[N >= 0]):
        if r.kind != "ok":
            raise Refuted(f"{r.value!r}")
        macro = r.ip.get_attr(r.value.compiler, "use_inner_txns_macro")
        on = r.ip.truth(macro)
        must_(r, has if on else z3.Not(has), "the routines are chosen" if on else "the routines are not chosen")
        d = [e for e in r.ip.effects if isinstance(e, Event) and e.what == "declare"]
        if on != (len(d) == 1) or d and d[0].obj != "inner_group_flag":
            raise Refuted(f"the flag is declared: {d}")
        c += 1
    return c


OBLIGATIONS += [("an inner group is found wherever it is", found), ("when the routines are used", form)]
ASSUMPTIONS = ["the flag starts as 0 (scratch space of a new program) and only the routines write it (slots are given once: C04)",
               "an inner group left by a jump or return keeps its flag, as in the reference; the reference fails a second group begun then"]
