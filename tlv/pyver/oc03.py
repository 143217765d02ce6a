"""C03: calls, returns and assignments bind by position."""
from . import sem
from .domain import *  # noqa: F401,F403
from .oc01 import FLABEL, NA, NR, called, closed_world, subroutine, userfunc  # noqa: F401
from .oc02 import compiler, made, outer, with_children
from .sem import Loc, Outcome, Seg, V

STR = z3.StringSort()
DECLARED = z3.Function("declared", STR, z3.BoolSort())
SLOT = z3.Function("slot of", STR, z3.IntSort())
VTYPE = z3.Function("type of", STR, TY)


class SymVar:
    """the variable a name stands for, by the name"""

    pyver_symbolic = True

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<variable {self.name}>"

    def sym_getattr(self, ip, name):
        if name == "scratch_slot":
            return SInt(SLOT(self.name))
        if name == "tealish_type":
            return SymType(VTYPE(self.name))
        if name == "avm_type":
            return Opaque("avm type")
        if name == "name":
            return Rope([Atom(self.name, safe=True)])
        raise Unsupported(f"{name} of a variable")

    def sym_truth(self, ip):
        return True

    def sym_eq(self, ip, o):
        if o is None:
            return False
        raise Unsupported("comparison of variables")

    def subst(self, k, t):
        return SymVar(z3.simplify(z3.substitute(self.name, (k, t))))


def get_var(ip, self, name):
    """contract of get_var: the variable of that name visible here, or None"""
    z = zs(ip.resolve(name))
    if not ip.ctx.branch(DECLARED(z)):
        return None
    return SymVar(z)


def lookup_var(ip, self, name):
    v = get_var(ip, self, name)
    if v is None:
        raise PyRaise(KeyError("not declared"))
    return v


# -- function bodies ----------------------------------------------------------------
BODY = stmt("body")
PNAME = uf("pname", [z3.IntSort()], STR)


def pname(i):
    return Rope([Atom(PNAME(i), safe=True)])


def func(ip):
    args = Opaque("params", attrs={"args": SList("params", NA, lambda i: (pname(i), Rope([Atom(uf("ptype", [z3.IntSort()], STR)(i), safe=True)])))})
    n = node(nodes.Func, name=text("fname"), label=FLABEL, args=args, vars=Vars(), compiler=compiler())
    return with_children(n, BODY)


class Vars:
    """Func.vars: a dictionary from parameter names to variables"""

    pyver_symbolic = True

    def sym_getitem(self, ip, key):
        return SymVar(zs(ip.resolve(key)))

    def sym_setitem(self, ip, key, value):
        ip.effects.append(Event("param", key, value))


def func_body(o):
    """parameter i receives the value of position i, then the body runs"""
    bn = z3.Int("n_body")

    def build(ip):
        n = func(ip)
        return n

    def write(ip, n):
        ip.call(ip.get_attr(n, "write_teal"), [SymWriter()], {})
        return n

    args = z3.Const("args", sem.ARR)

    def body(m):
        x = m.body(BODY(z3.IntVal(0)), (z3.IntVal(0), bn))
        return m.end() if x is None else x

    def start(m, r):
        if m.ctx.branch(NA > 0):
            return m.goto("param", i=z3.IntVal(0))
        return body(m)

    def param(m, p):
        j = NA - 1 - p.i
        m.store(SLOT(PNAME(j)), z3.Select(args, j))
        if m.ctx.branch(p.i + 1 < NA):
            return m.goto("param", i=p.i + 1)
        m.stack = []
        return body(m)

    loc = Loc(param, {"i": z3.IntSort()}, lambda p: z3.And(p.i >= 0, p.i < NA), stack=lambda p: [Seg(args, 0, NA - p.i)], ks=lambda p: [p.i])

    def post(r):
        code = sem.compile_items(r.ip.out)
        if not code or not isinstance(code[0], sem.Label) or repr(code[0].text) != repr(FLABEL):
            raise Refuted("the code of a function does not start with its label")

    total = ok = 0
    for r in runs(o, lambda ip: write(ip, build(ip)), base=[NA >= 0, bn >= 0]):
        if r.kind != "ok":
            continue
        ok += 1
        post(r)
        possible = not r.ctx.valid(NA <= 0)
        total += sem.simulate(r.ip.out, lambda m, r=r: start(m, r), {"param": loc} if possible else {}, sem.Env(), r.facts(), [Seg(args, 0, NA)])
    if not ok:
        raise Refuted("a function is never written")
    return total


def func_process(o):
    """every parameter is declared once, with its type, before the body is processed; it is what the body's stores use"""
    def declare(ip, self, name, ty):
        ip.effects.append(Event("declare", self, name, ty))
        return SymVar(zs(ip.resolve(name)))

    c = 0
    bn = z3.Int("n_body")
    for r in runs(o, lambda ip: (lambda n: (ip.call(ip.get_attr(n, "process"), [], {}), n)[1])(func(ip)), {"BaseNode.declare_scratch_var": declare}, base=[NA > 0, bn > 0]):
        if r.kind != "ok":
            raise Refuted(f"rejected: {r.value}")
        ev = r.ip.effects
        if len(ev) != 2 or any(not isinstance(e, sem.ForEach) for e in ev):
            raise Unsupported(f"effects {ev}")
        a, b = ev
        (ga, ea), = a.alts
        (gb, eb), = b.alts
        must_(r, a.n == NA, "number of parameters declared")
        must_(r, b.n == bn, "number of statements processed")
        d, = [e for e in ea if e.what == "declare"]
        s, = [e for e in ea if e.what == "param"]
        idx = d.info[0].parts[0].term.arg(0)
        j = z3.Int("j!p")
        must_(r, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < NA), z3.Exists([a.k], z3.And(a.k >= 0, a.k < NA, idx == j)))), "every parameter is declared")
        if repr(d.info[1].parts[0].term.arg(0)) != repr(idx) or repr(s.obj) != repr(d.info[0]) or not s.info[0].name.eq(PNAME(idx)):
            raise Refuted("a parameter is declared with another's type or name")
        if len(eb) != 1 or eb[0].what != "process" or eb[0].obj.name != "body" or not z3.simplify(eb[0].obj.idx[0] - b.k).eq(z3.IntVal(0)):
            raise Refuted(f"how the body is processed: {eb}")
        c += 1
    return c


def must_(r, c, what):
    ctx = r.ctx
    x, model = solve(r.facts() + [z3.Not(c)], 8000)
    if x == z3.unsat:
        return
    if x == z3.unknown:
        raise Unsupported(f"{what}: not decided")
    raise Refuted(what)


# -- return ---------------------------------------------------------------------------
NV = z3.Int("nvalues")
VAL = expr("val")


def return_(o):
    """the values, the first on top, then back to the caller; each held by the declared type of its position"""
    def build(ip):
        f = Opaque("func", attrs={"returns": SList("returns", NR, lambda i: SymType(type_terms("ret", i)))})
        vals = many(VAL, NV)
        n = node(nodes.Return, func=f, args_expressions=vals, args=OneOf("text of the values", [(NV > 0, text("args")), (NV == 0, "")]))
        n.nodes = SList("reversed", NV, lambda i: VAL(NV - 1 - i))
        return n

    def ref(m, r):
        if m.ctx.branch(NV == 0):
            return Outcome("retsub", stack=[])
        v = m.eval_seq(VAL(z3.IntVal(0)), NV, True)
        return Outcome("retsub", stack=[Seg(v, 0, NV)])

    def post(r):
        j = z3.Int("j!t")
        t, x = type_terms("ret", j), type_term("val", j)
        single = shape("val", j) == 1
        must_(r, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < NR), z3.And(single, holds(KIND(t), SIZE(t), KIND(x), SIZE(x))))), "a returned value that its declared type does not hold is accepted")

    return means(o, build, ref, base=[NV >= 0, NV == NR], post=post)


def return_number(o):
    """Return.__init__: as many values as the function declares, or an error; none outside a function"""
    c = 0
    for inside in (True, False):
        def build(ip, inside=inside):
            f = Opaque("func", attrs={"returns": SList("returns", NR, lambda i: SymType(type_terms("ret", i)))}, cls=nodes.Func)
            texts = SList("texts", NV, lambda i: Rope([Atom(uf("valtext", [z3.IntSort()], STR)(i), safe=True)]))

            def split(ip, s):
                return texts

            def parse(ip, cls_or_text, *a):
                t = cls_or_text if is_str(cls_or_text) else a[0]
                return VAL(t.parts[0].term.arg(0))

            from .oc02 import node_init
            ip.contracts = {**ip.contracts, "Node.__init__": node_init(args=OneOf("values", [(NV > 0, text("args")), (NV == 0, "")])),
                            "BaseNode.find_parent": lambda ip, self, cls: (f if inside and cls is nodes.Func else None),
                            "split_return_args": split, "GenericExpression.parse": parse}
            return ip.call(nodes.Return, [text("line", False, "line"), outer(), compiler()], {})

        for r in runs(o, build, base=[NV >= 0, NR >= 0]):
            if not inside:
                if r.kind != "raise":
                    raise Refuted("a return outside of a function is accepted")
                c += 1
                continue
            if r.kind == "ok":
                must_(r, NV == NR, "accepted with another number of values than declared")
                n = r.value
                i = z3.Int("i!r")
                a = r.ip.resolve(n.args_expressions)
                if isinstance(a, list) and not a:
                    must_(r, NV == 0, "values dropped")
                else:
                    e = r.ip.segs(a)
                    if len(e) != 1 or repr(e[0][1].at(i)) != repr(VAL(i)):
                        raise Refuted("the values are not kept in order")
                c += 1
    return c


# -- assignment -----------------------------------------------------------------------
NN = z3.Int("n_names")
NTEXT = uf("nametext", [z3.IntSort()], STR)


class Names:
    """the text of the names: its parts by split (contract of str.split on what the pattern accepts)"""

    pyver_symbolic = True

    def sym_getattr(self, ip, name):
        if name == "split":
            return self
        raise Unsupported(f"{name} of the names")

    def sym_call(self, ip, args, kwargs):
        if list(args) != [","] or kwargs:
            raise Unsupported("split of the names")
        return SList("names", NN, lambda i: Rope([Atom(NTEXT(i), safe=True)]))

    def sym_truth(self, ip):
        return True


NAME_STORE = "name_nodes"


def name_contract():
    st = Store(NAME_STORE, cls=nodes.Name, fields=dict(value=lambda i: Rope([Atom(NTEXT(i), safe=True)])))

    def f(ip, text):
        return SElem(st, text.parts[0].term.arg(0))
    return f


def assignment(values):
    """name i receives value i (the first is on top), an underscore discards its value"""
    def f(o):
        e = expr("e", shapes=(values,))

        def build(ip):
            ip.contracts = {**ip.contracts, "Name": name_contract()}
            return node(nodes.Assignment, names=Names(), expression=e(), compiler=compiler(), parent=outer())

        vals = {}

        def start(m, r):
            v = m.eval(e())
            if isinstance(v, list):
                a = z3.K(z3.IntSort(), V.I(0))
                for j, x in enumerate(v):
                    a = z3.Store(a, j, x)
                if len(v) != 1:
                    raise Refuted("an assignment of no value is accepted")
                return m.goto("name", i=z3.IntVal(0), a=a)
            if not m.ctx.branch(NN > 0):
                return m.end()
            return m.goto("name", i=z3.IntVal(0), a=v)

        def name(m, p):
            x = z3.Select(p.a, p.i)
            under = NTEXT(p.i) == z3.StringVal("_")
            if not m.ctx.branch(under):
                m.store(SLOT(NTEXT(p.i)), x)
            if m.ctx.branch(p.i + 1 < NN):
                return m.goto("name", i=p.i + 1, a=p.a)
            m.stack = []
            return m.end()

        loc = Loc(name, {"i": z3.IntSort(), "a": sem.ARR}, lambda p: z3.And(p.i >= 0, p.i < NN), stack=lambda p: [Seg(p.a, p.i, NN, desc=True)], ks=lambda p: [p.i])

        def post(r):
            j = z3.Int("j!t")
            t = VTYPE(NTEXT(j))
            if values == "single":
                must_(r, NN == 1, "one value for several names")
                x = type_term("e")
            else:
                must_(r, NN == nvals("e"), "another number of names than values")
                x = type_terms("e", j)
            under = NTEXT(j) == z3.StringVal("_")
            must_(r, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < NN), z3.Or(under, z3.And(DECLARED(NTEXT(j)), holds(KIND(t), SIZE(t), KIND(x), SIZE(x)))))), "a value assigned to a variable that does not hold it")

        return means(o, build, start, {"name": loc}, contracts={"BaseNode.get_var": get_var, "BaseNode.lookup_var": lookup_var}, base=[NN >= 1], post=post)
    return f


def assignment_none(o):
    """a call without a value cannot be assigned"""
    e = expr("e", shapes=("none",))
    c = 0
    under = z3.Bool("all underscores")

    def build(ip):
        ip.contracts = {**ip.contracts, "Name": name_contract()}
        n = node(nodes.Assignment, names=Names(), expression=e(), compiler=compiler(), parent=outer())
        ip.call(ip.get_attr(n, "process"), [], {})

    for r in runs(o, build, {"BaseNode.get_var": get_var, "BaseNode.lookup_var": lookup_var}, base=[NN >= 1]):
        if r.kind == "ok":
            j = z3.Int("j!u")
            must_(r, z3.And(NN == 1, NTEXT(0) == z3.StringVal("_")), "a call without a value is assigned to a name")
        c += 1
    return c


def declaration(o):
    """a variable is declared with its type, and holds the value of the expression"""
    e = expr("e")
    z = zs(text("vname"))
    has = z3.Bool("has_value")

    def declare(ip, self, name, ty):
        ip.effects.append(Event("declare", self, name, ty))
        return SymVar(zs(ip.resolve(name)))

    def build(ip):
        nm_ = Opaque("name", attrs={"value": text("vname")}, cls=nodes.Name)
        return node(nodes.VarDeclaration, name=nm_, type_name=text("tname"), expression=OneOf("value", [(has, e()), (z3.Not(has), None)]), compiler=compiler(), parent=outer())

    def ref(m, r):
        if m.ctx.branch(has):
            m.store(SLOT(z), m.eval1(e()))
        return m.end()

    def post(r):
        ev = [x for x in r.ip.effects if isinstance(x, Event)]
        d = [x for x in ev if x.what == "declare"]
        if len(d) != 1 or d[0].obj is not r.value or repr(d[0].info) != repr((text("vname"), text("tname"))):
            raise Refuted(f"what is declared: {d}")
        t, x = VTYPE(z), type_term("e")
        must_(r, z3.Implies(has, z3.And(shape("e") == 1, holds(KIND(t), SIZE(t), KIND(x), SIZE(x)))), "a value its variable does not hold")

    return means(o, build, ref, contracts={"BaseNode.declare_scratch_var": declare, "TealishType.can_hold_with_cast": lambda ip, a, b: False}, post=post)


# -- the body of a function ends with a return ---------------------------------------------
OBLIGATIONS = [("function: parameters and body", func_body), ("function: declaration of the parameters", func_process), ("return", return_),
               ("return: number of values", return_number), ("assignment of one value", assignment("single")), ("assignment of several values", assignment("list")),
               ("assignment of nothing", assignment_none), ("declaration", declaration), ("call of a function", userfunc)]
