"""C08: the router dispatches, guards, decodes and logs."""
import z3

from tealish import tealish_builtins as tb

from . import oc01, sem
from .domain import *  # noqa: F401,F403
from .domain import Event
from .interp import ForEach, fresh
from .maps import MapV
from .oc02 import compiler, made, node_init, outer
from .oc03 import must_
from .oc06 import KNOWN, NAMED, field_type_facts, named
from .sem import Loc, Outcome, Refuted, Seg, V, is_B, is_I
from .values import *  # noqa: F401,F403

STR, I = z3.StringSort(), z3.IntSort()
NR = z3.Int("n_routes")
RNAME = z3.Function("route name", I, STR)
OCOF = z3.Function("OnCompletion of", STR, STR)
HASOC = z3.Function("declares OnCompletion", STR, z3.BoolSort())
OCNO = z3.Function("number of", STR, I)
NARGS, NRET = z3.Function("number of arguments", STR, I), z3.Function("number of results", STR, I)
RTY = z3.Function("type of result", STR, I, TY)
FLAB = z3.Function("label of function", STR, STR)
ARG = expr("arg", arity=lambda *i: 1)  # one value each: "decoding of the arguments"


def rname(i):
    return Rope([Atom(RNAME(z3.simplify(i)), safe=True)])


def func_of(name):
    """the function of that name"""
    z = zs(name)
    pub = MapV(f"public {z}", lambda k: z3.And(k == z3.StringVal("OnCompletion"), HASOC(z)), lambda k: Rope([Atom(OCOF(z), safe=True)]))
    return Opaque("func", attrs={"label": Rope([Atom(FLAB(z), safe=True)]), "attributes": {"public": pub},
                                 "returns": SList("returns", NRET(z), lambda j: SymType(RTY(z, j)))})


def lookup_func(ip, self, name):
    return func_of(ip.resolve(name))


class Constants:
    pyver_symbolic = True


def constants_map():
    return MapV("constants", lambda k: z3.Function("is a constant", STR, z3.BoolSort())(k), lambda k: (T.IntType(), SInt(OCNO(k))))


STORE_FIELDS = dict(name=rname, arg_expressions=lambda i: SList("arguments", NARGS(RNAME(i)), lambda j: ARG(i, j)),
                    _line_no=lambda i: SInt(z3.Int("line_no")), _line=lambda i: text("line", False, "line"))


def router(ip, with_comments=False):
    comp = compiler(router_count=SInt(z3.Int("router_count")))
    ip.contracts = {**ip.contracts, "Node.__init__": node_init(), "BaseNode.lookup_func": lookup_func}
    ip.grown[id(tb.constants)] = (tb.constants, constants_map())
    n = ip.call(nodes.Router, [text("line", False, "line"), outer(), comp], {})
    st = Store("routes", cls=nodes.Route, fields={**STORE_FIELDS, "parent": lambda i: n})
    n.__dict__["routes"] = SList("routes", NR, lambda i: SElem(st, i))
    return n


def written(ip):
    n = router(ip)
    ip.call(ip.get_attr(n, "write_teal"), [SymWriter()], {})
    return n


NAMES = z3.Const("route names", sem.ARR)


def name_value(i):
    return sem.literal("pushbytes", [Rope(['"', rname(i), '"'])])


def create(z):
    return z3.And(HASOC(z), OCOF(z) == z3.StringVal("CreateApplication"))


def called(nargs, nret):
    """a function takes its arguments and leaves its results, the first on top (C03)"""
    def h(m):
        a = m.popn(nargs)
        m.stack.append(Seg(oc01.subroutine(m, a, nargs), 0, nret, desc=True))
        return None
    return h


def routes(o):
    def start(m, r):
        if not m.ctx.branch(NR > 0):
            m.op("txna", ["ApplicationArgs", "0"], [])
            return m.fail()
        return m.goto("name", i=z3.IntVal(0))

    def name(m, p):
        # the names, in order
        m.ctx.assume(z3.Select(NAMES, p.i) == name_value(p.i))
        if m.ctx.branch(p.i + 1 < NR):
            return m.goto("name", i=p.i + 1)
        m.stack = []
        v, = m.op("txna", ["ApplicationArgs", "0"], [])
        k = sem.first_match(m, NAMES, z3.IntVal(0), NR, v)
        if k is None:
            return m.fail()
        return m.goto("route", i=k)

    def guard(m, z, c):
        if c:
            v, = m.op("txn", ["ApplicationID"], [])
            m.require(z3.And(is_I(v), V.n(v) == 0))
        else:
            v, = m.op("txn", ["OnCompletion"], [])
            want = z3.If(HASOC(z), OCNO(OCOF(z)), OCNO(z3.StringVal("NoOp")))
            m.require(z3.And(is_I(v), V.n(v) == want))

    def route(m, p):
        z = RNAME(p.i)
        c = m.ctx.branch(create(z))
        guard(m, z, c)
        m.ctx.assume(z3.And(NARGS(z) >= 0, NRET(z) >= 0))
        a = m.eval_seq(ARG(p.i, z3.IntVal(0)), NARGS(z))
        res = oc01.subroutine(m, a, NARGS(z))
        if not m.ctx.branch(NRET(z) > 0):
            return Outcome("return", value=V.I(1))
        enc = z3.Const("encoded", sem.ARR)
        return m.goto("ret", i=p.i, j=z3.IntVal(0), res=res, enc=enc)

    def ret(m, p):
        z = RNAME(p.i)
        x = z3.Select(p.res, p.j)
        if m.ctx.branch(isa(KIND(RTY(z, p.j)), T.IntType)):
            x = m.op("itob", [], [x])[0]
        enc = z3.Store(p.enc, p.j, x)
        if m.ctx.branch(p.j + 1 < NRET(z)):
            return m.goto("ret", i=p.i, j=p.j + 1, res=p.res, enc=enc)
        m.stack = []
        acc = z3.Select(enc, p.j)
        if m.ctx.branch(NRET(z) == 1):
            return log(m, acc)
        return m.goto("join", i=p.i, j=z3.IntVal(0), enc=enc, acc=acc)

    def join(m, p):
        z = RNAME(p.i)
        m.stack = []
        acc = m.op("concat", [], [z3.Select(p.enc, NRET(z) - 2 - p.j), p.acc])[0]
        if m.ctx.branch(p.j + 1 < NRET(z) - 1):
            return m.goto("join", i=p.i, j=p.j + 1, enc=p.enc, acc=acc)
        return log(m, acc)

    def log(m, acc):
        pre = sem.literal("pushbytes", ["0x151f7c75"])
        m.op("log", [], m.op("concat", [], [pre, acc]))
        return Outcome("return", value=V.I(1))

    idx = {"i": I}
    locs = {"name": Loc(name, idx, lambda p: z3.And(p.i >= 0, p.i < NR), stack=lambda p: [Seg(NAMES, 0, p.i)], ks=lambda p: [p.i]),
            "route": Loc(route, idx, lambda p: z3.And(p.i >= 0, p.i < NR), stack=lambda p: [], ks=lambda p: [p.i])}
    locs["ret"] = Loc(ret, {**idx, "j": I, "res": sem.ARR, "enc": sem.ARR},
                      lambda p: z3.And(p.i >= 0, p.i < NR, p.j >= 0, p.j < NRET(RNAME(p.i)), NARGS(RNAME(p.i)) >= 0),
                      stack=lambda p: [Seg(p.res, p.j, NRET(RNAME(p.i)), desc=True), Seg(p.enc, 0, p.j)], ks=lambda p: [p.i, p.j])
    locs["join"] = Loc(join, {**idx, "j": I, "enc": sem.ARR, "acc": V},
                       lambda p: z3.And(p.i >= 0, p.i < NR, NRET(RNAME(p.i)) >= 2, p.j >= 0, p.j < NRET(RNAME(p.i)) - 1, NARGS(RNAME(p.i)) >= 0),
                       stack=lambda p: [Seg(p.enc, 0, NRET(RNAME(p.i)) - 1 - p.j), p.acc], ks=lambda p: [p.i, p.j])

    ri = z3.Const("route.i", I)
    env = sem.Env(calls={repr(Rope([Atom(FLAB(RNAME(ri)), safe=True)])): called(NARGS(RNAME(ri)), NRET(RNAME(ri)))})
    total = ok = 0
    for r in runs(o, written, base=[NR >= 0]):
        if r.kind != "ok":
            continue
        ok += 1
        possible = not r.ctx.valid(NR <= 0)
        total += simulate(r.ip.out, lambda m, r=r: start(m, r), locs if possible else {}, env, r.facts())
    if not ok:
        raise Refuted("a router is never written")
    return total


OBLIGATIONS = [("dispatch, guard, call and log", routes, 240)]


# -- decoding -----------------------------------------------------------------
NA = z3.Int("number of parameters")
TNAME = z3.Function("type name of parameter", I, STR)
PARSED = expr("parsed")
INT, BYTES = T.IntType, T.BytesType


def form(text):
    """(form, index, type name) of the text of an argument's expression"""
    parts = []
    for p in text.parts if isinstance(text, Rope) else (text,):
        if isinstance(p, str) and parts and isinstance(parts[-1], str):
            parts[-1] += p
        else:
            parts.append(p)
    forms = {("FromBytes(Txn.ApplicationArgs[", "], ", ")"): "FromBytes", ("Convert(Txn.ApplicationArgs[", "], ", ")"): "Convert",
             ("Cast(btoi(Txn.ApplicationArgs[", "]), ", ")"): "Cast btoi", ("Cast(Txn.ApplicationArgs[", "], ", ")"): "Cast",
             ("Txn.ApplicationArgs[", "]"): "plain", ("btoi(Txn.ApplicationArgs[", "])"): "btoi"}
    f = forms.get(tuple(p for p in parts if isinstance(p, str)))
    rest = [p for p in parts if not isinstance(p, str)]
    if f is None or not rest or not isinstance(rest[0], IntText):
        raise Unsupported(f"the expression {text!r}")
    ty = rest[1].term if len(rest) > 1 and isinstance(rest[1], Atom) else None
    return f, rest[0].e, ty


def decoding(o):
    """parameter i gets argument i + 1, decoded by its type; only public functions are routed to"""
    c = 0
    public = z3.Bool("is public")

    def build(ip):
        f = Opaque("func", attrs={"attributes": MapV("attributes", lambda k: z3.And(k == z3.StringVal("public"), public), lambda k: Opaque("public")),
                                  "args": Opaque("ArgsList", attrs={"args": SList("parameters", NA, lambda i: (Rope([Atom(z3.Function("parameter", I, STR)(i), safe=True)]), Rope([Atom(TNAME(i), safe=True)])))}),
                                  "returns": SList("returns", z3.Int("n_ret"), lambda j: SymType(RTY(z3.String("name"), j)))})

        def parse(ip, t, *a):
            if not is_str(t):
                t = a[0]
            _, i, _ = form(t)
            h = PARSED(z3.simplify(i))
            ip.effects.append(Event("parse", h, t))
            return h

        def look(ip, self, name):
            if not ip.ctx.valid(zs(ip.resolve(name)) == z3.String("name")):
                raise Refuted("another function is looked up")
            return f
        ip.contracts = {**ip.contracts, "BaseNode.lookup_func": look, "get_type_instance": named, "GenericExpression.parse": parse}
        n = node(nodes.Route, name=text("name"), compiler=compiler(), parent=outer())
        ip.call(ip.get_attr(n, "process"), [], {})
        return n

    i = z3.Int("i!p")
    ty = NAMED(TNAME(i))
    for r in runs(o, build, base=[NA >= 0], contracts={}):
        if r.kind != "ok":
            continue
        must_(r, public, "a function that is not public can be routed to")
        c += 1
        args = r.ip.resolve(r.value.arg_expressions)
        if isinstance(args, list) and not args:
            must_(r, NA == 0, "the arguments are not decoded")
            continue
        e = r.ip.segs(args)
        if len(e) != 1:
            raise Unsupported(f"the arguments {e}")
        got = e[0][1].at(i)
        if not isinstance(got, Hole) or got.name != PARSED.name:
            raise Unsupported(f"argument {got!r}")
        must_(r, e[0][1].n == NA, "the number of arguments")
        must_(r, got.idx[0] == i + 1, "the argument a parameter receives")
        loops = [x for x in r.ip.effects if isinstance(x, ForEach)]
        if len(loops) != 1 or len(r.ip.effects) != 1:
            raise Unsupported(f"effects {r.ip.effects}")
        fe = loops[0]
        must_(r, fe.n == NA, "the number of arguments")
        at = [(fe.k, i)]
        some = []
        for g, ev in fe.alts:
            cond = z3.And(i >= 0, i < NA, *[z3.substitute(x, *at) for x in g])
            ev = [subst(x, fe.k, i) for x in ev if isinstance(x, Event)]
            if [x.what for x in ev] != ["parse", "process"] or repr(ev[0].obj) != repr(ev[1].obj):
                raise Unsupported(f"effects {ev}")
            must_(r, z3.Implies(cond, ev[1].obj.idx[0] == i + 1), "the argument processed")
            f, j, tn = form(ev[0].info[0])
            if tn is not None:
                must_(r, z3.Implies(cond, tn == TNAME(i)), "the type an argument is decoded as")
            k, s = KIND(ty), SIZE(ty)
            fits = {"FromBytes": z3.And(isa(k, INT), s == 8), "btoi": z3.And(isa(k, INT), s == 8), "Convert": isa(k, INT), "Cast btoi": isa(k, INT),
                    "Cast": isa(k, BYTES), "plain": z3.And(isa(k, BYTES), s == 0)}[f]
            must_(r, z3.Implies(z3.And(cond, field_type_facts(ty)), fits), f"{f} for a parameter it does not suit")
            some.append(cond)
    if not c:
        raise Refuted("no route is ever accepted")
    return c


OBLIGATIONS += [("decoding of the arguments", decoding)]


# -- declarations ---------------------------------------------------------------
ON_COMPLETION = {"NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4, "DeleteApplication": 5}


def numbers(o):
    """the numbers of the on-completion actions are the AVM's"""
    for k, v in ON_COMPLETION.items():
        got = tb.constants.get(k)
        if got is None or got[1] != v or type(got[0]) is not INT:
            raise Refuted(f"{k} is {got}")
    return len(ON_COMPLETION)


def declared(o):
    """a function's attributes are those of its decorators: public with the action given, or none"""
    c = 0
    for oc in [*ON_COMPLETION, "CreateApplication", None]:
        params = "" if oc is None else f"OnCompletion={oc}"

        def build(ip, params=params):
            ip.contracts = {**ip.contracts, "Node.add_child": lambda ip, self, x: None}
            d = mk(nodes.Decorator, name="public", params=params, parent=parent())
            f = Opaque("func", attrs={"attributes": {}, "decorators": []})
            n = mk(nodes.DecoratedFunc, func=None, decorators=[d], child_nodes=[d], nodes=[d], parent=parent())
            ip.call(ip.get_attr(n, "set_func"), [f], {})
            return f

        for r in runs(o, build):
            if r.kind != "ok":
                raise Refuted(f"@public({params}) is rejected")
            got = r.ip.get_attr(r.value, "attributes")
            want = {"public": {} if oc is None else {"OnCompletion": oc}}
            if {k: dict(v) for k, v in got.items()} != want:
                raise Refuted(f"@public({params}) makes {got}")
            c += 1
    return c


def steps(o):
    """every line of a router is processed"""
    item = stmt("item")
    c = 0

    def build(ip):
        n = mk(nodes.Router, child_nodes=many(item, z3.Int("n_items")), routes=[], parent=parent(), compiler=compiler())
        ip.call(ip.get_attr(n, "process"), [], {})
        return n

    for r in runs(o, build, base=[z3.Int("n_items") >= 0]):
        if r.kind != "ok":
            continue
        c += 1
        ev = r.ip.effects
        if not ev:
            must_(r, z3.Int("n_items") == 0, "the lines are not processed")
            continue
        if len(ev) != 1 or not isinstance(ev[0], ForEach):
            raise Unsupported(f"effects {ev}")
        must_(r, ev[0].n == z3.Int("n_items"), "lines left out")
        for g, b in ev[0].alts:
            if len(b) != 1 or b[0].what != "process" or repr(b[0].obj) != repr(item(ev[0].k)):
                raise Refuted(f"a line of a router is not processed: {b}")
    if not c:
        raise Refuted("no router is ever accepted")
    return c


OBLIGATIONS += [("numbers of the on-completion actions", numbers), ("attributes of a decorated function", declared), ("the lines of a router are processed", steps)]
ASSUMPTIONS = ["the texts Route.process builds (FromBytes(Txn.ApplicationArgs[i], t), Cast(btoi(..)), ..) are parsed as C01/C07 state; "
               "the guards of the router are proved from the attributes and the constants table, whose contents are compared with the AVM's numbers",
               "a function called by a router takes its arguments and leaves its results as C03 proves"]
