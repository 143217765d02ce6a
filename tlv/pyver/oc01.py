"""C01: what every expression node leaves on the stack."""
from .domain import *  # noqa: F401,F403
from . import sem
from .. import avm, gen
from .sem import V

BIN = ["+", "-", "*", "/", "%", "==", ">=", "<=", ">", "<", "!=", "&&", "||", "|", "&", "^",
       "b+", "b-", "b/", "b*", "b%", "b==", "b!=", "b>=", "b<=", "b>", "b<", "b|", "b&", "b^"]
UN = ["!", "~", "b~"]


def unary(op):
    def f(o):
        a = expr("a")

        def ref(m, r):
            x = m.eval1(a())
            return m.end(*m.op(op, [], [x]))

        return means(o, lambda ip: mk(en.UnaryOp, op=op, a=a(), nodes=[a()], parent=parent()), ref)
    return f


def binary(op):
    def f(o):
        a, b = expr("a"), expr("b")

        def ref(m, r):
            x = m.eval1(a())
            y = m.eval1(b())
            return m.end(*m.op(op, [], [x, y]))

        return means(o, lambda ip: mk(en.BinaryOp, op=op, a=a(), b=b(), nodes=[a(), b()], parent=parent()), ref)
    return f


OBLIGATIONS = [(f"UnaryOp {op}", unary(op)) for op in UN] + [(f"BinaryOp {op}", binary(op)) for op in BIN]


# -- literals, names, groups ------------------------------------------------------
def integer(o):
    v = z3.Int("value")

    def build(ip):
        return mk(en.Integer, value=SInt(v), type=T.IntType(), parent=parent())

    return means(o, build, lambda m, r: m.end(V.I(v)))


def bytes_(o):
    t = Rope([Atom(z3.String("value"), what="strbody")])

    def build(ip):
        return mk(en.Bytes, value=t, type=T.BytesType(), parent=parent())

    return means(o, build, lambda m, r: m.end(sem.literal("byte", [Rope(['"', t, '"'])])))


def variable(o):
    def ref(m, r):
        return m.end(m.load(slot_of(NAME)))

    def post(r):
        if r.value.type is not r.value.var.tealish_type:
            raise Refuted("the type of a variable is not that of its declaration")

    return means(o, lambda ip: mk(en.Variable, name=NAME, parent=parent()), ref, post=post)


NAME = text("name")


def const_of(name):
    return (SymType(z3.Const(f"consttype({nm(name)})", TY)), Rope([Atom(z3.String(f"constvalue({nm(name)})"), what="comment", safe=True)]))


def avm_const(name):
    return (SymType(z3.Const(f"enumtype({nm(name)})", TY)), SInt(z3.Int(f"enumvalue({nm(name)})")))


NAMES = {
    "BaseNode.lookup_const": lookup("const", const_of),
    "BaseNode.lookup_avm_constant": lookup("avm constant", avm_const),
    "BaseNode.lookup_op_field": lambda ip, self, op, name: lookup("op field", lambda n: SymType(z3.Const(f"fieldtype({nm(n)})", TY)))(ip, self, name),
}


def constant(o):
    def ref(m, r):
        k = KIND(z3.Const(f"consttype({nm(NAME)})", TY))
        if m.ctx.valid(isa(k, T.IntType)):
            return m.end(V.I(sem.uf("namedint", [sem.TXT], z3.IntSort())(sem.txt(NAME))))
        if m.ctx.valid(isa(k, T.BytesType)):
            return m.end(sem.literal("byte", [NAME]))
        raise Refuted("a constant that is neither an integer nor bytes is accepted")

    return means(o, lambda ip: mk(en.Constant, name=NAME, parent=parent()), ref, contracts=NAMES)


def enum(o):
    def ref(m, r):
        k = KIND(z3.Const(f"enumtype({nm(NAME)})", TY))
        if m.ctx.valid(isa(k, T.IntType)):
            return m.end(V.I(z3.Int(f"enumvalue({nm(NAME)})")))
        return m.end(sem.literal("byte", [NAME]))

    def build(ip):
        p = parent()
        p.attrs["name"] = text("opname")
        return mk(en.Enum, name=NAME, parent=p)

    # a field name is no value of its own: only the constants of the AVM are
    k = {**NAMES, "BaseNode.lookup_op_field": lookup("op field", lambda n: None, KeyError)}
    k["BaseNode.lookup_op_field"] = lambda ip, self, op, name: _raise(KeyError("no field"))
    return means(o, build, ref, contracts=k, base=[isa(KIND(z3.Const(f"enumtype({nm(NAME)})", TY)), T.IntType)])


def _raise(e):
    raise PyRaise(e)


def group(o):
    e = expr("e")

    def ref(m, r):
        v = m.eval(e())
        return m.end(*(v if isinstance(v, list) else [sem.Seg(v, 0, m.arity(e()), desc=True)]))

    return means(o, lambda ip: mk(en.Group, expression=e(), nodes=[e()], parent=parent()), ref)


# -- fields --------------------------------------------------------------------
FIELD = text("field")


def field_type(ip, self, ns, name):
    """contract of get_field_type: the type of the field in its table, KeyError if it is not there (C16)"""
    ns = ip.resolve(ns)
    table = "global" if ns == "global" else "txn" if "txn" in ns else None
    if table is None:
        raise PyRaise(Exception("unknown name space"))
    return lookup(f"{table} field", lambda n: SymType(z3.Const(f"fieldtype({table},{nm(n)})", TY)))(ip, self, name)


FIELDS = {"BaseNode.get_field_type": field_type}
KV = z3.Function("fieldvalue", sem.TXT, z3.IntSort(), z3.IntSort(), z3.IntSort(), sem.W, V)
KOK = z3.Function("fieldok", sem.TXT, z3.IntSort(), z3.IntSort(), z3.IntSort(), sem.W, z3.BoolSort())


def _byte(m, imm):
    n = sem.int_of(imm)
    if n is None:
        raise Refuted(f"{imm} is not a number")
    return n


def fieldval(m, space, field, g=-1, i=-1):
    """field of a transaction: space 0 current, 1 group member g, 2 last inner, 3 global; element i"""
    t = sem.txt(Rope([field]))
    a = [t] + [x if z3.is_expr(x) else z3.IntVal(x) for x in (space * 0 + (z3.IntVal(space)), g, i)]
    m.require(KOK(*a, m.w))
    v = KV(*a, m.w)
    m.push(v)
    return None


def num(m, v):
    m.require(sem.is_I(v))
    return V.n(v)


def _txn(m, imms):
    if imms[0] == "GroupIndex":
        m.push(V.I(z3.Int("group index")))
        m.ctx.assume(z3.And(z3.Int("group index") >= 0, z3.Int("group index") < 16))
        return None
    return fieldval(m, 0, imms[0])


def count(imms, n):
    if len(imms) != n:
        raise Refuted("wrong number of immediate arguments")


FIELD_OPS = {
    "txn": lambda m, s: _txn(m, s),
    "txna": lambda m, s: fieldval(m, 0, s[0], -1, _byte(m, s[1])),
    "txnas": lambda m, s: fieldval(m, 0, s[0], -1, num(m, m.pop())),
    "gtxn": lambda m, s: fieldval(m, 1, s[1], _byte(m, s[0])),
    "gtxns": lambda m, s: fieldval(m, 1, s[0], num(m, m.pop())),
    "gtxna": lambda m, s: fieldval(m, 1, s[1], _byte(m, s[0]), _byte(m, s[2])),
    "gtxnsa": lambda m, s: fieldval(m, 1, s[0], num(m, m.pop()), _byte(m, s[1])),
    "gtxnas": lambda m, s: fieldval(m, 1, s[1], _byte(m, s[0]), num(m, m.pop())),
    "itxn": lambda m, s: fieldval(m, 2, s[0]),
    "itxna": lambda m, s: fieldval(m, 2, s[0], -1, _byte(m, s[1])),
    "itxnas": lambda m, s: fieldval(m, 2, s[0], -1, num(m, m.pop())),
    "global": lambda m, s: fieldval(m, 3, s[0]),
}


def _gtxnsas(m, s):
    i = num(m, m.pop())
    return fieldval(m, 1, s[0], num(m, m.pop()), i)


FIELD_OPS["gtxnsas"] = _gtxnsas
IMMS = {"txn": 1, "txna": 2, "txnas": 1, "gtxn": 2, "gtxns": 1, "gtxna": 3, "gtxnsa": 2, "gtxnas": 2, "gtxnsas": 1, "itxn": 1, "itxna": 2, "itxnas": 1, "global": 1}
FIELD_ENV = sem.Env(ops={k: (lambda m, s, f=f, n=IMMS[k]: (count(s, n), f(m, s))[1]) for k, f in FIELD_OPS.items()})

# an index: a literal (as the parser makes them, at most 255 as the instruction holds), or an expression
IX, EX = z3.Int("index"), z3.Int("element")


def index_node(kind, which):
    if kind == "literal":
        return mk(en.Integer, value=SInt({"i": IX, "e": EX}[which]), type=T.IntType(), parent=parent())
    if kind == "plus":
        return mk(en.PositiveGroupIndex, index=SInt(IX), type=T.AVMType.int, parent=parent())
    if kind == "minus":
        return mk(en.NegativeGroupIndex, index=SInt(IX), type=T.AVMType.int, parent=parent())
    return expr({"i": "ix", "e": "el"}[which], exclude=(en.Integer,))()


def ref_index(m, kind, which):
    if kind == "literal":
        return {"i": IX, "e": EX}[which]
    if kind in ("plus", "minus"):
        g = z3.Int("group index")
        m.ctx.assume(z3.And(g >= 0, g < 16))
        if kind == "plus":
            m.require(g + IX < sem.U64)
            return g + IX
        m.require(g >= IX)
        return g - IX
    v = m.eval1(expr({"i": "ix", "e": "el"}[which], exclude=(en.Integer,))())
    m.stack.append(v)
    return None


def fld(cls, space, gi=None, ai=None):
    def f(o):
        def build(ip):
            attrs = dict(field=FIELD, type=T.AVMType.any, parent=parent())
            if gi:
                attrs["index"] = index_node(gi, "i")
            if ai:
                attrs["arrayIndex"] = index_node(ai, "e")
            return mk(cls, **attrs)

        def ref(m, r):
            a = ref_index(m, gi, "i") if gi else -1
            b = ref_index(m, ai, "e") if ai else -1
            if b is None:
                b = num(m, m.pop())
            if a is None:
                a = num(m, m.pop())
            fieldval(m, space, FIELD, a, b)
            return m.end(m.stack.pop())

        def post(r):
            if not isinstance(r.value.type, SymType) or str(r.value.type.term) != str(z3.Const(f"fieldtype({'global' if space == 3 else 'txn'},{nm(FIELD)})", TY)):
                raise Refuted("the type is not that of the field")

        return means(o, build, ref, env=FIELD_ENV, contracts=FIELDS, post=post, base=[IX >= 0, EX >= 0, EX < 256])
    return f


FORMS = [("Txn.F", en.TxnField, 0, None, None), ("Itxn.F", en.InnerTxnField, 2, None, None), ("Global.F", en.GlobalField, 3, None, None)]
FORMS += [(f"Txn.F[{a}]", en.TxnArrayField, 0, None, a) for a in ("literal", "expression")]
FORMS += [(f"Itxn.F[{a}]", en.InnerTxnArrayField, 2, None, a) for a in ("literal", "expression")]
FORMS += [(f"Gtxn[{g}].F", en.GroupTxnField, 1, g, None) for g in ("literal", "plus", "minus", "expression")]
FORMS += [(f"Gtxn[{g}].F[{a}]", en.GroupTxnArrayField, 1, g, a) for g in ("literal", "plus", "minus", "expression") for a in ("literal", "expression")]


# -- opcodes ----------------------------------------------------------------------
def imm(i):
    t = text(f"imm{i}")
    p = Opaque("call", attrs={"name": text("opname"), "line_no": SInt(z3.Int("line_no")), "line": text("line", False, "line")})
    return OneOf(f"immediate {i}", [
        mk(en.Constant, name=t, type=T.AVMType.none, parent=p), mk(en.Enum, name=t, type=T.AVMType.none, parent=p),
        mk(en.Integer, value=SInt(z3.Int(f"immvalue{i}")), type=T.IntType(), parent=p),
        mk(en.Bytes, value=Rope([Atom(z3.String(f"immtext{i}"), what="strbody")]), type=T.BytesType(), parent=p)])


def imm_text(i, ip):
    v = ip.resolve(ip.imms[i])
    if isinstance(v, (en.Constant, en.Enum)):
        return text(f"imm{i}")
    if isinstance(v, en.Integer):
        return Rope([IntText(z3.Int(f"immvalue{i}"))])
    return Rope(['"', Atom(z3.String(f"immtext{i}"), what="strbody"), '"'])


def spec_type(ch):
    return {"U": T.IntType, "B": T.BytesType, ".": T.AnyType}[ch]


def opcall(name):
    spec = avm.OPS[name]
    k, m_, ret = max(spec["Size"] - 1, 0), spec.get("Args", ""), spec.get("Returns", "")
    fams = [expr(f"a{i}") for i in range(len(m_))]

    def f(o):
        def build(ip):
            ip.imms = [imm(i) for i in range(k)]
            return ip.call(en.FunctionCall, [name, ip.imms + [a() for a in fams], parent()], {})

        def ref(m, r):
            vals = [m.eval1(a()) for a in fams]
            return m.end(*opaque(m, name, [imm_text(i, r.ip) for i in range(k)], vals, len(ret)))

        def code(m, imms):
            vals = [m.pop() for _ in m_][::-1]
            m.stack += opaque(m, name, imms, vals, len(ret))

        def post(r):
            t = r.value.type
            got = t if isinstance(t, list) else [t]
            if [type(x) for x in got] != [spec_type(c) for c in reversed(ret)] or any(x.size != spec_type(c)().size for x, c in zip(got, reversed(ret))):
                raise Refuted(f"the type of {name} is {t}")
            if isinstance(t, list) and len(ret) == 1:
                raise Refuted("one result given as a list")

        return means(o, build, ref, contracts=NAMES, post=post, env=sem.Env(ops={name: code}))
    return f


def opaque(m, name, imms, vals, nret):
    """an opcode of the AVM, of which only the operands, the state and the number of results matter"""
    key = [sem.txt(i) for i in imms]
    dom = [sem.TXT] * len(key) + [V] * len(vals) + [sem.SCR, sem.W]
    a = key + vals + [m.scr, m.w]
    m.require(sem.uf(f"ok:{name}", dom, z3.BoolSort())(*a))
    res = [sem.uf(f"res{i}:{name}", dom, V)(*a) for i in range(nret)]
    m.w = sem.uf(f"w:{name}", dom, sem.W)(*a)
    return res


def opcount(name):
    """a call with any other number of arguments is rejected"""
    spec = avm.OPS[name]
    want = max(spec["Size"] - 1, 0) + len(spec.get("Args", ""))

    def f(o):
        n = z3.Int("nargs")
        a = expr("arg", exclude=())

        def build(ip):
            c = ip.call(en.FunctionCall, [name, many(a, n), parent()], {})
            ip.call(ip.get_attr(c, "process"), [], {})

        c = 0
        for r in runs(o, build, NAMES, base=[n >= 0, n != want]):
            if r.kind != "raise":
                raise Refuted(f"{name} is accepted with another number of arguments than {want}")
            c += 1
        return c
    return f


def variadic(name):
    """opcodes whose immediate arguments have no fixed number cannot be called"""
    def f(o):
        n = z3.Int("nargs")
        a = expr("arg", exclude=())

        def build(ip):
            c = ip.call(en.FunctionCall, [name, many(a, n), parent()], {})
            ip.call(ip.get_attr(c, "process"), [], {})

        c = 0
        for r in runs(o, build, NAMES, base=[n >= 0]):
            if r.kind != "raise":
                raise Refuted(f"{name} is accepted")
            c += 1
        return c
    return f


CALLS = [n for n in gen.CALLABLE if n not in stdlib.op_overrides] + ["log", "box_create", "box_put", "box_del", "box_replace"]


# -- calls of functions ---------------------------------------------------------
NA, NR = z3.Int("nparams"), z3.Int("nreturns")
FLABEL = Rope([Atom(z3.String("label(func)"), safe=True)])


def func_of(name=None):
    args = Opaque("params", attrs={"args": SList("params", NA, lambda i: Opaque("param")),
                                   "arg_types": SList("param types", NA, lambda i: SymType(type_terms("param", i)))})
    return Opaque("func", attrs={"args": args, "returns": SList("returns", NR, lambda i: SymType(type_terms("ret", i))),
                                 "label": FLABEL, "name": Rope([Atom(z3.String("fname"), safe=True)])}, cls=nodes.Func)


def called(nargs, nres):
    """the contract of a subroutine: takes nargs values, leaves nres"""
    def h(m):
        a = m.popn(nargs)
        res = subroutine(m, a, nargs)
        m.stack.append(sem.Seg(res, 0, nres))
        return None
    return h


def subroutine(m, a, nargs):
    dom = [z3.IntSort(), sem.ARR, sem.SCR, sem.W]
    args = [sem._z(nargs), a, m.scr, m.w]
    m.require(sem.uf("okcall", dom, z3.BoolSort())(*args))
    res = sem.uf("rescall", dom, sem.ARR)(*args)
    m.scr, m.w = sem.uf("scrcall", dom, sem.SCR)(*args), sem.uf("wcall", dom, sem.W)(*args)
    return res


def userfunc(o):
    n = z3.Int("nargs")
    a = expr("a")

    def build(ip):
        return mk(en.UserDefinedFuncCall, name=text("fname"), args=many(a, n), nodes=[], type=T.AVMType.none, parent=parent())

    def ref(m, r):
        m.ctx.assume(n == NA)
        vals = m.eval_seq(a(z3.IntVal(0)), NA)
        return m.end(sem.Seg(subroutine(m, vals, NA), 0, NR))

    def post(r):
        if not r.ctx.valid(n == NA):
            raise Refuted("a call with another number of arguments is accepted")

    return means(o, build, ref, env=sem.Env(calls={repr(FLABEL): called(NA, NR)}), base=[n >= 0, NA >= 0, NR >= 0], post=post,
                 contracts={"BaseNode.lookup_func": lookup("func", func_of)})


def closed_world(o):
    """every expression class of the repository is covered by an obligation of this file, or named elsewhere"""
    have = {en.Integer, en.Bytes, en.Variable, en.Constant, en.Enum, en.UnaryOp, en.BinaryOp, en.Group, en.FunctionCall, en.StdLibFunctionCall,
            en.OpCall, en.UserDefinedFuncCall, en.StructOrBoxField} | {f[1] for f in FORMS} | {en.PositiveGroupIndex, en.NegativeGroupIndex}
    left = [c.__name__ for c in vars(en).values() if isinstance(c, type) and issubclass(c, base.BaseNode) and c.__module__ == en.__name__ and c not in have]
    if left:
        raise Unsupported(f"no obligation for {left}")
    return len(have)


def delegation(o):
    """FunctionCall and StdLibFunctionCall do what the call they stand for does, and have its type"""
    c = 0
    for cls in (en.FunctionCall, en.StdLibFunctionCall):
        e = expr("call", value=lambda: SInt(z3.Int("value")))

        def ref(m, r):
            v = m.eval(e())
            return m.end(*(v if isinstance(v, list) else [sem.Seg(v, 0, m.arity(e()), desc=True)]))

        c += means(o, lambda ip: mk(cls, name="f", args=[], nodes=[], func_call=e(), parent=parent()), ref)
    return c


OBLIGATIONS += [("Integer literal", integer), ("Bytes literal", bytes_), ("Variable", variable), ("Constant", constant), ("Enum", enum), ("Group", group),
                ("delegation of calls", delegation), ("UserDefinedFuncCall", userfunc), ("closed world of expression classes", closed_world)]
OBLIGATIONS += [(n, fld(*a)) for n, *a in FORMS]
OBLIGATIONS += [(f"OpCall {n}", opcall(n)) for n in CALLS]
OBLIGATIONS += [(f"OpCall {n}: number of arguments", opcount(n)) for n in CALLS]
OBLIGATIONS += [(f"OpCall {n}: not callable", variadic(n)) for n in avm.OPS if avm.OPS[n]["Size"] == 0]
