"""C05: exactly the compatible values are accepted."""
from . import sem, oc01, oc02
from .. import avm
from .domain import *  # noqa: F401,F403
from .domain import TypeMethod
from .oc03 import DECLARED, NN, NTEXT, SymVar, VTYPE, assignment, assignment_none, declaration, must_, return_, return_number  # noqa: F401


# -- the relation: the real can_hold of every class against the specification ------------
def real(**more):
    """the contracts without those of the can_hold methods themselves"""
    return {k: v for k, v in {**CONTRACTS, **more}.items() if not str(k).endswith(".can_hold")}


def relation(cls):
    """E.can_hold(a) if and only if 'holds': for every class and size of a, every size of E, and what is no type at all"""
    def f(o):
        es = z3.Int("size of the target")
        a = z3.Const("a", TY)
        c = 0
        kinds = [("type", SymType(a)), ("none", T.AVMType.none), ("nothing", None), ("several", SList("types", z3.Int("n"), lambda i: SymType(type_terms("t", i))))]
        for what, other in kinds:
            fixed = isinstance(inspect_size(cls), int)
            size = inspect_size(cls)
            sz = z3.IntVal(size) if fixed else es

            def path(ctx, other=other):
                ip = Interp(ctx, real())
                e = mk(cls, size=SInt(sz) if not fixed else size, name=text("typename"))
                try:
                    v = ip.truth(ip.call(ip.get_attr(e, "can_hold"), [other], {}))
                except PyRaise as x:
                    o.take(ip)
                    return "raise", ctx, x
                o.take(ip)
                return "ok", ctx, v

            for ctx, r in explore(path, 200, [es >= 0]):
                if not ctx.feasible():
                    continue
                if r[0] == "raise":
                    raise Refuted(f"can_hold({what}) raises {r[2]}")
                t = SymType(a)
                want = z3.And(holds(z3.IntVal(kind_no(cls)), sz, t.kind, t.size)) if what == "type" else z3.BoolVal(False)
                cond = want if r[2] else z3.Not(want)
                s, m = solve(ctx.constraints() + [t.facts(), z3.Not(cond)], 8000)
                if s == z3.sat:
                    raise Refuted(f"{cls.__name__}.can_hold: a value of class {TYPES[m.eval(t.kind, True).as_long()].__name__ if what == 'type' else what} and size "
                                  f"{m.eval(t.size, True)} for a target of size {m.eval(sz, True)} is {'accepted' if r[2] else 'rejected'}")
                if s != z3.unsat:
                    raise Unsupported("not decided")
                c += 1
        return c
    return f


def inspect_size(cls):
    """the size of every instance, or None"""
    if issubclass(cls, T.AnyType):
        return T.AnyType.size
    if issubclass(cls, T.AddrType):
        return 32
    if cls is T.UInt8Type:
        return cls.size
    return None


def closed_types(o):
    """the classes of types are those the specification names"""
    known = {"TealishType", "AnyType", "IntType", "UIntType", "UInt8Type", "BytesType", "BigIntType", "AddrType", "StructType", "BoxType", "ArrayType"}
    new = [c.__name__ for c in TYPES if c.__name__ not in known]
    if new:
        raise Unsupported(f"classes {new} have no specification")
    return len(TYPES)


# -- literals --------------------------------------------------------------------------------
def literal_int(o):
    """an integer literal has the smallest width that holds its value (up to 64 bits, all that TEAL can push)"""
    v = z3.Int("value")
    c = 0

    def to_int(ip, x, *base):
        return SInt(v)

    def bit_length(ip, x):
        alts = [(z3.And(v >= (1 << (b - 1) if b else 0), v < (1 << b)), b) for b in range(65)]
        big = fresh("bits")
        alts.append((z3.And(v >= 1 << 64, big >= 65), SInt(big)))
        return ip.resolve(OneOf("bit length", alts))

    for r in runs(o, lambda ip: ip.call(en.Integer, [text("digits"), parent()], {}), {"int of text": to_int, "int.bit_length": bit_length}, base=[v >= 0]):
        if r.kind != "ok":
            raise Refuted(f"rejected: {r.value}")
        n = r.value
        t = n.type
        if not isinstance(t, T.IntType):
            raise Refuted(f"the type of a literal is {t}")
        s = zi(t.size)
        if not r.ctx.feasible(v < 1 << 64):
            must_(r, s > 8, "the type of a literal of more than 64 bits")
            c += 1
            continue
        p = z3.Or(*[z3.And(s == k, v < 1 << (8 * k), (v >= 1 << (8 * (k - 1))) if k > 1 else z3.BoolVal(True)) for k in range(1, 9)])
        must_(r, p, "the type of a literal is not the smallest that holds it")
        must_(r, zi(n.value) == v, "the value of a literal")
        c += 1
    return c


def literal_bytes(o):
    """a byte string literal has the length of what it denotes (its measure is proved in C14)"""
    c = 0
    n = z3.Int("bytes of the literal")

    def size(ip, value):
        ip.measured = value
        return SInt(n)

    for r in runs(o, lambda ip: ip.call(en.Bytes, [text("body", False, "strbody"), parent()], {}),
                  {"string_literal_size": size, "re.sub": lambda ip, *a: Rope([Atom(z3.String("escaped body"), what="strbody")])}, base=[n >= 0]):
        if r.kind != "ok":
            raise Refuted(f"rejected: {r.value}")
        t = r.value.type
        if type(t) is not T.BytesType:
            raise Refuted(f"the type of a literal is {t}")
        must_(r, zi(t.size) == n, "the size of a literal")
        if repr(r.ip.measured) != repr(r.value.value):
            raise Refuted("the text measured is not the text written")
        c += 1
    return c


# -- where types are checked ----------------------------------------------------------------------
def iff(o, build, cond, contracts=None, base=(), prepare=None):
    """accepted if and only if cond (z3, or a function of the run)"""
    c = oks = raises = 0

    def go(ip):
        n = build(ip)
        if prepare:
            prepare(ip, n)
        else:
            ip.call(ip.get_attr(n, "process"), [], {})
        return n

    for r in runs(o, go, contracts, base=base):
        if r.kind == "cut":
            continue
        k = cond(r) if callable(cond) else cond
        if r.kind == "ok":
            must_(r, k, "accepted, though a type does not fit")
            oks += 1
        else:
            must_(r, z3.Not(k), f"rejected, though every type fits: {r.value}")
            raises += 1
        c += 1
    if not oks or not raises:
        raise Refuted("always accepted" if oks else "never accepted")
    return c


def fits(spec, name, *idx):
    """the (single) value of an expression may be an operand of that class of type"""
    t = type_term(name, *idx)
    k = spec_kind(spec)
    if k is None:
        return z3.And(shape(name, *idx) == 1)
    return z3.And(shape(name, *idx) == 1, holds(z3.IntVal(kind_no(k)), z3.IntVal(k().size), KIND(t), SIZE(t)))


def spec_kind(ch):
    return {"U": T.IntType, "B": T.BytesType, ".": None}[ch]


def typed(name):
    """types are in range"""
    t = type_term(name)
    return SymType(t).facts()


def operands(op, how):
    spec = avm.OPS[op]
    fams = [expr(f"a{i}") for i in range(len(spec.get("Args", "")))]

    def f(o):
        def build(ip):
            if how == "unary":
                return mk(en.UnaryOp, op=op, a=fams[0](), nodes=[fams[0]()], parent=parent())
            if how == "binary":
                return mk(en.BinaryOp, op=op, a=fams[0](), b=fams[1](), nodes=[a() for a in fams], parent=parent())
            k = max(spec["Size"] - 1, 0)
            return ip.call(en.FunctionCall, [op, [mk(en.Integer, value=1, type=T.UIntType(1), parent=parent()) for _ in range(k)] + [a() for a in fams], parent()], {})

        return iff(o, build, z3.And(*[fits(ch, a.name) for a, ch in zip(fams, spec["Args"])]), oc01.NAMES, base=[typed(a.name) for a in fams])
    return f


def userfunc(o):
    """a call of a function: as many arguments as parameters, each held by its parameter's type"""
    a = expr("a")
    n = z3.Int("nargs")
    j = z3.Int("j!t")
    t, x = type_terms("param", j), type_term("a", j)
    known = z3.Bool("func declared")

    def look(ip, self, name):
        if not ip.ctx.branch(known):
            raise PyRaise(KeyError("no such function"))
        return oc01.func_of()

    def build(ip):
        return mk(en.UserDefinedFuncCall, name=text("fname"), args=many(a, n), nodes=[], type=T.AVMType.none, parent=parent())

    def cond(r):
        return z3.And(known, n == oc01.NA, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(shape("a", j) == 1, holds(KIND(t), SIZE(t), KIND(x), SIZE(x))))))

    def post(o):
        c = 0
        for r in runs(o, lambda ip: (lambda m: (ip.call(ip.get_attr(m, "process"), [], {}), m)[1])(build(ip)), {"BaseNode.lookup_func": look}, base=[n >= 0, oc01.NA >= 0, oc01.NR >= 0]):
            if r.kind != "ok":
                continue
            ty = r.ip.resolve(r.value.type)
            if isinstance(ty, SymType):
                must_(r, z3.And(oc01.NR == 1, ty.term == type_terms("ret", z3.IntVal(0))), "the type of a call")
            elif isinstance(ty, SList):
                if not ty.at(j).term.eq(type_terms("ret", j)):
                    raise Refuted("the types of a call")
                must_(r, z3.And(oc01.NR != 1, ty.n == oc01.NR), "the types of a call")
            else:
                raise Refuted(f"the type of a call is {ty}")
            c += 1
        return c

    return iff(o, build, cond, {"BaseNode.lookup_func": look}, base=[n >= 0, oc01.NA >= 0, oc01.NR >= 0]) + post(o)


def decl(o):
    e = expr("e")
    z = zs(text("vname"))
    known = z3.Bool("type known")

    def build(ip):
        ip.contracts = {**ip.contracts, "BaseNode.declare_scratch_var": lambda ip, self, name, ty: SymVar(zs(ip.resolve(name)))}
        return node(nodes.VarDeclaration, name=Opaque("name", attrs={"value": text("vname"), "tealish": None}, cls=nodes.Name), type_name=text("tname"), expression=e(), compiler=oc02.compiler(), parent=oc02.outer())

    t, x = VTYPE(z), type_term("e")
    return iff(o, build, z3.And(shape("e") == 1, holds(KIND(t), SIZE(t), KIND(x), SIZE(x))), base=[typed("e"), SymType(t).facts()])


def assert_(o):
    """assert takes one integer, or a value of unknown type"""
    e = expr("e")
    k = KIND(type_term("e"))
    return iff(o, lambda ip: oc02.made(ip, nodes.Assert, arg=e(), message=None), z3.And(shape("e") == 1, z3.Or(isa(k, T.IntType), isa(k, T.AnyType))), base=[typed("e")])


def one_value(cls, **fields):
    """exactly the expressions of one value are accepted there"""
    def f(o):
        e = expr("e")

        def build(ip):
            return oc02.made(ip, cls, **{k: (e() if v == "e" else v) for k, v in fields.items()})
        return iff(o, build, shape("e") == 1, {**oc02.BLOCKS, "BaseNode.declare_scratch_var": lambda ip, self, n, t: SymVar(zs(ip.resolve(n))), "BaseNode.del_var": lambda ip, self, n: None}, base=[typed("e")])
    return f


CALLS = [n for n in oc01.CALLS if avm.OPS[n].get("Args")]
OBLIGATIONS = [(f"{c.__name__} holds exactly the compatible values", relation(c)) for c in TYPES if c is not T.TealishType]
OBLIGATIONS += [("closed world of types", closed_types), ("width of integer literals", literal_int), ("length of byte string literals", literal_bytes)]
OBLIGATIONS += [(f"operand of {op}", operands(op, "unary")) for op in oc01.UN] + [(f"operands of {op}", operands(op, "binary")) for op in oc01.BIN]
OBLIGATIONS += [(f"operands of {op}()", operands(op, "call")) for op in CALLS]
OBLIGATIONS += [("arguments of a function", userfunc), ("declaration", decl), ("assert", assert_),
                ("assignment of one value", assignment("single")), ("assignment of several values", assignment("list")), ("assignment of nothing", assignment_none),
                ("return", return_), ("return: number of values", return_number),
                ("one value: exit", one_value(nodes.Exit, expression="e")), ("one value: while", one_value(nodes.WhileStatement, condition="e", modifier=None))]
OBLIGATIONS += [(f"number of arguments of {n}", oc01.opcount(n)) for n in oc01.CALLS]
