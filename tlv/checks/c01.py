"""C01 Expressions compute their documented value on the stack"""
import random

from .. import avm, forms, gen, lang
from ..lang import *  # noqa
from . import common
from .common import prog, run_prog, ctxs


def put(e):
    return ExprStmt(Op("app_global_put", [], [Bytes("k"), e]))


def out(e):
    """statements that make the value(s) of an expression observable"""
    if isinstance(e.ty, list):
        ds = [D(f"v{i}", "bytes") for i in range(len(e.ty))]
        ds = [D(d.name, "int" if t[0] == "int" else "bytes") for d, t in zip(ds, e.ty)]
        return [Decl(d) for d in ds] + [Assign(ds, e)] + [put(Var(d)) for d in ds]
    if e.ty is None:
        return [ExprStmt(e)]
    return [put(e)]


def pre(r):
    """variables, functions with visible effects, constants"""
    xi, xb, xs = D("x", "int"), D("b", "bytes"), D("s", "bytes[8]")
    st = [Decl(xi, Op("btoi", [], [Field("Txn", "ApplicationArgs", None, Int(2))])), Decl(xb, Field("Txn", "Note")), Decl(xs, Bytes("12345678"))]
    f = Func("tick", [D("n", "int")], ["int"])
    f.body = [ExprStmt(Op("log", [], [Op("itob", [], [Var(f.params[0])])])), Return([Var(f.params[0])])]
    h = Func("mark", [D("m", "bytes")], ["bytes"])
    h.body = [ExprStmt(Op("log", [], [Var(h.params[0])])), Return([Var(h.params[0])])]
    consts = [Const("FOO", 7, "7"), Const("BAR", b"k\"", '"k\\""'), Const("HEX", b"\x00\xff", "0x00ff")]
    return st, (xi, xb, xs), (f, h), consts


def systematic(arg):
    what, seed = arg
    r = random.Random(f"{what}{seed}")
    st, (xi, xb, xs), (f, h), consts = pre(r)

    def ival(k=None):
        k = r.randrange(7) if k is None else k
        return [
            lambda: Int(r.choice([0, 1, 2, 5, 255, 256, 2**32, 2**63, 2**64 - 1])), lambda: Var(xi), lambda: ConstRef(consts[0]),
            lambda: Call(f, [Int(r.randrange(9))]), lambda: Op("len", [], [Var(xb)]), lambda: Field("Global", "Round"),
            lambda: Grp(Bin(Call(f, [Var(xi)]), "+", Int(r.randrange(5)))),
        ][k]()

    def bval(k=None):
        k = r.randrange(8) if k is None else k
        return [
            lambda: Bytes(r.choice(gen.STRS)), lambda: Var(xb), lambda: ConstRef(consts[1]), lambda: Call(h, [Bytes(r.choice("abc"))]),
            lambda: Op("concat", [], [Call(h, [Var(xb)]), Bytes("z")]), lambda: Field("Txn", "Sender"), lambda: Var(xs), lambda: ConstRef(consts[2]),
        ][k]()

    def anyv():
        return r.choice([ival, bval])()

    val = {"U": ival, "B": bval, ".": anyv}
    kind, name = what[0], what[1]
    body = list(st)
    if kind == "op":
        o = avm.OPS[name]
        g = gen.Gen(seed)
        if name == "bzero":
            e = Bzero(ival())
        elif name in ("assert", "log"):
            e = Op(name, [], [val[o["Args"]]()])
        else:
            n = max(o["Size"] - 1, 0)
            if o.get("ArgEnum") and n == 1:
                imms = [o["ArgEnum"][seed % len(o["ArgEnum"])]]
            elif o.get("ArgEnum"):
                imms = [g.imm(name, k) for k in range(n)]
            else:
                imms = [r.choice([0, 1, 2, 7, 200, 255]) for _ in range(n)]
            if name == "substring":
                imms.sort()
            e = Op(name, imms, [val[c]() for c in o.get("Args", "")])
        body += out(e)
    elif kind == "bin":
        v = bval if name.startswith("b") or (name in ("==", "!=") and r.random() < 0.5) else ival
        a, b = v(), v()
        e = Bin(a, name, b)
        if r.random() < 0.6:
            e2 = Bin(Grp(e), r.choice(["+", "&&", "||", "=="]) if e.ty == INT else r.choice(["b+", "b|"]), val["U" if e.ty == INT else "B"]())
            e = Bin(e2.b, e2.op, e2.a) if r.random() < 0.5 else e2
        body += out(e)
    elif kind == "un":
        a = bval() if name == "b~" else ival()
        e = Un(name, a)
        if r.random() < 0.3:
            e = Un(name, e)
        if r.random() < 0.5 and name != "b~":
            e = Bin(e, "+", Un("!", ival()))
        body += out(e)
    elif kind == "field":
        ns, fld = name
        gi = ai = None
        if ns == "Gtxn":
            gi = r.choice([Int(r.choice([0, 1, 7, 15])), ("+", r.randrange(0, 9)), ("-", r.randrange(0, 3)), Var(xi), Bin(Call(f, [Int(3)]), "+", Int(1)), ConstRef(consts[0])])
        if fld in gen.ARRAYS and ns in ("Txn", "Gtxn", "Itxn"):
            ai = r.choice([Int(r.choice([0, 1, 2, 3])), Var(xi), Bin(Var(xi), "+", Int(0)), Call(f, [Int(1)]), ConstRef(consts[0])])
        e = Field(ns, fld, gi, ai)
        if ns == "Itxn":
            body.append(InnerTxn([("TypeEnum", None, Int(6))]))
        body += out(e)
        if r.random() < 0.4:
            body += out(Bin(e, "==", e))
    elif kind == "mix":
        # several operands with effects: exactly once, left to right
        e = ival(3)
        for _ in range(r.randrange(1, 7)):
            k = r.randrange(4)
            if k == 0:
                e = Bin(e if e.atom else Grp(e), r.choice(["+", "||", "&&", "|", "=="]), Call(f, [Int(r.randrange(9))]))
            elif k == 1:
                e = Bin(Call(f, [Int(r.randrange(9))]), r.choice(["+", "&&", "||", "<"]), e if e.atom else Grp(e))
            elif k == 2:
                e = Op("select", [], [e, Call(f, [Int(r.randrange(9))]), Call(f, [Int(0)])])
            else:
                e = Call(f, [e])
        body += out(e)
    elif kind == "deep":
        e, n = Var(xi), r.randrange(5, 26)
        for i in range(n):
            k = r.randrange(3)
            e = Grp(Bin(e, r.choice(["+", "|", "^", "&&"]), Int(i))) if k == 0 else Un(r.choice("!~"), e) if k == 1 else Op("btoi", [], [Op("itob", [], [e])])
        body += out(e)
    body += [Exit(Int(1)), f, h]
    p = prog(body, (), consts)
    args = [b"a0", b"a1", r.randrange(4).to_bytes(8, "big"), b"a3"]
    cs = [dict(c, txn={"ApplicationArgs": args, "Note": [b"note", b"", b"\0\1", b"n" * 30][r.randrange(4)]}) for c in ctxs(seed, 3)]
    if kind == "field" and name[1] in ("ApplicationArgs", "Note"):
        cs = [dict(c, txn={"ApplicationArgs": args}) for c in cs]
    return run_prog(p, cs, f"{what} seed {seed}")


def at(e):
    return e if e.atom else Grp(e)


def int_contexts(w):
    """what an integer operand can stand in"""
    V = Var
    out = [("alone", lambda e: e())]
    out += [(f"{u} of it", lambda e, u=u: Un(u, at(e()))) for u in "!~"]
    out += [(f"it {o} y", lambda e, o=o: Bin(at(e()), o, V(w.y))) for o in gen.INT_BIN]
    out += [(f"y {o} it", lambda e, o=o: Bin(V(w.y), o, at(e()))) for o in gen.INT_BIN]
    out += [("argument", lambda e: Call(w.f, [e()])), ("operand", lambda e: Op("itob", [], [e()])), ("operands", lambda e: Op("select", [], [V(w.y), e(), e()])), ("index", lambda e: Field("Gtxn", "Fee", e())),
            ("array index", lambda e: Field("Txn", "Assets", None, e())), ("other operand", lambda e: Op("substring3", [], [Bytes("abcdef"), Int(0), e()])), ("first operand", lambda e: Op("setbit", [], [e(), Int(3), Int(1)]))]
    return out


def bytes_contexts(w):
    out = [("alone", lambda e: e()), ("b~ of it", lambda e: Un("b~", at(e())))]
    ops = gen.B_BIN_B + gen.B_BIN_I + ["==", "!="]
    out += [(f"it {o} g", lambda e, o=o: Bin(at(e()), o, Var(w.g))) for o in ops]
    out += [(f"g {o} it", lambda e, o=o: Bin(Var(w.g), o, at(e()))) for o in ops]
    out += [("argument", lambda e: Call(w.h, [e()])), ("operand", lambda e: Op("len", [], [e()])), ("operands", lambda e: Op("concat", [], [e(), e()])), ("last operand", lambda e: Op("concat", [], [Bytes("q"), e()]))]
    return out


FIRST = ("alone", "! of it", "it == y", "y == it", "it && y", "argument", "operand", "operands", "it == g", "b~ of it", "last operand")


def operand(arg):
    """an operand of every form in a context"""
    kind, i, j, every, seed = arg
    w = forms.World()
    fs, cs = (w.ints(), int_contexts(w)) if kind == "int" else (w.bytes(), bytes_contexts(w))
    e = cs[j][1](fs[i])
    inputs = forms.contexts(seed, forms.INPUTS if every else forms.INPUTS[3:6])
    return run_prog(prog(w.pre + out(e) + [Exit(Int(1))] + w.tail, [forms.ST], w.consts), inputs, f"form {i} as {cs[j][0]}")


def operands(c):
    w = forms.World()
    r = random.Random(c.seed)
    out = []
    for kind, fs, cs in (("int", w.ints(), int_contexts(w)), ("bytes", w.bytes(), bytes_contexts(w))):
        for i in range(len(fs)):
            for j, (name, _) in enumerate(cs):
                if name.endswith("index") and isinstance(fs[i](), Int) and fs[i]().v > 15:
                    continue
                if name in FIRST or not c.quick or r.random() < 0.25:
                    out.append((kind, i, j, not c.quick or name in FIRST[:2], c.seed + i))
    return out


def cases(c):
    n = c.scale(2, 12)
    out = []
    ops = [o for o in gen.CALLABLE + ["log", "bzero"] if o not in ("err", "return")]
    for o in ops:
        k = max(n, len(avm.OPS[o].get("ArgEnum", ())))
        out += [(("op", o), c.seed * 100 + i) for i in range(k)]
    for b in gen.INT_BIN + gen.B_BIN_I + gen.B_BIN_B:
        out += [(("bin", b), c.seed * 100 + i) for i in range(3 * n)]
    for u in ("!", "~", "b~"):
        out += [(("un", u), c.seed * 100 + i) for i in range(4 * n)]
    for f in avm.FIELD_TYPES:
        for ns in ("Txn", "Gtxn", "Itxn"):
            out += [(("field", (ns, f)), c.seed * 100 + i) for i in range(n if ns != "Gtxn" else 2 * n)]
    for f in gen.GLOBALS:
        out += [(("field", ("Global", f)), c.seed * 100)]
    out += [(("mix", 0), c.seed * 1000 + i) for i in range(60 * n)]
    out += [(("deep", 0), c.seed * 1000 + i) for i in range(15 * n)]
    return out


FEAT = dict(depth=5, stmts=7, funcs=2, blocks=0, inner=False, nest=1, loops=False, pushpop=False, teal=False, w=dict(put=4, log=3, setfield=2))


def run(c):
    c.bounded("operands of every form (literals, constants, variables, fields, calls, groups, negations, every operator with variables and literals) in every "
              "context (every operator on either side, call, opcode, index); every callable opcode, operator, field form of the language with operands of every shape (literal, constant, "
              "variable, call with a visible effect, nested group), chains of effects, deep nestings, and random programs of "
              "nested expressions; non-trivial: distinct source, compiled, run in 3 contexts and compared with the reference")
    c.run(systematic, cases(c), "forms")
    c.run(operand, operands(c), "operands")
    c.run(common.differential, [(c.seed * 1000003 + i, FEAT, 3) for i in range(c.scale(700, 12000))], "random", c.scale(70, 400))
