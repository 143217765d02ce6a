"""Expressions of every form, as operands of every context: what a context does must not depend on the form of its operand."""
from . import avm, gen
from .lang import *  # noqa

ST = Struct("Pt", [("a", "int"), ("b", "uint8"), ("c", "bytes[3]"), ("d", "bytes[40]"), ("e", "addr")])
INPUTS = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 3), (3, 2), (7, 7), (200, 5)]


class World:
    """declarations that the forms use; the two arguments x and y are read from the input"""

    def __init__(self):
        arg = [Field("Txn", "ApplicationArgs", None, Int(i)) for i in range(3)]
        self.x, self.y, self.u = D("x", "int"), D("y", "int"), D("u", "uint8")
        self.b, self.s, self.g = D("b", "bytes"), D("s", "bytes[8]"), D("g", "bigint")
        self.ad, self.p, self.bx = D("ad", "addr"), D("p", ST), D("bx", BoxT(ST))
        self.consts = [Const("ZERO", 0, "0"), Const("ONE", 1, "1"), Const("NUM", 300, "300"), Const("TXT", b"k", '"k"'), Const("HEX", b"\x00\xff", "0x00ff")]
        self.f = Func("tick", [D("n", "int")], ["int"])
        self.f.body = [ExprStmt(Op("log", [], [Op("itob", [], [Var(self.f.params[0])])])), Return([Var(self.f.params[0])])]
        self.h = Func("mark", [D("m", "bytes")], ["bytes"])
        self.h.body = [ExprStmt(Op("log", [], [Var(self.h.params[0])])), Return([Var(self.h.params[0])])]
        self.pre = [Decl(self.x, Op("btoi", [], [arg[0]])), Decl(self.y, Op("btoi", [], [arg[1]])), Decl(self.u, Std("Cast", [Var(self.x)], ["uint8"])), Decl(self.b, arg[2]),
                    Decl(self.s, Std("Cast", [arg[0]], ["bytes[8]"])), Decl(self.g, arg[2]), Decl(self.ad, Field("Txn", "Sender")), Decl(self.p, Bzero(Int(84))),
                    FieldSet(self.p, "a", Var(self.x)), FieldSet(self.p, "b", Var(self.u)), FieldSet(self.p, "c", Bytes("xyz")),
                    BoxDecl(self.bx, "Create", Bytes("box")), FieldSet(self.bx, "a", Var(self.y)), FieldSet(self.bx, "b", Var(self.u))]
        self.tail = [self.f, self.h]

    def ints(self):
        x, y, V = self.x, self.y, Var
        out = [lambda v=v: Int(v) for v in (0, 1, 2, 255, 256)]
        out += [lambda c=c: ConstRef(c) for c in self.consts[:3]]
        out += [lambda: V(x), lambda: V(self.u), lambda: SField(self.p, "a"), lambda: SField(self.p, "b"), lambda: SField(self.bx, "a"), lambda: SField(self.bx, "b"),
                lambda: Call(self.f, [V(x)]), lambda: Op("len", [], [V(self.b)]), lambda: Op("btoi", [], [V(self.s)]), lambda: Op("select", [], [V(x), V(y), Int(1)]),
                lambda: Field("Global", "GroupSize"), lambda: Field("Txn", "Fee"), lambda: Field("Gtxn", "Fee", Int(0)), lambda: Field("Gtxn", "Fee", V(x)),
                lambda: Field("Gtxn", "GroupIndex", ("+", 1)), lambda: Field("Gtxn", "GroupIndex", ("-", 1)), lambda: Field("Txn", "Assets", None, Int(0)), lambda: Field("Txn", "Assets", None, V(x)),
                lambda: Std("Cast", [V(x)], ["uint8"]), lambda: Std("Convert", [V(self.s)], ["int"]), lambda: Std("FromBytes", [V(self.s)], ["int"]), lambda: SizeOf(ST),
                lambda: Std("UncheckedCast", [V(x)], ["uint8"]), lambda: Grp(V(x)), lambda: Grp(Int(0)), lambda: Grp(Int(1)), lambda: Grp(Grp(V(x))), lambda: Un("!", V(x)), lambda: Un("~", V(x)),
                lambda: Un("!", Un("!", V(x))), lambda: Un("~", Un("~", V(x))), lambda: Un("!", Grp(Un("!", V(x)))), lambda: Un("!", Int(0)), lambda: Un("!", ConstRef(self.consts[0]))]
        for op in gen.INT_BIN:
            out += [lambda op=op: Grp(Bin(V(x), op, V(y)))]
            out += [lambda op=op: Bin(V(x), op, V(y))]
            out += [lambda op=op: Un("!", Grp(Bin(V(x), op, V(y))))]
            out += [lambda op=op, k=k: Grp(Bin(V(x), op, Int(k))) for k in (0, 1)]
            out += [lambda op=op: Grp(Bin(Int(1), op, V(x)))]
        for op in ("==", "!=", "b<", "b>=", "b=="):
            out += [lambda op=op: Grp(Bin(V(self.b), op, Bytes("k")))]
        return out

    def bytes(self):
        V = Var
        out = [lambda v=v: Bytes(v) for v in ("", "k", "abcdefgh", "a" * 32)]
        out += [lambda c=c: ConstRef(c) for c in self.consts[3:]]
        out += [lambda d=d: V(d) for d in (self.b, self.s, self.g, self.ad, self.p)]
        out += [lambda f=f: SField(self.p, f) for f in "cde"] + [lambda f=f: SField(self.bx, f) for f in "cde"]
        out += [lambda: Call(self.h, [V(self.b)]), lambda: Op("concat", [], [V(self.b), Bytes("z")]), lambda: Op("itob", [], [V(self.x)]), lambda: Bzero(Int(8)), lambda: Bzero(V(self.x)),
                lambda: Field("Txn", "Sender"), lambda: Field("Txn", "Note"), lambda: Field("Txn", "ApplicationArgs", None, Int(2)), lambda: Field("Global", "ZeroAddress"),
                lambda: Field("Gtxn", "Note", V(self.x)), lambda: Std("Rpad", [Bytes("ab")], n=8), lambda: Std("Lpad", [V(self.b)], n=40), lambda: Std("ToBytes", [V(self.x)], n=8),
                lambda: Std("Convert", [V(self.x)], ["bytes[8]"]), lambda: Std("Cast", [V(self.b)], ["bytes[1]"]), lambda: Std("Concat", [V(self.b), V(self.s)]), lambda: Grp(V(self.b)), lambda: Grp(Bytes("k"))]
        for op in gen.B_BIN_B:
            out += [lambda op=op: Grp(Bin(V(self.b), op, V(self.g))), lambda op=op: Bin(V(self.b), op, Bytes("k"))]
        return out


def contexts(seed, inputs=INPUTS):
    """every value of the two arguments"""
    out = []
    for i, (x, y) in enumerate(inputs):
        out.append(dict(salt=seed * 7 + i, lenient=i % 2 == 0, txn={"ApplicationArgs": [x.to_bytes(8, "big"), y.to_bytes(8, "big"), (b"", b"k", b"\x00k", b"long value")[i % 4]], "Note": b"note%d" % i}))
    return out
