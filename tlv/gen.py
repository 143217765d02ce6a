"""Random well-typed Tealish programs (as tlv.lang syntax trees)."""
import random

from . import avm
from .lang import *  # noqa
from . import lang as L

U_SCALAR = [f for f in avm.OPS["txn"]["ArgEnum"] if avm.FIELD_TYPES[f] == "U" and f not in avm.OPS["txna"]["ArgEnum"]]
B_SCALAR = [f for f in avm.OPS["txn"]["ArgEnum"] if avm.FIELD_TYPES[f] == "B" and f not in avm.OPS["txna"]["ArgEnum"]]
ARRAYS = avm.OPS["txna"]["ArgEnum"]
G = avm.OPS["global"]
GLOBALS = dict(zip(G["ArgEnum"], G["ArgEnumTypes"]))
ITXN_FIELDS = dict(zip(avm.OPS["itxn_field"]["ArgEnum"], avm.OPS["itxn_field"]["ArgEnumTypes"]))
NO_CALL = set(
    """err return b bz bnz callsub retsub assert switch match pop popn bury dup dupn dup2 dig swap cover uncover
    frame_dig frame_bury proto load store loads stores intcblock bytecblock intc bytec pushint pushints pushbytes
    pushbytess int byte addr replace bzero itxn_begin itxn_next itxn_submit itxn_field log box_create box_put
    box_replace box_del txn txna txnas gtxn gtxna gtxnas gtxns gtxnsa gtxnsas itxn itxna itxnas global
    gitxn gitxna gitxnas""".split()
)
INT_BIN = "+ - * / % == >= <= > < != && || | ^ &".split()
B_BIN_I = "b== b!= b>= b<= b> b<".split()
B_BIN_B = "b+ b- b/ b* b% b| b& b^".split()


def callable_ops():
    out = []
    for n, o in avm.OPS.items():
        if n in NO_CALL or not n[0].isalpha() or n.startswith(("intc_", "bytec_", "arg_")) or n in INT_BIN:
            continue
        if n.startswith("b") and n[1:] in "+ - / * % == != >= <= > < | & ^ ~".split():
            continue
        if o["Size"] == 0:
            continue
        out.append(n)
    return out


CALLABLE = callable_ops()
BY_RET = {}
for _n in CALLABLE:
    BY_RET.setdefault(avm.OPS[_n].get("Returns", ""), []).append(_n)
MULTI = [n for n in CALLABLE if len(avm.OPS[n].get("Returns", "")) > 1]

NAMES = """x y a b i n amount asset_id total return_x break_x end_x else_x if_x for_x while_x not_x int_x bytes_x
box_x exit_x assert_x func_x block_x switch_x teal_x const_x xY x_1 a1 b2 elif_x jump_x router_x struct_x pop_x
inner_x l0_end l1_while route_a main key value abc x2 zz""".split()
FNAMES = """f g foo bar helper end_f return_f get_x set_x if_f for_f do do_it calc sum_all public_f main f1 f2 f_g
route r_1 func_f main__f""".split()
BNAMES = """main setup create opt_in swap_b done else_b end_b b1 b2 loop Bk Create_2 method_x zz""".split()
SNAMES = "Item A Pair Foo B1 Pool_State Z".split()
FIELDN = "id price seller a b c total_x r z flag".split()
CNAMES = "FOO BAR A B1 X_Y MAX_FEE ZERO KEY Z9".split()
STRS = [
    "", "a", "abc", "hello world", "k", "x//y", "http://a.b/c", "a;b", "a:b", "# no", "a # b", "\\x00", "\\x00\\xff\\x7f",
    "a\\nb", "\\\\", "q\\\"q", "it's", "a, b", "(x)", "= 1", " a  b ", "end", "if x:", "é", "\\t", "[0]", "a = b",
    "12345678", "0123456789012345678901234567890a", "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
]
CMTS = [" a comment", "", " end", ' "quoted', " x = 1", " // slashes", "# double", " if x:", " ;"]


class Scope:
    def __init__(self, parent=None, func=None):
        self.parent, self.func = parent, func
        self.vars, self.names, self.funcs, self.blocks = [], set(), {}, {}

    def visible(self):
        out, s = [], self
        while s:
            out += s.vars
            s = s.parent
        return out

    def taken(self):
        out, s = set(), self
        while s:
            out |= s.names
            s = s.parent
        return out

    def all_funcs(self):
        out, s = {}, self
        while s:
            for n, f in s.funcs.items():
                out.setdefault(n, f)
            s = s.parent
        return list(out.values())

    def all_blocks(self):
        out, s = {}, self
        while s:
            for n, b in s.blocks.items():
                out.setdefault(n, b)
            s = s.parent
        return list(out.values())


class Gen:
    def __init__(self, seed, **feat):
        self.r = random.Random(seed)
        self.f = dict(
            depth=3, stmts=6, funcs=3, blocks=2, structs=2, consts=3, boxes=True, inner=True, for_=False, router=False,
            pushpop=True, teal=True, comments=True, fail=0.15, strings=STRS, multi=True, loops=True, nest=3, w={}, shadow=True,
        )
        self.f.update(feat)
        self.uid = 0
        self.structs, self.consts = [], []
        self.in_group = 0
        self.order = {}

    # -------------------------------------------------------------- helpers
    def pick(self, xs):
        return self.r.choice(list(xs))

    def chance(self, p):
        return self.r.random() < p

    def fresh(self, pool, taken):
        if self.chance(0.6):
            c = [n for n in pool if n not in taken]
            if c:
                return self.pick(c)
        while True:
            self.uid += 1
            n = f"{self.pick(pool)}{self.uid}"
            if n not in taken:
                return n

    def lit_int(self, small=False):
        if small or self.chance(0.6):
            return Int(self.r.randrange(0, 12))
        return Int(self.pick([0, 1, 255, 256, 65535, 65536, 2**32, 2**63, U64 - 1, self.r.randrange(1000), self.r.randrange(U64)]))

    def lit_bytes(self, n=None):
        if n is None:
            raw = self.pick(self.f["strings"]) if self.chance(0.7) else self.rand_raw(self.r.randrange(0, 12))
            return Bytes(raw)
        return Bytes(self.rand_raw(n))

    def rand_raw(self, n):
        out = ""
        for _ in range(n):
            out += self.pick(["a", "b", "Z", "0", "_", " ", "/", ";", ":", "#", "\\x00", "\\xff", "\\\"", "\\\\", "\\n", "'", ",", "(", ")", "="])
        return out

    # -------------------------------------------------------------- expressions
    def weigh(self, opts):
        w = self.f["w"]
        return [o for o in opts for _ in range(w.get(o, 1))] or opts if w else opts

    def vars_where(self, sc, p):
        return [d for d in sc.visible() if p(d)]

    def definite(self, kind, sc, d):
        """an expression whose type is known to be int or bytes"""
        while True:
            e = self.expr(kind, sc, d)
            if e.ty != ANY:
                return e

    def operand(self, kind, sc, d):
        e = self.expr(kind, sc, d)
        return e if e.atom else Grp(e)

    def expr(self, t, sc, d=None):
        """an expression whose value may be held by declared type t ('any' for any single value)"""
        if d is None:
            d = self.r.randrange(0, self.f["depth"] + 1)
        if t == "any":
            t = self.pick(["int", "bytes"])
        if t in ("int", "uint64"):
            return self.int_expr(sc, d)
        if t == "uint8":
            return self.uint8_expr(sc, d)
        if t in ("bytes", "bigint"):
            return self.bytes_expr(sc, d)
        return self.sized_expr(t, sc, d)

    def int_expr(self, sc, d):
        leaf = d <= 0
        opts = ["lit", "lit", "var", "var", "const", "field", "sizeof"]
        if not leaf:
            opts += ["bin", "bin", "bin", "cmpb", "un", "op", "op", "any", "call", "call", "sfield", "cast", "idx", "frombytes", "len", "convert"]
        opts = self.weigh(opts)
        while True:
            k = self.pick(opts)
            if k == "lit":
                return self.lit_int()
            if k == "var":
                vs = self.vars_where(sc, lambda x: is_int_type(x.t))
                if vs:
                    return Var(self.pick(vs))
            if k == "const":
                cs = [c for c in self.consts if isinstance(c.v, int)]
                if cs:
                    return ConstRef(self.pick(cs))
            if k == "sizeof" and self.structs and self.chance(0.3):
                return SizeOf(self.pick(self.structs))
            if k == "field":
                ns = self.pick(["Txn", "Global", "Gtxn"])
                if ns == "Global":
                    return Field("Global", self.pick([g for g, x in GLOBALS.items() if x == "U"]))
                return Field(ns, self.pick(U_SCALAR), self.gidx(sc, d) if ns == "Gtxn" else None)
            if k == "idx":
                return self.arr_field("U", sc, d)
            if k == "bin":
                a = self.operand("int", sc, d - 1)
                op = self.pick(INT_BIN)
                if op in ("/", "%") and self.chance(1 - self.f["fail"]):
                    b = Int(self.r.randrange(1, 9))
                elif op in ("-", "*") and self.chance(1 - self.f["fail"]):
                    op = "+" if op == "-" else "*"
                    b = Int(self.r.randrange(0, 4))
                else:
                    b = self.operand("int", sc, d - 1)
                return Bin(a, op, b)
            if k == "cmpb":
                a, b = self.operand("bytes", sc, d - 1), self.operand("bytes", sc, d - 1)
                return Bin(a, self.pick(["==", "!="] + B_BIN_I), b)
            if k == "un":
                return Un(self.pick("!~"), self.operand("int", sc, d - 1))
            if k == "len":
                return Op("len", [], [self.expr("bytes", sc, d - 1)])
            if k in ("op", "any"):
                return self.op_call("U" if k == "op" else ".", sc, d)
            if k == "call":
                c = self.call(sc, d, lambda f: len(f.rets) == 1 and is_int_type(f.rets[0]))
                if c:
                    return c
            if k == "sfield":
                e = self.sfield(sc, lambda t: is_int_type(t))
                if e:
                    return e
            if k == "cast":
                return Std(self.pick(["Cast", "UncheckedCast", "EnsureType"]), [self.definite("int", sc, d - 1)], ["int"])
            if k == "frombytes":
                return Std("FromBytes", [self.short_bytes(sc, d - 1)], ["int"])
            if k == "convert":
                return Std("Convert", [self.short_bytes(sc, d - 1)], ["int"])

    def short_bytes(self, sc, d):
        return self.pick([
            lambda: Op("itob", [], [self.expr("int", sc, d)]),
            lambda: self.lit_bytes(self.r.randrange(0, 9)),
            lambda: Std("ToBytes", [Int(self.r.randrange(200))], n=self.r.randrange(1, 9)),
        ])()

    def uint8_expr(self, sc, d):
        for _ in range(20):
            k = self.pick(["lit", "var", "cast", "sfield", "call", "unchecked", "ensure", "cast1", "convert"])
            if k == "lit":
                return Int(self.r.randrange(256))
            if k == "var":
                vs = self.vars_where(sc, lambda x: x.t == "uint8")
                if vs:
                    return Var(self.pick(vs))
            if k == "sfield":
                e = self.sfield(sc, lambda t: t == "uint8")
                if e:
                    return e
            if k == "call" and d > 0:
                c = self.call(sc, d, lambda f: len(f.rets) == 1 and f.rets[0] == "uint8")
                if c:
                    return c
            if d > 0:
                if k == "cast":
                    return Std(self.pick(["Cast", "EnsureType"]), [Bin(self.operand("int", sc, d - 1), "%", Int(256))], ["uint8"])
                if k == "cast1":
                    return Std("Cast", [self.definite("int", sc, d - 1)], ["uint8"])
                if k == "unchecked":
                    return Std("UncheckedCast", [Bin(self.operand("int", sc, d - 1), "&", Int(255))], ["uint8"])
                if k == "convert":
                    return Std("Convert", [self.lit_bytes(self.r.randrange(0, 3))], ["uint8"])
        return Int(7)

    def bytes_expr(self, sc, d):
        leaf = d <= 0
        opts = ["lit", "lit", "var", "var", "const", "field"]
        if not leaf:
            opts += ["op", "op", "any", "call", "call", "sfield", "concat", "Concat", "itob", "sub", "bbin", "bun", "pad",
                     "tobytes", "sized", "idx", "convert", "arc28", "bzero", "addr", "replace"]
        opts = self.weigh(opts)
        while True:
            k = self.pick(opts)
            if k == "lit":
                return self.lit_bytes()
            if k == "var":
                vs = self.vars_where(sc, lambda x: not is_int_type(x.t) and not isinstance(x.t, BoxT))
                if vs:
                    return Var(self.pick(vs))
            if k == "const":
                cs = [c for c in self.consts if isinstance(c.v, bytes)]
                if cs:
                    return ConstRef(self.pick(cs))
            if k == "field":
                ns = self.pick(["Txn", "Global", "Gtxn"])
                if ns == "Global":
                    return Field("Global", self.pick([g for g, x in GLOBALS.items() if x == "B"]))
                return Field(ns, self.pick(B_SCALAR), self.gidx(sc, d) if ns == "Gtxn" else None)
            if k == "idx":
                return self.arr_field("B", sc, d)
            if k in ("op", "any"):
                return self.op_call("B" if k == "op" else ".", sc, d)
            if k == "call":
                c = self.call(sc, d, lambda f: len(f.rets) == 1 and not is_int_type(f.rets[0]))
                if c:
                    return c
            if k == "sfield":
                e = self.sfield(sc, lambda t: not is_int_type(t))
                if e:
                    return e
            if k == "concat":
                return Op("concat", [], [self.expr("bytes", sc, d - 1), self.expr("bytes", sc, d - 1)])
            if k == "Concat":
                n = self.pick([1, 2, 2, 3, 4, 7])
                return Std("Concat", [self.expr("bytes", sc, 0 if n > 3 else d - 1) for _ in range(n)])
            if k == "arc28":
                sig = self.pick(["set_manager(address)", "f()", "x(uint64,byte[])", "a"])
                return Std("ARC28Event", [Bytes(sig)] + [self.expr("bytes", sc, 0) for _ in range(self.r.randrange(4))])
            if k == "itob":
                return Op("itob", [], [self.expr("int", sc, d - 1)])
            if k == "sub":
                a = self.r.randrange(0, 5)
                return Op("substring", [a, a + self.r.randrange(0, 5)], [self.expr("bytes", sc, d - 1)])
            if k == "replace":
                return Op("replace2", [self.r.randrange(0, 3)], [self.expr("bytes", sc, d - 1), self.lit_bytes(self.r.randrange(0, 3))])
            if k == "bbin":
                return Bin(self.operand("bytes", sc, d - 1), self.pick(B_BIN_B), self.operand("bytes", sc, d - 1))
            if k == "bun":
                return Un("b~", self.operand("bytes", sc, d - 1))
            if k == "pad":
                return Std(self.pick(["Rpad", "Lpad"]), [self.definite("bytes", sc, d - 1)], n=self.pick([1, 8, 32, 64, 200]))
            if k == "tobytes":
                return Std("ToBytes", [self.definite("int", sc, d - 1)], n=self.pick([1, 2, 7, 8, 9, 16, 32]))
            if k == "convert":
                return Std("Convert", [self.definite("int", sc, d - 1)], [self.pick(["bytes", "bytes[1]", "bytes[4]", "bytes[8]", "bytes[9]", "bytes[32]"])])
            if k == "sized":
                return self.sized_expr(f"bytes[{self.pick([1, 3, 8, 32, 40])}]", sc, d - 1)
            if k == "bzero":
                return Bzero(self.pick([Int(self.r.randrange(0, 40)), Bin(self.operand("int", sc, d - 1), "%", Int(20))]))
            if k == "addr":
                return Addr("RIKLQ5HEVXAOAWYSW2LGQFYGWVO4J6LIAQQ72ZRULHZ4KS5NRPCCKYPCUU")

    def sized_expr(self, t, sc, d):
        n = tsize(t)
        for _ in range(30):
            k = self.pick(["var", "var", "lit", "cast", "pad", "bzero", "call", "sfield", "tobytes", "sender", "unchecked", "convert", "ensure"])
            if k == "var":
                vs = self.vars_where(sc, lambda x: not is_int_type(x.t) and not isinstance(x.t, BoxT) and tsize(x.t) == n and n)
                if vs:
                    return Var(self.pick(vs))
            if k == "lit" and n < 60:
                return self.lit_bytes(n)
            if k == "pad":
                return Std(self.pick(["Rpad", "Lpad"]), [self.lit_bytes(self.r.randrange(0, min(n, 6) + 1))], n=n)
            if k == "bzero":
                if isinstance(t, Struct) and self.chance(0.5):
                    return Bzero(SizeOf(t))
                return Bzero(Int(n))
            if k == "sender" and n == 32:
                return Field("Txn", "Sender")
            if k == "call" and d > 0:
                c = self.call(sc, d, lambda f: len(f.rets) == 1 and not is_int_type(f.rets[0]) and tsize(f.rets[0]) == n and n)
                if c:
                    return c
            if k == "sfield":
                e = self.sfield(sc, lambda x: not is_int_type(x) and tsize(x) == n)
                if e:
                    return e
            if k == "cast" and d > 0:
                e = Bzero(Int(n)) if self.chance(0.7) else self.definite("bytes", sc, d - 1)
                return Std("Cast", [e], [t])
            if k == "unchecked":
                return Std("UncheckedCast", [Op("concat", [], [Bzero(Int(n - 1)), Bytes("x")])], [t])
            if k == "ensure":
                return Std("EnsureType", [Op("concat", [], [Bzero(Int(n - 1)), Bytes("x")])], [t])
            if k == "tobytes":
                return Std("ToBytes", [Int(self.r.randrange(256))], n=n)
            if k == "convert" and d > 0 and not isinstance(t, Struct) and t != "addr":
                return Std("Convert", [self.definite("int", sc, d - 1)], [t])
        return Bzero(Int(n))

    def gidx(self, sc, d):
        k = self.r.randrange(4)
        if k == 0:
            return Int(self.r.randrange(16))
        if k == 1:
            return (self.pick("+-"), self.r.randrange(3))
        if k == 2:
            vs = self.vars_where(sc, lambda x: is_int_type(x.t))
            if vs:
                return Var(self.pick(vs))
        e = Bin(self.operand("int", sc, max(0, d - 1)), "%", Int(8))
        return e

    def arr_field(self, t, sc, d):
        ns = self.pick(["Txn", "Gtxn"])
        f = self.pick([a for a in ARRAYS if avm.FIELD_TYPES[a] == t])
        ai = Int(self.r.randrange(4)) if self.chance(0.5) else Bin(self.operand("int", sc, d - 1), "%", Int(4))
        return Field(ns, f, self.gidx(sc, d) if ns == "Gtxn" else None, ai)

    def imm(self, name, k):
        o = avm.OPS[name]
        if "ArgEnum" in o and (k == 0 or o["Size"] - 1 == 1):
            return self.pick(o["ArgEnum"])
        return self.r.randrange(0, 6)

    def op_call(self, ret, sc, d, name=None):
        name = name or self.pick(BY_RET.get(ret, ["len"]))
        o = avm.OPS[name]
        imms = [self.imm(name, k) for k in range(o["Size"] - 1)]
        if name in ("substring",):
            imms = sorted(imms)
        args = [self.expr({"U": "int", "B": "bytes", ".": "any"}[c], sc, d - 1) for c in o.get("Args", "")]
        return Op(name, imms, args)

    def sfield(self, sc, p):
        out = []
        for d in sc.visible():
            st = d.t.struct if isinstance(d.t, BoxT) else d.t
            if isinstance(st, Struct):
                out += [(d, f) for f, t in st.fields if p(t)]
        return SField(*self.pick(out)) if out else None

    def call(self, sc, d, p):
        if self.no_calls:
            return None
        fs = [f for f in sc.all_funcs() if p(f) and self.can_call(sc, f)]
        if not fs:
            return None
        f = self.pick(fs)
        return Call(f, [self.expr(q.t, sc, d - 1) for q in f.params])

    no_calls = False

    def can_call(self, sc, f):
        """no recursion: a function may only call functions generated before it"""
        cur = sc
        while cur and cur.func is None:
            cur = cur.parent
        return cur is None or self.order[f] < self.order[cur.func]

    # -------------------------------------------------------------- statements
    def rand_type(self, boxes=False):
        k = self.r.random()
        if k < 0.35:
            return "int"
        if k < 0.45:
            return "uint8"
        if k < 0.65:
            return "bytes"
        if k < 0.78:
            return f"bytes[{self.pick([1, 3, 8, 32, 40])}]"
        if k < 0.83:
            return "bigint"
        if k < 0.88:
            return "addr"
        if self.structs:
            return self.pick(self.structs)
        return "int"

    def declare(self, sc, t=None, e=True):
        t = t or self.rand_type()
        d = D(self.fresh(NAMES, sc.taken()), t)
        st = [Decl(d, self.expr(t, sc))] if e else [Decl(d)]
        sc.names.add(d.name)
        sc.vars.append(d)
        return d, st

    def decl_box(self, sc):
        if not (self.structs and self.f["boxes"]):
            return self.declare(sc)[1]
        st = self.pick(self.structs)
        d = D(self.fresh(NAMES, sc.taken()), BoxT(st))
        s = BoxDecl(d, self.pick(["Create", "Open", "", "Create"]), self.box_key(sc))
        sc.names.add(d.name)
        sc.vars.append(d)
        return [s]

    def box_key(self, sc):
        return self.pick([Bytes("box_a"), Bytes("b"), Op("concat", [], [Bytes("k"), Op("itob", [], [Int(self.r.randrange(3))])])])

    def stmts(self, sc, n, ctl):
        """ctl: dict of what is allowed: brk, ret (Func), jump (bool), nest"""
        out = []
        for _ in range(n):
            out += self.stmt(sc, ctl)
        return out

    def stmt(self, sc, ctl):
        nest = ctl.get("nest", self.f["nest"])
        opts = ["assign"] * 4 + ["decl"] * 3 + ["log", "put", "assert", "multi", "multi", "setfield", "setfield", "callst", "declbox"]
        if self.f["pushpop"]:
            opts += ["pushpop"]
        if self.f["teal"]:
            opts += ["teal"]
        if self.f["comments"]:
            opts += ["comment", "blank"]
        if self.f["inner"] and not ctl.get("noinner"):
            opts += ["itxn"]
            if not self.in_group and ctl.get("group", True):
                opts += ["igroup"]
        if nest > 0:
            opts += ["if", "if", "if"]
            if self.f["loops"]:
                opts += ["while", "for", "for"]
                if self.f["for_"] and not ctl.get("nofor_"):
                    opts += ["for_"] * 3
        if ctl.get("brk"):
            opts += ["brk"]
        if ctl.get("ret"):
            opts += ["ret"]
        if ctl.get("jump") and sc.all_blocks():
            opts += ["jump"]
        if ctl.get("exit"):
            opts += ["exit"]
        k = self.pick(self.weigh(opts))
        sub = dict(ctl, nest=nest - 1)
        m = self.r.randrange(1, 4)
        if k == "decl":
            if self.chance(0.2):
                d, s = self.declare(sc, e=False)
                if isinstance(d.t, BoxT):
                    return s
                sc.vars.remove(d)
                s.append(Assign([d], self.expr(d.t, sc)))
                sc.vars.append(d)
                return s
            return self.declare(sc)[1]
        if k == "declbox":
            return self.decl_box(sc) if self.f["boxes"] else []
        if k == "assign":
            vs = [d for d in sc.visible() if not isinstance(d.t, BoxT) and d not in ctl.get("locked", ())]
            if not vs:
                return self.declare(sc)[1]
            d = self.pick(vs)
            return [Assign([d], self.expr(d.t, sc))]
        if k == "log":
            return [ExprStmt(Op("log", [], [self.expr("bytes", sc)]))]
        if k == "put":
            return [ExprStmt(Op("app_global_put", [], [self.expr("bytes", sc), self.expr("any", sc)]))]
        if k == "assert":
            e = self.expr("int", sc)
            if self.chance(1 - self.f["fail"]):
                e = Bin(e if e.atom else Grp(e), "||", Int(1))
            msg = self.pick(["Error", "a b c", "bad: value", "x // y", "50%; no", "(a)", "a, b"]) if self.chance(0.4) else None
            return [Assert(e, msg)]
        if k == "multi":
            return self.multi(sc, ctl)
        if k == "setfield":
            r = self.sfield(sc, lambda t: True)
            if r:
                return [FieldSet(r.d, r.f, self.expr(r.t, sc))]
            return []
        if k == "callst":
            c = self.call(sc, 2, lambda f: not f.rets)
            return [ExprStmt(c)] if c else []
        if k == "pushpop":
            return self.pushpop(sc, ctl)
        if k == "teal":
            return [self.teal()]
        if k == "comment":
            return [Comment(self.pick(CMTS))]
        if k == "blank":
            return [Blank()]
        if k == "itxn":
            return [self.itxn(sc)]
        if k == "igroup":
            self.in_group += 1
            body = [self.itxn(sc)] + self.stmts(sc, m, dict(sub, brk=None, ret=None, jump=False, exit=False, group=False))
            self.in_group -= 1
            return [InnerGroup(body)]
        if k == "if":
            n = self.pick([1, 1, 1, 2, 2, 3, 5])
            br = []
            for _ in range(n):
                c = self.expr("int", sc)
                br.append((self.chance(0.3), c, self.if_body(sc, m, sub)))
            el = self.if_body(sc, m, sub) if self.chance(0.5) else None
            return [If(br, el)]
        if k == "while":
            # bounded by a counter
            c = D(self.fresh(NAMES, sc.taken()), "int")
            sc.names.add(c.name)
            sc.vars.append(c)
            inner = Scope(sc)
            locked = tuple(ctl.get("locked", ())) + (c,)
            body = [Assign([c], Bin(Var(c), "+", Int(1)))]
            body += self.stmts(inner, m, dict(sub, brk=True, locked=locked, group=ctl.get("group", True)))
            lim = Int(self.r.randrange(0, 4))
            neg = self.chance(0.3)
            cond = Bin(Var(c), ">=" if neg else "<", lim)
            if self.chance(0.3):
                cond = Bin(Grp(cond), "||" if neg else "&&", Grp(self.bin(sc)))
            return [Decl(c, Int(0)), While(neg, cond, body)]
        if k in ("for", "for_"):
            inner = Scope(sc)
            a = self.r.randrange(0, 4)
            start, end = Int(a), Int(a + self.r.randrange(0, 4))
            pre = []
            if self.chance(0.3):
                d = D(self.fresh(NAMES, sc.taken()), "int")
                pre = [Decl(d, end)]
                sc.names.add(d.name)
                sc.vars.append(d)
                end = Var(d)
                ctl = dict(ctl, locked=tuple(ctl.get("locked", ())) + (d,))
                sub = dict(ctl, nest=nest - 1)
            if k == "for_":
                body = self.stmts(inner, m, dict(sub, brk=False, jump=False, ret=None, exit=False, nofor_=True))
                return pre + [For_(start, end, body)]
            v = D(self.fresh(NAMES, sc.taken()), "int")
            inner.names.add(v.name)
            inner.vars.append(v)
            sub = dict(sub, locked=tuple(sub.get("locked", ())) + (v,))
            # break inside a for leaves the enclosing while loop
            body = self.stmts(inner, m, sub)
            return pre + [For(v, start, end, body)]
        if k == "brk":
            return [If([(self.chance(0.3), self.expr("int", sc), [Break()])])]
        if k == "ret":
            f = ctl["ret"]
            return [If([(False, self.expr("int", sc), [Return([self.expr(t, sc) for t in f.rets])])])]
        if k == "jump":
            return [If([(False, self.expr("int", sc), [Jump(self.pick(sc.all_blocks()))])])]
        if k == "exit":
            return [If([(False, self.expr("int", sc), [Exit(self.expr("int", sc))])])]
        return []

    def if_body(self, sc, m, sub):
        """if bodies share the scope of the statement, but what is declared in one
        branch is not initialised elsewhere: keep the names, drop the variables"""
        n = len(sc.vars)
        b = self.stmts(sc, self.r.randrange(0, m + 1), sub)
        del sc.vars[n:]
        return b

    def bin(self, sc):
        return Bin(self.operand("int", sc, 1), self.pick(["+", "==", "<", ">", "|"]), self.operand("int", sc, 0))

    def multi(self, sc, ctl):
        cands = []
        if self.chance(0.6):
            fs = [f for f in sc.all_funcs() if len(f.rets) > 1 and self.can_call(sc, f)] if not self.no_calls else []
            if fs:
                f = self.pick(fs)
                e = Call(f, [self.expr(q.t, sc, 1) for q in f.params])
                types = f.rets
                cands = [(e, types)]
        if not cands:
            name = self.pick(MULTI)
            e = self.op_call(None, sc, 2, name)
            types = [{"U": "int", "B": "bytes", ".": "any"}[c] for c in avm.OPS[name]["Returns"]][::-1]
            cands = [(e, types)]
            if all(t != "any" for t in types) and self.chance(0.1):
                e = Std("UncheckedCast", [e], types)
                cands = [(e, types)]
        e, types = cands[0]
        names, pre = [], []
        used = set()
        for t in types:
            if self.chance(0.3):
                names.append(None)
                continue
            vt = "int" if t == "any" and self.chance(0.5) else "bytes" if t == "any" else t
            vs = [d for d in sc.visible() if self.fit_decl(d.t, t) and d not in used and d not in ctl.get("locked", ())]
            if vs and self.chance(0.6):
                d = self.pick(vs)
            else:
                d = D(self.fresh(NAMES, sc.taken()), vt)
                sc.names.add(d.name)
                pre.append(Decl(d))
                sc.vars.append(d)
            used.add(d)
            names.append(d)
        return pre + [Assign(names, e)]

    def fit_decl(self, dt, vt):
        """may a variable of type dt hold a result of declared type vt"""
        if isinstance(dt, BoxT):
            return False
        if vt == "any":
            return False
        return can_hold(dt, tval(vt))

    def pushpop(self, sc, ctl):
        n = self.r.randrange(1, 4)
        ts = [self.pick(["int", "bytes"]) for _ in range(n)]
        out = [Push([self.expr(t, sc, 1) for t in ts])]
        for t in ts[::-1]:
            d, s = self.declare(sc, t, e=False)
            out += [s[0], Assign([d], L.Pop())]
        return out

    def teal(self):
        k = self.r.randrange(4)
        if k == 0:
            return Teal(["pushint 1", "pop"], lambda s: None)
        if k == 1:
            return Teal(['pushbytes "inline // teal"', "log // a comment"], lambda s: s.w.op("log", (), [b"inline // teal"]))
        if k == 2:
            return Teal(["// only a comment", "pushint 3; pushint 4", "+", "itob; log"], lambda s: s.w.op("log", (), [(7).to_bytes(8, "big")]))
        return Teal(['byte "a;b"', "len", "pop"], lambda s: None)

    def itxn(self, sc):
        fields, arrs = [], {}
        for _ in range(self.r.randrange(1, 5)):
            f = self.pick(list(ITXN_FIELDS))
            t = {"U": "int", "B": "bytes"}[ITXN_FIELDS[f]]
            if f in ("ApplicationArgs", "Accounts", "Assets", "Applications"):
                i = arrs.get(f, 0)
                arrs[f] = i + 1
                fields.append((f, i, self.expr(t, sc, 1)))
            else:
                fields.append((f, None, self.expr(t, sc)))
        return InnerTxn(fields)

    # -------------------------------------------------------------- program
    def func(self, sc, name=None, public=False, simple=False):
        n = self.pick([0, 1, 1, 2, 2, 3, 5]) if not simple else self.r.randrange(3)
        f = Func(name or self.fresh(FNAMES, set(sc.funcs) | (self.all_fnames if not self.f["shadow"] else set())), [], [])
        self.all_fnames.add(f.name)
        f.params = [D(None, self.rand_type()) for _ in range(n)]
        nr = self.pick([0, 0, 1, 1, 1, 2, 3, 4])
        f.rets = [self.rand_type() for _ in range(nr)]
        self.order[f] = len(self.order)
        sc.funcs[f.name] = f
        return f

    def fill_func(self, f, sc):
        taken = sc.taken()
        for d in f.params:
            while True:
                nm = self.pick(["a", "b", "c", "x1", "arg", "amount", "foo_1", "p"]) + self.pick(["", "", "_2", str(len(taken))])
                if nm not in taken:
                    break
            taken.add(nm)
            d.name = nm
        inner = Scope(sc, f)
        inner.names = {d.name for d in f.params}
        inner.vars = list(f.params)
        ctl = dict(ret=f, brk=False, jump=False, exit=self.chance(0.2), nest=min(2, self.f["nest"]), group=False, nofor_=True)
        body = self.stmts(inner, self.r.randrange(0, 5), ctl)
        body.append(Return([self.expr(t, inner) for t in f.rets]))
        if self.chance(0.2):
            body.append(self.pick([Blank(), Comment(" after return")]))
        f.body[:] = body

    def scope_body(self, sc, level, ctl):
        """prelude, statements, exit statement, nested blocks and functions"""
        funcs = [self.func(sc) for _ in range(self.r.randrange(0, self.f["funcs"] + 1))]
        body = []
        self.no_calls = True
        for _ in range(self.r.randrange(0, 4)):
            body += self.declare(sc)[1]
        self.no_calls = False
        blocks = []
        if level < 2:
            for _ in range(self.r.randrange(0, self.f["blocks"] + 1)):
                b = Block(self.fresh(BNAMES, set(sc.blocks)))
                sc.blocks[b.name] = b
                blocks.append(b)
        pre = list(sc.vars)
        body += self.stmts(sc, self.r.randrange(1, self.f["stmts"] + 1), dict(ctl, jump=True, exit=True))
        body += [self.exit_stmt(sc)]
        # blocks may be entered before later declarations ran
        sc.vars[:] = pre
        for f in funcs:
            self.fill_func(f, sc)
        tail = []
        for b in blocks:
            inner = Scope(sc)
            b.body[:] = self.scope_body(inner, level + 1, ctl)
            tail.append(b)
        tail += funcs
        self.r.shuffle(tail)
        if self.f["comments"] and tail and self.chance(0.3):
            tail.insert(0, Comment(" tail"))
        return body + tail

    def exit_stmt(self, sc):
        bs = sc.all_blocks()
        self.jumps = getattr(self, "jumps", 0) + 1
        if bs and self.chance(0.5):
            if self.chance(0.5):
                return Jump(self.pick(bs))
            e = self.pick([Var(d) for d in sc.visible() if d.t in ("int", "bytes")] + [Field("Txn", "Fee"), Field("Txn", "OnCompletion")])
            opts = [(self.lit_int(True) if e.ty == INT else self.lit_bytes(), self.pick(bs)) for _ in range(self.r.randrange(1, 4))]
            opts = [o for o in opts if ":" not in o[0].src()]
            return Switch(e, opts, self.pick(bs) if self.chance(0.7) else None, self.r.choice([None, None, self.r.randrange(len(opts) + 1)]))
        return Exit(self.expr("int", sc))

    def struct(self):
        st = Struct(self.fresh(SNAMES, {s.name for s in self.structs}), [])
        names = set()
        for _ in range(self.pick([1, 2, 3, 3, 5, 9])):
            f = self.fresh(FIELDN, names)
            names.add(f)
            t = self.pick(["int", "int", "uint8", "bytes[3]", "bytes[8]", "bytes[32]", "addr", "bytes[1]", "bytes[100]", "uint64"])
            st.fields.append((f, t))
        if self.chance(0.15):
            st.fields.insert(0, (self.fresh(FIELDN, names), f"bytes[{self.pick([250, 256, 300])}]"))
        return st

    def const(self):
        name = self.fresh(CNAMES, {c.name for c in self.consts})
        if self.chance(0.5):
            v = self.lit_int().v
            return Const(name, v, str(v))
        if self.chance(0.3):
            h = bytes(self.r.randrange(256) for _ in range(self.r.randrange(1, 9)))
            return Const(name, h, "0x" + h.hex())
        b = self.lit_bytes()
        while not b.raw:
            b = self.lit_bytes()
        return Const(name, b.v, b.src())

    def program(self):
        self.all_fnames = set()
        for _ in range(self.r.randrange(0, self.f["structs"] + 1)):
            self.structs.append(self.struct())
        for _ in range(self.r.randrange(0, self.f["consts"] + 1)):
            self.consts.append(self.const())
        sc = Scope()
        body = self.scope_body(sc, 0, {})
        return Prog(self.pick([None, 6, 8]), self.structs, self.consts, body)

    def router_program(self):
        """public functions behind a router"""
        self.all_fnames = set()
        for _ in range(self.r.randrange(0, 3)):
            self.structs.append(self.struct())
        for _ in range(self.r.randrange(0, 3)):
            self.consts.append(self.const())
        sc = Scope()
        body = []
        self.no_calls = True
        for _ in range(self.r.randrange(0, 3)):
            body += self.declare(sc)[1]
        self.no_calls = False
        pre = list(sc.vars)
        helpers = [self.func(sc, simple=True) for _ in range(self.r.randrange(0, 2))]
        pubs = [self.func(sc) for _ in range(self.r.randrange(1, 6))]
        for f in pubs:
            f.deco = self.pick(["", "", "OnCompletion=OptIn", "OnCompletion=CloseOut", "OnCompletion=UpdateApplication",
                                "OnCompletion=DeleteApplication", "OnCompletion=CreateApplication", "OnCompletion=NoOp", "OnCompletion=ClearState"])
        listed = [f for f in pubs if self.chance(0.85)] or pubs[:1]
        self.r.shuffle(listed)
        body += self.stmts(sc, self.r.randrange(0, 3), dict(nest=1, group=False))
        body.append(Router(listed))
        sc.vars[:] = pre
        for f in helpers + pubs:
            self.fill_func(f, sc)
        tail = helpers + pubs
        self.r.shuffle(tail)
        return Prog(self.pick([None, 8]), self.structs, self.consts, body + tail), listed, pubs
