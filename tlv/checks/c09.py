"""C09 Inner transactions submit exactly the fields and grouping written"""
import random

from .. import avm, forms, gen, lang
from ..harness import Violation, key
from ..lang import *  # noqa
from . import common
from .common import prog, run_prog

ARRAYS = [f for f in ("ApplicationArgs", "Accounts", "Assets", "Applications", "ApprovalProgramPages", "ClearStateProgramPages") if f in gen.ITXN_FIELDS]
SCALARS = [(f, t) for f, t in sorted(gen.ITXN_FIELDS.items()) if f not in ARRAYS]


def log(e):
    if e.ty == INT or (isinstance(e.ty, tuple) and e.ty[0] == "int"):
        e = Op("itob", [], [e])
    return ExprStmt(Op("log", [], [e]))


class Inner:
    """random mixtures of grouped, ungrouped, conditional, looped and function-made inner transactions"""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.c = 0
        self.v = 0
        self.made, self.pure = [], None

    def u(self):
        self.c += 1
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return Field("Txn", r.choice(["Fee", "Amount", "FirstValid", "NumAppArgs"]))
        if k == 1:
            return Bin(Int(self.c), r.choice("+|^"), Field("Gtxn", "Fee", gi=Int(r.randrange(4))))
        if k == 2 and self.pure:
            return Call(self.pure, [Int(self.c)])
        if k == 3:
            return Op("len", [], [Bytes("x" * (self.c % 9))])
        return Int(self.c)

    def b(self):
        self.c += 1
        r = self.r
        k = r.randrange(5)
        if k == 0:
            return Field("Txn", "Sender")
        if k == 1:
            return Op("itob", [], [self.u()])
        if k == 2:
            return Op("concat", [], [Bytes(f"v{self.c}"), Field("Txn", "ApplicationArgs", ai=Int(r.randrange(3)))])
        return Bytes(f"v{self.c}")

    def txn(self):
        r = self.r
        fs = []
        for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
            f, t = r.choice(SCALARS)
            fs.append((f, None, self.u() if t == "U" else self.b()))
        for a in r.sample(ARRAYS, r.choice([0, 0, 1, 2])):
            for i in range(r.choice([1, 2, 3, 12])):
                e = self.u() if gen.ITXN_FIELDS[a] == "U" else self.b()
                fs.append((a, i, e))
        if r.random() < 0.5:
            # keep the elements of each array in index order
            order = sorted(range(len(fs)), key=lambda k: r.random())
            out, arr = [], {}
            for k in order:
                if fs[k][1] is None:
                    out.append(fs[k])
                else:
                    arr.setdefault(fs[k][0], [f for f in fs if f[0] == fs[k][0]])
                    out.append(arr[fs[k][0]].pop(0))
            fs = out
        return InnerTxn(fs)

    def cond(self):
        return Bin(Field("Txn", "Fee"), r_op(self.r), Int(self.r.randrange(3)))

    def stmts(self, n, depth, grp, fn):
        r = self.r
        out = []
        for _ in range(n):
            k = r.randrange(10)
            if k < 4:
                out.append(self.txn())
            elif k == 4 and depth:
                out.append(If([(r.random() < 0.3, self.cond(), self.stmts(r.randrange(0, 3), depth - 1, grp, fn)) for _ in range(r.choice([1, 1, 2, 3]))], self.stmts(1, depth - 1, grp, fn) if r.random() < 0.5 else None))
            elif k == 5 and depth:
                self.v += 1
                d = D(f"i{self.v}", "int")
                out.append(For(d, Int(0), Int(r.randrange(0, 4)), self.stmts(r.randrange(1, 3), depth - 1, grp, fn)))
            elif k == 6 and depth:
                self.v += 1
                d = D(f"w{self.v}", "int")
                out += [Decl(d, Int(r.randrange(0, 3))), While(False, Bin(Var(d), ">", Int(0)), self.stmts(r.randrange(1, 3), depth - 1, grp, fn) + [Assign([d], Bin(Var(d), "-", Int(1)))])]
            elif k == 7 and not grp and r.random() < 0.8:
                out.append(InnerGroup(self.stmts(r.randrange(1, 5), depth, True, fn)))
            elif k == 8 and self.made:
                g = [f for f, groups in self.made if not (grp and groups)]
                if g:
                    out.append(ExprStmt(Call(r.choice(g), [Int(self.c)])))
            else:
                out.append(log(self.u()))
        return out

    def build(self, groups):
        r = self.r
        self.groups = groups
        self.pure = Func("pure", [D("q", "int")], ["int"])
        self.pure.body = [log(Var(self.pure.params[0])), Return([Bin(Var(self.pure.params[0]), "+", Int(1))])]
        fs = []
        for i in range(r.randrange(0, 4)):
            f = Func(f"make{i}", [D(f"a{i}", "int")], [])
            own = r.random() < 0.3 and groups
            f.body = self.stmts(r.randrange(1, 4), 1, not own, True)
            uses = any(isinstance(s, InnerGroup) for s in walk(f.body))
            f.body.append(Return([]))
            fs.append((f, uses))
            self.made.append((f, uses or calls_groups(f, fs)))
        body = self.stmts(r.randrange(1, 6), 2, not groups, False)
        tail = []
        if r.random() < 0.35:
            b = Block("later")
            b.body = self.stmts(r.randrange(1, 4), 1, not groups, False) + [Exit(Int(1))]
            body.append(Jump(b))
            tail.append(b)
        else:
            body.append(Exit(Int(1)))
        return prog(body + tail + [self.pure] + [f for f, _ in fs])


def calls_groups(f, fs):
    t = {g for g, u in fs if u}
    return any(isinstance(s, ExprStmt) and isinstance(s.e, Call) and s.e.f in t for s in walk(f.body))


def walk(body):
    for s in body:
        yield s
        for k in ("body", "else_"):
            x = getattr(s, k, None)
            if isinstance(x, list):
                yield from walk(x)
        for br in getattr(s, "branches", ()):
            yield from walk(br[2])


def r_op(r):
    return r.choice(["==", "<", ">", "!="])


def mixtures(arg):
    seed, groups = arg
    p = Inner(seed).build(groups)
    cs = [dict(salt=seed * 3 + k, nolog=True, lenient=True, txn={"Fee": k, "ApplicationArgs": [b"a0", b"a1", b"a2"]}) for k in range(4)]
    return run_prog(p, cs, f"mixture seed {seed} groups {groups}")


def fields(case):
    """each field alone, in a group and outside one, in a program with and without groups"""
    f, grp, other = case
    t = gen.ITXN_FIELDS[f]
    e = (lambda i: Bin(Field("Txn", "Fee"), "+", Int(i))) if t == "U" else (lambda i: Op("concat", [], [Bytes(f"a{i}"), Field("Txn", "Note")]))
    fs = [(f, i, e(i)) for i in range(12)] if f in ARRAYS else [(f, None, e(0))]
    body = [InnerGroup([InnerTxn(fs), InnerTxn([])])] if grp else [InnerTxn(fs)]
    if other:
        body = [If([(False, Field("Txn", "Amount"), [InnerGroup([InnerTxn([("Fee", None, Int(0))])])])])] + body
    body += [log(Bytes("after")), InnerTxn([("Note", None, Bytes("second"))]), Exit(Int(1))]
    return run_prog(prog(body), [dict(salt=k, txn={"Fee": 5, "Amount": k}) for k in (0, 1)], f"field {case}")


def valued(case):
    """a field value of every form, between other fields and transactions"""
    kind, i, where, seed = case
    w = forms.World()
    v = (w.ints() if kind == "int" else w.bytes())[i]
    name = ("Fee", "Amount", "Applications", "Assets")[seed % 4] if kind == "int" else ("Note", "ApplicationArgs", "ApprovalProgramPages", "Note")[seed % 4]
    x = Int(5) if kind == "int" else Bytes("five")
    fs = [(name, 0, x), (name, 1, v()), (name, 2, x)] if name in ARRAYS else [(name, None, v()), (name, None, x), (name, None, v())]
    fs = [("TypeEnum", None, Int(1))] + fs + [("ConfigAssetDecimals", None, Int(2))]
    if where == "plain":
        body = [InnerTxn(fs), InnerTxn(fs[1:2])]
    elif where == "group":
        body = [InnerGroup([InnerTxn(fs), InnerTxn(fs[1:2]), InnerTxn([])])]
    else:
        body = [InnerGroup([If([(False, Var(w.x), [InnerTxn(fs)])], [InnerTxn(fs[1:2])]), InnerTxn(fs[1:3])])]
    return run_prog(prog(w.pre + body + [log(Bytes("after")), Exit(Int(1))] + w.tail, [forms.ST], w.consts), forms.contexts(seed, forms.INPUTS[2:6]), f"{kind} form {i} as {name} {where}")


def indices(case):
    """array elements must be written in index order"""
    a, order = case
    src = "inner_txn:\n" + "".join(f"{a}[{i}]: {1 if gen.ITXN_FIELDS[a] == 'U' else chr(34) + 'x' + chr(34)}\n" for i in order) + "end\nexit(1)\n"
    ok = list(order) == list(range(len(order)))
    if common.accepts(src) != ok:
        raise Violation("rejected" if ok else "accepted", src)
    return {"key": key(src)}


NESTED = "inner-transaction-in-field-in-group: a function called in a field of a grouped inner transaction makes an inner transaction of its own; the remaining fields go to the wrong transaction"


def nested(_):
    """known finding (fixed input): an inner transaction made while filling a grouped one"""
    f = Func("f", [], ["int"])
    f.body = [InnerTxn([("Fee", None, Int(1))]), Return([Int(7)])]
    p = prog([InnerGroup([InnerTxn([("Note", None, Bytes("a")), ("Amount", None, Call(f, [])), ("Note", None, Bytes("b"))])]), Exit(Int(1)), f])
    P, teal, m = common.assemble(p.source())
    got = avm.run(P, dict(salt=1))
    want = [[[("Note", b"a"), ("Fee", 1)], [("Amount", 7), ("Note", b"b")]]]
    good = [[[("Note", b"a"), ("Amount", 7), ("Note", b"b")], [("Fee", 1)]], [[("Fee", 1)], [("Note", b"a"), ("Amount", 7), ("Note", b"b")]]]
    s = got.summary()
    if s["status"] == "fail" or s["groups"] in good:
        return {"fixed": 1}
    if s["groups"] != [[[("Note", b"a")], [("Fee", 1), ("Amount", 7), ("Note", b"b")]]] and s["groups"] != want:
        raise Violation(f"an inner transaction made in a field of a grouped one: {s['groups']}", p.source())
    return {"known": [NESTED]}


FEAT = dict(depth=2, stmts=6, funcs=3, blocks=1, nest=2, structs=0, consts=0, boxes=False, w={"inner": 8, "group": 6, "innertxn": 6})


def run(c):
    c.bounded("random programs mixing grouped, ungrouped, conditional, looped and function-made inner transactions (submitted groups, fields and order compared); "
              "every field and array field in and outside groups; field values of every form; index orders; random larger programs; non-trivial: distinct program")
    c.run(fields, [(f, g, o) for f in sorted(gen.ITXN_FIELDS) for g in (0, 1) for o in (0, 1)], "fields")
    c.run(indices, [(a, o) for a in ARRAYS for o in [(0,), (0, 1), (1, 0), (1,), (0, 2), (0, 0), (0, 1, 1), tuple(range(15)), (0, 1, 2, 4)]], "indices")
    n = len(forms.World().ints()), len(forms.World().bytes())
    c.run(valued, [(k, i, w, c.seed + i + j) for k, m in zip(("int", "bytes"), n) for i in range(m) for j, w in enumerate(("plain", "group", "if"))], "values")
    c.run(nested, [0], "nested")
    c.run(mixtures, [(c.seed * 131071 + i, i % 4 != 0) for i in range(c.scale(3000, 60000))], "mixtures", c.scale(40, 300))
    c.run(common.differential, [(c.seed * 1000003 + i, FEAT, 2) for i in range(c.scale(250, 6000))], "random", c.scale(40, 300))
