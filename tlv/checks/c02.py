"""C02 Control flow executes as the source structure says"""
import random

from ..lang import *  # noqa
from .. import forms, lang
from . import common
from .common import prog, run_prog


class Flow:
    """control-flow skeletons whose conditions read run-time input and whose bodies log distinct marks"""

    def __init__(self, seed, for_=False):
        self.r = random.Random(seed)
        self.n, self.k, self.v = 0, 0, 0
        self.for_ = for_
        self.funcs = []

    def mark(self):
        self.n += 1
        return ExprStmt(Op("log", [], [Bytes(f"m{self.n}")]))

    def cond(self):
        """a condition decided by the input; sometimes with a visible effect"""
        self.k += 1
        e = Op("getbyte", [], [Field("Txn", "Note"), Int(self.k % 60)])
        k = self.r.randrange(6)
        if k == 0:
            return Bin(e, "&", Int(1))
        if k == 1:
            return Bin(Grp(Bin(e, "%", Int(3))), "==", Int(self.r.randrange(3)))
        if k == 2:
            return Un("!", Grp(Bin(e, "%", Int(2))))
        if k == 3 and self.tick:
            return Call(self.tick, [Bin(e, "%", Int(2))])
        if k == 4:
            return Bin(e, "<", Int(128))
        return Bin(e, ">=", Int(self.r.choice([60, 128, 200])))

    tick = None

    def new(self, t="int"):
        self.v += 1
        return D(self.r.choice("abcxyz") + f"v{self.v}", t)

    def body(self, n, ctl):
        out = []
        for _ in range(self.r.randrange(0, n + 1)):
            out += self.stmt(ctl)
        if self.r.random() < 0.7:
            out.append(self.mark())
        return out

    def stmt(self, ctl):
        d, r = ctl["d"], self.r
        sub = dict(ctl, d=d - 1)
        opts = ["mark", "assert", "call"]
        if d > 0:
            opts += ["if"] * 4 + ["while", "while", "for", "for"] + (["for_"] * 3 if self.for_ and not ctl.get("infor_") and not ctl.get("func") else [])
        if ctl.get("brk"):
            opts += ["brk"] * 2
        if ctl.get("blocks") and not ctl.get("infor_"):
            opts += ["jump"]
        if ctl.get("func") and not ctl.get("infor_"):
            opts += ["ret"]
        opts += ["exit"] if r.random() < 0.3 and not ctl.get("infor_") else []
        k = r.choice(opts)
        if k == "mark":
            return [self.mark()]
        if k == "assert":
            return [Assert(Bin(self.cond0(), "||", Int(1)), r.choice([None, "msg"]))]
        if k == "call":
            fs = [f for f in self.funcs if f is not self.tick]
            if not fs:
                return [self.mark()]
            f = r.choice(fs)
            if f.rets:
                x = self.new()
                return [Decl(x, Call(f, []))]
            return [ExprStmt(Call(f, []))]
        if k == "if":
            n = r.choice([1, 1, 1, 2, 2, 3, 4, 6])
            br = [(r.random() < 0.3, self.cond(), self.body(2, sub)) for _ in range(n)]
            return [If(br, self.body(2, sub) if r.random() < 0.5 else None)]
        if k == "while":
            x = self.new()
            lim = Int(r.randrange(0, 4))
            neg = r.random() < 0.4
            c = Bin(Var(x), ">=" if neg else "<", lim)
            if r.random() < 0.3:
                c = Bin(Grp(c), "||" if neg else "&&", Grp(Bin(Grp(self.cond0()), "==", Grp(Bin(Var(x), "&", Int(1))))))
            b = [Assign([x], Bin(Var(x), "+", Int(1)))] + self.body(3, dict(sub, brk=True))
            return [Decl(x, Int(0)), While(neg, c, b)]
        if k == "for":
            x = self.new()
            a = r.randrange(0, 4)
            b = self.body(3, sub)
            if r.random() < 0.4:
                b.append(ExprStmt(Op("log", [], [Op("itob", [], [Var(x)])])))
            if r.random() < 0.6:
                return [For(x, Int(a), Int(a + r.randrange(0, 4)), b)]
            y, z = self.new(), self.new()
            return [Decl(y, Bin(self.cond0(), "%", Int(3))), Decl(z, Bin(Var(y), "+", Int(r.randrange(3)))), For(x, Var(y), Var(z), b)]
        if k == "for_":
            a = r.randrange(0, 3)
            return [For_(Int(a), Int(a + r.randrange(0, 4)), self.body(2, dict(sub, brk=False, infor_=True)))]
        if k == "brk":
            return [If([(r.random() < 0.3, self.cond(), [self.mark(), Break()])])] if r.random() < 0.8 else [Break()]
        if k == "jump":
            return [If([(False, self.cond(), [Jump(r.choice(ctl["blocks"]))])])]
        if k == "ret":
            return [If([(r.random() < 0.3, self.cond(), [self.mark(), Return([Int(r.randrange(9)) for _ in ctl["func"].rets])])])]
        return [If([(False, Bin(self.cond0(), "==", Int(7)), [Exit(Int(r.randrange(3)))])])]

    def cond0(self):
        self.k += 1
        return Op("getbyte", [], [Field("Txn", "Note"), Int(self.k % 60)])

    def exit(self, blocks):
        r = self.r
        if not blocks or r.random() < 0.4:
            return [Exit(r.choice([Int(1), Int(0), self.cond0()]))]
        if r.random() < 0.5:
            return [Jump(r.choice(blocks))]
        e = Op("getbyte", [], [Field("Txn", "Note"), Int(r.randrange(60))])
        n = r.randrange(1, 6)
        if r.random() < 0.3:
            e = Op("extract", [0, 1], [Field("Txn", "Note")])
            return [Switch(e, [(Bytes(r.choice("abcdef\\xyz".replace("\\", ""))), r.choice(blocks)) for _ in range(n)], r.choice(blocks + [None]), r.choice([None, r.randrange(n + 1)]))]
        if r.random() < 0.7:
            e = Bin(e, "%", Int(n + r.randrange(2)))
        return [Switch(e, [(Int(r.choice([i, i, r.randrange(256)])), r.choice(blocks)) for i in range(n)], r.choice(blocks + [None]), r.choice([None, r.randrange(n + 1)]))]

    def scope(self, level, outer, d):
        r = self.r
        names = ["main", "b", "end", "loop", "l0_x", "route", "blk"]
        blocks = [Block(n) for n in r.sample(names, r.choice([0, 1, 2, 3]))] if level < 3 else []
        vis = blocks + [b for b in outer if b.name not in {x.name for x in blocks}]
        cnt = D(f"cnt{level}_{self.v}", "int")
        self.v += 1
        head = []
        if level == 0:
            head = [Decl(self.count, Int(0))]
        # every scope entry counts, so cycles of jumps end
        head += [Assign([self.count], Bin(Var(self.count), "+", Int(1))), If([(False, Bin(Var(self.count), ">", Int(12)), [self.mark(), Exit(Int(3))])])]
        out = head + self.body(4, dict(d=d, blocks=vis)) + self.exit(vis)
        for b in blocks:
            b.body[:] = self.scope(level + 1, vis, max(1, d - 1))
        tail = blocks + (self.funcs if level == 0 else [])
        r.shuffle(tail)
        return out + tail

    def program(self):
        r = self.r
        self.count = D("count", "int")
        self.tick = Func("tick", [D("t", "int")], ["int"])
        self.tick.body = [ExprStmt(Op("log", [], [Op("itob", [], [Var(self.tick.params[0])])])), Return([Var(self.tick.params[0])])]
        fs = [Func(n, [], r.choice([[], ["int"]])) for n in r.sample(["f", "g", "main", "end_f", "h"], r.randrange(0, 4))]
        for i, f in enumerate(fs):
            self.funcs = fs[:i]
            f.body[:] = self.body(4, dict(d=2, func=f)) + [Return([Int(r.randrange(5)) for _ in f.rets])]
        self.funcs = fs + [self.tick]
        sentinel = r.random() < 0.5
        body = self.scope(0, [], 3)
        self.funcs = []
        if sentinel:
            body.insert(0, Push([Int(99), Bytes("s")]))
        return prog(body)


def flow(arg):
    seed, for_ = arg
    f = Flow(seed, for_)
    p = f.program()
    r = random.Random(seed)
    cs = [dict(salt=seed + k, txn={"Note": bytes(r.randrange(256) if r.random() < 0.8 else r.choice([0, 7, 255, 97]) for _ in range(60))}) for k in range(8)]
    return run_prog(p, cs, f"flow seed {seed} for_ {for_}")


def shapes(arg):
    """all if/elif/else shapes and loop nests of small size"""
    kind, n, mask, els, taken = arg
    note = Field("Txn", "Note")

    def c(i):
        return Op("getbyte", [], [note, Int(i)])

    def m(x):
        return ExprStmt(Op("log", [], [Bytes(x)]))

    vals = bytes([(taken >> i) & 1 for i in range(8)])
    if kind == "if":
        st = [If([(bool(mask >> i & 1), c(i), [m(f"b{i}")]) for i in range(n)], [m("else")] if els else None), m("after")]
    elif kind == "brk":
        # break at each depth of a nest of loops and conditionals
        x, y = D("x", "int"), D("y", "int")
        inner = [If([(bool(mask & 1), c(1), [Break()])], [m("no")] if els else None), m("i")]
        if n == 1:
            loop = [Decl(x, Int(0)), While(False, Bin(Var(x), "<", Int(3)), [Assign([x], Bin(Var(x), "+", Int(1)))] + inner + [m("w")])]
        elif n == 2:
            loop = [Decl(x, Int(0)), While(False, Bin(Var(x), "<", Int(2)), [Assign([x], Bin(Var(x), "+", Int(1))), Decl(y, Int(0)),
                    While(bool(mask & 2), Bin(Var(y), ">=" if mask & 2 else "<", Int(2)), [Assign([y], Bin(Var(y), "+", Int(1)))] + inner), m("w"),
                    If([(False, c(0), [Break()])]), m("v")])]
        elif n == 3:
            loop = [Decl(x, Int(0)), While(bool(mask & 2), Bin(Var(x), ">=" if mask & 2 else "<", Int(2)),
                    [Assign([x], Bin(Var(x), "+", Int(1))), For(y, Int(0), Int(3), inner + [m("f")]), m("w")])]
        else:
            loop = [For(y, Int(0), Int(2), [Decl(x, Int(0)), While(False, Bin(Var(x), "<", Int(2)), [Assign([x], Bin(Var(x), "+", Int(1))), If([(False, c(2), inner)], [m("e")])]), m("f")])]
        st = loop + [m("after")]
    elif kind == "switch":
        bl = [Block(f"b{i}") for i in range(n)] + [Block("other")]
        for b in bl:
            b.body[:] = [m(b.name), Exit(Int(1))]
        v = Bin(c(0), "+", Grp(Bin(c(1), "+", Grp(Bin(c(2), "*", Int(2))))))
        sw = Switch(v, [(Int(i + (mask & 1)), bl[i]) for i in range(n)], bl[-1] if els else None, n - (mask >> 1) % (n + 1))
        return run_prog(prog([m("pre"), sw] + bl), [dict(txn={"Note": vals})], str(arg))
    return run_prog(prog([Push([Int(5)])] + st + [Exit(Int(1))]), [dict(txn={"Note": vals})], str(arg))


COND = ("if", "if not", "elif", "elif not", "while", "while not", "switch", "option", "assert", "exit", "for")


def conditions(arg):
    """a value of every form where a condition, subject, option or bound is expected"""
    where, i, seed = arg
    w = forms.World()
    e = w.ints()[i]

    def m(x):
        return ExprStmt(Op("log", [], [Bytes(x)]))

    neg = where.endswith("not")
    cnt = D("cnt", "int")
    st, tail = [], []
    if where.startswith("if"):
        st = [If([(neg, e(), [m("then")])], [m("else")] if i % 2 else None)]
    elif where.startswith("elif"):
        st = [If([(False, Var(w.y), [m("first")]), (neg, e(), [m("then")]), (False, Int(1), [m("third")])], None)]
    elif where.startswith("while"):
        st = [Decl(cnt, Int(0)), While(neg, e(), [m("body"), Assign([cnt], Bin(Var(cnt), "+", Int(1))), Assign([w.x], Bin(Var(w.x), "^", Int(1))), If([(False, Bin(Var(cnt), ">", Int(2)), [Break()])])])]
    elif where in ("switch", "option"):
        bl = [Block(f"b{k}") for k in range(3)]
        for b in bl:
            b.body[:] = [m(b.name), Exit(Int(1))]
        tail = bl
        st = [Switch(e(), [(Int(0), bl[0]), (Int(1), bl[1])], bl[2] if i % 2 else None, i % 3)] if where == "switch" else [Switch(Var(w.x), [(e(), bl[0]), (Var(w.y), bl[1])], bl[2] if i % 2 else None, i % 3)]
        return run_prog(prog(w.pre + [m("pre")] + st + tail + w.tail, [forms.ST], w.consts), forms.contexts(seed), f"{where} {i}")
    elif where == "assert":
        st = [Assert(e(), "message" if i % 2 else None)]
    elif where == "for":
        v = e()
        if not isinstance(v, (Int, ConstRef, Var)) or getattr(v, "v", 0) > 10 or isinstance(v, ConstRef) and v.c.v > 10 or isinstance(v, Var) and v.d is w.u:
            v = Int(2)
        st = [Assign([w.x], Bin(Var(w.x), "%", Int(4))), For(cnt, Int(0), v, [m("body")])]
    else:
        return run_prog(prog(w.pre + [m("pre"), Exit(e())] + w.tail, [forms.ST], w.consts), forms.contexts(seed), f"{where} {i}")
    return run_prog(prog(w.pre + st + [m("after"), Exit(Int(1))] + w.tail, [forms.ST], w.consts), forms.contexts(seed), f"{where} {i}")


FEAT = dict(depth=2, stmts=8, funcs=3, blocks=3, inner=False, nest=4, structs=1, w={"if": 3, "while": 2, "for": 2, "brk": 3, "ret": 2, "jump": 3})


def run(c):
    c.bounded("values of every form as condition, subject, option, bound, asserted and exit value; all if/elif/else shapes with up to 4 branches and all valuations of their conditions, break at each depth of small loop "
              "nests, switches with up to 4 options and the else line at every place; random control-flow skeletons with blocks, functions, jumps, loops and switches, "
              "conditions read from run-time input, distinct marks logged, 8 inputs each; random programs with nested control flow; "
              "non-trivial: distinct source, executed and compared with the reference")
    sh = [("if", n, mask, e, t) for n in (1, 2, 3, 4) for mask in range(2**n) for e in (0, 1) for t in range(2**n)]
    sh += [("brk", n, mask, e, t) for n in (1, 2, 3, 4) for mask in range(4) for e in (0, 1) for t in range(8)]
    sh += [("switch", n, mask, e, t) for n in (1, 2, 3, 4) for mask in range(2 * n + 2) for e in (0, 1) for t in range(8)]
    c.run(shapes, sh, "shapes")
    c.run(conditions, [(w, i, c.seed + i) for w in COND for i in range(len(forms.World().ints()))], "conditions")
    c.run(flow, [(c.seed * 999983 + i, i % 4 == 3) for i in range(c.scale(900, 20000))], "flow", c.scale(60, 350))
    c.run(common.differential, [(c.seed * 1000003 + i, dict(FEAT, for_=i % 5 == 0), 3) for i in range(c.scale(500, 6000))], "random", c.scale(60, 300))
