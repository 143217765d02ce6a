"""C03 Calls, returns and multiple assignment bind by position"""
import random

import itertools

from .. import avm, forms, gen
from ..lang import *  # noqa
from . import common
from .common import prog, run_prog


def log(e):
    if e.ty == INT or (isinstance(e.ty, tuple) and e.ty[0] == "int"):
        e = Op("itob", [], [e])
    return ExprStmt(Op("log", [], [e]))


TYPES = ["int", "int", "bytes", "bytes[3]", "uint8", "bigint", "bytes[8]", "addr"]


class Calls:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.v = self.c = 0
        self.funcs = []

    def value(self, t, d, vis):
        """a value of type t: distinct literals, variables, calls with effects"""
        r = self.r
        self.c += 1
        k = r.randrange(6)
        if k == 0 and d > 0:
            fs = [f for f in self.funcs if len(f.rets) == 1 and f.rets[0] == t]
            if fs:
                f = r.choice(fs)
                return Call(f, [self.value(q.t, d - 1, vis) for q in f.params])
        if k in (1, 2):
            vs = [x for x in vis if x.t == t]
            if vs:
                return Var(r.choice(vs))
        if t == "int":
            e = Int(300 + self.c)
            return Bin(Grp(Call(self.tick, [e])), "+", Int(self.c)) if k == 3 and self.tick else e
        if t == "uint8":
            return Int(self.c % 256)
        if t in ("bytes", "bigint"):
            return Bytes(f"v{self.c}")
        n = tsize(t)
        return Bytes(f"{self.c:0{n}d}"[:n].replace("0", "z"))

    tick = None

    def fresh(self, t):
        self.v += 1
        return D(f"{self.r.choice('abcxyz')}{self.v}", t)

    def func(self, i):
        r = self.r
        n = r.choice([0, 1, 2, 2, 3, 4, 6, 9, 14, 20])
        m = r.choice([0, 1, 1, 2, 2, 3, 4, 6, 9])
        ps = [D(f"p{i}_{k}", r.choice(TYPES)) for k in range(n)]
        f = Func(r.choice(["f", "get", "fn", "x_f"]) + str(i), ps, [r.choice(TYPES) for _ in range(m)])
        vis = list(ps)
        body = [log(Var(p)) for p in ps if r.random() < 0.3]
        for _ in range(r.randrange(0, 3)):
            body += self.action(vis, 1)
        if r.random() < 0.4:
            body.append(If([(r.random() < 0.5, Op("getbyte", [], [Field("Txn", "Note"), Int(r.randrange(30))]), [log(Bytes("early")), Return([self.value(t, 1, ps) for t in f.rets])])]))
        if r.random() < 0.2:
            w = self.fresh("int")
            vis.append(w)
            body += [Decl(w, Int(0)), While(False, Bin(Var(w), "<", Int(2)), [Assign([w], Bin(Var(w), "+", Int(1))), If([(False, Op("getbyte", [], [Field("Txn", "Note"), Int(1)]), [Return([self.value(t, 1, ps) for t in f.rets])])])])]
        body.append(Return([self.value(t, 1, vis) for t in f.rets]))
        f.body[:] = body
        return f

    def action(self, vis, d):
        r = self.r
        k = r.randrange(5)
        if k == 0:
            name = r.choice(gen.MULTI)
            o = avm.OPS[name]
            imms = [o["ArgEnum"][0] if "ArgEnum" in o else 1 for _ in range(o["Size"] - 1)]
            e = Op(name, imms, [Int(3 + i) if c == "U" else Bytes("q%d" % i) for i, c in enumerate(o.get("Args", ""))])
            types = ["int" if t == INT else "bytes" for t in e.ty]
        else:
            fs = [f for f in self.funcs if f.rets] or [self.tick]
            f = r.choice(fs)
            e = Call(f, [self.value(q.t, d, vis) for q in f.params])
            types = f.rets
            if not types or r.random() < 0.1:
                fs = [f for f in self.funcs if not f.rets]
                if fs:
                    f = r.choice(fs)
                    return [ExprStmt(Call(f, [self.value(q.t, d, vis) for q in f.params]))]
        names, pre, used = [], [], []
        for t in types:
            if r.random() < 0.25:
                names.append(None)
                continue
            old = [x for x in vis if x.t == t and x not in used and x not in self.locked]
            if old and r.random() < 0.5:
                x = r.choice(old)
            else:
                x = self.fresh(t)
                pre.append(Decl(x))
                vis.append(x)
            used.append(x)
            names.append(x)
        out = pre + [Assign(names, e)]
        return out + [log(Var(x)) for x in used if x.t not in ("int", "uint8") or True][:12] if "app_" not in str(getattr(e, "name", "")) else out

    locked = ()

    def program(self):
        r = self.r
        self.tick = Func("tick", [D("t", "int")], ["int"])
        self.tick.body = [ExprStmt(Op("log", [], [Op("itob", [], [Var(self.tick.params[0])])])), Return([Var(self.tick.params[0])])]
        for i in range(r.randrange(2, 7)):
            self.funcs.append(self.func(i))
        vis = []
        body = [Push([Int(77)])]
        for _ in range(r.randrange(1, 5)):
            body += self.action(vis, 2)
        if r.random() < 0.4:
            i = self.fresh("int")
            body.append(For(i, Int(0), Int(2), self.action(list(vis), 1)))
        body.append(Exit(Int(1)))
        return prog(body + self.funcs + [self.tick])


def calls(seed):
    p = Calls(seed).program()
    r = random.Random(seed)
    cs = [dict(salt=seed + k, note=1, txn={"Note": bytes(r.choice([0, 0, 1]) for _ in range(30))}, nolog=True) for k in range(3)]
    return run_prog(p, cs, f"calls seed {seed}")


def masks(arg):
    """every multi-value source, every choice of discarded names, every position"""
    name, mask = arg
    if isinstance(name, int):
        ts = [TYPES[i % len(TYPES)] for i in range(name)]
        f = Func("f", [], ts)
        vals = [Int(10 + i) if is_int_type(t) else Bytes("ab12345678901234567890123456789z"[: tsize(t) or 5]) for i, t in enumerate(ts)]
        f.body = [Return(vals)]
        e, tail = Call(f, []), [f]
        types = ts
    else:
        o = avm.OPS[name]
        imms = [o["ArgEnum"][0] if "ArgEnum" in o else 1 for _ in range(o["Size"] - 1)]
        e = Op(name, imms, [Int(3 + i) if c == "U" else Bytes("q%d" % i) for i, c in enumerate(o.get("Args", ""))])
        types, tail = ["int" if t == INT else "bytes" for t in e.ty], []
    ds = [None if mask >> i & 1 else D(f"n{i}", t) for i, t in enumerate(types)]
    anys = [isinstance(e.ty, list) and e.ty[i] == ANY for i in range(len(types))]
    body = [Push([Int(5)])] + [Decl(d) for d in ds if d] + [Assign(ds, e)]
    body += [ExprStmt(Op("app_global_put", [], [Bytes("k"), Var(d)])) for d in ds if d]
    return run_prog(prog(body + [Exit(Int(1))] + tail), [dict(salt=k) for k in range(3)], str(arg))


def bound(arg):
    """a value of every form as argument, result and assigned value, at each position"""
    kind, i, k, seed = arg
    w = forms.World()
    e = (w.ints() if kind == "int" else w.bytes())[i]
    t = "int" if kind == "int" else "bytes"
    ps = [D(n, t if j == k else "int") for j, n in enumerate(("p1", "p2", "p3"))]
    f = Func("three", ps, [t, "int"])
    f.body = [log(Var(p)) for p in ps] + [Return([Var(ps[k]), Var(ps[(k + 1) % 3])])]
    g = Func("give", [], [t if j == k else "int" for j in range(3)])
    g.body = [Return([e() if j == k else Int(j + 20) for j in range(3)])]
    a, b = D("a1", t), D("a2", "int")
    rs = [D(f"r{j}", g.rets[j]) for j in range(3)]
    body = [Decl(a), Decl(b), Assign([a, b], Call(f, [e() if j == k else Int(j + 10) for j in range(3)])), log(Var(a)), log(Var(b))]
    body += [Decl(d) for d in rs] + [Assign(rs, Call(g, []))] + [log(Var(d)) for d in rs]
    body += [Assign([a], e()), log(Var(a))]
    return run_prog(prog(w.pre + body + [Exit(Int(1)), f, g] + w.tail, [forms.ST], w.consts), forms.contexts(seed, forms.INPUTS[2:6]), f"{kind} {i} at {k}")


def named(arg):
    """arguments and results that are variables, with names like those of the parameters, in every order"""
    params, args, outs = arg
    t = "int"
    ps = [D(n, t) for n in params]
    f = Func("callee", ps, [t] * len(ps))
    f.body = [log(Var(p)) for p in ps] + [Return([Var(p) for p in ps])]
    vs = {n: D(n, t) for n in sorted(set(args) | set(outs) | {"a", "b", "c"})}
    g = Func("caller", [vs[n] for n in sorted(vs)], [])
    g.body = [Assign([vs[n] for n in outs], Call(f, [Var(vs[n]) for n in args]))] + [log(Var(vs[n])) for n in sorted(vs)] + [Return([])]
    return run_prog(prog([ExprStmt(Call(g, [Int(11 + j) for j in range(len(vs))])), Exit(Int(1)), g, f]), [dict(salt=1)], str(arg))


FEAT = dict(depth=2, stmts=8, funcs=5, blocks=1, inner=False, nest=1, structs=1, w={"multi": 6, "callst": 4, "call": 6, "ret": 2})


def run(c):
    c.bounded("values of every form as argument, result and assigned value at each position; arguments and targets named like parameters in every order; every choice of underscores for every multi-result opcode and for functions of 1 to 7 results; random call graphs with up to "
              "20 parameters, 9 results, nested calls in arguments, early returns in conditionals and loops, assignments over existing "
              "variables; random programs; non-trivial: distinct source, executed and compared with the reference")
    ms = [(o, m) for o in gen.MULTI for m in range(2 ** len(avm.OPS[o]["Returns"]))]
    ms += [(n, m) for n in range(1, 8) for m in range(2**n)]
    c.run(masks, ms, "masks")
    n = len(forms.World().ints()), len(forms.World().bytes())
    c.run(bound, [(t, i, k, c.seed + i) for t, m in zip(("int", "bytes"), n) for i in range(m) for k in range(3)], "forms")
    P = ["ab", "ba", "xy", "bx"]
    c.run(named, [(p, a, o) for p in P for a in itertools.product("abc", repeat=2) for o in itertools.permutations("abc", 2)]
          + [(p, a, o) for p in ("abc", "cab", "bca", "xay") for a in itertools.product("abc", repeat=3) for o in (("a", "b", "c"), ("c", "a", "b"), ("b", "a", "c"))], "names")
    c.run(calls, [c.seed * 999979 + i for i in range(c.scale(800, 15000))], "calls", c.scale(60, 350))
    c.run(common.differential, [(c.seed * 1000003 + i, FEAT, 3) for i in range(c.scale(500, 6000))], "random", c.scale(50, 300))
