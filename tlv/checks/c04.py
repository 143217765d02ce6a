"""C04 Live variables never share a slot and names resolve lexically"""
import random

from .. import avm, gen, lang
from ..harness import Violation, key
from ..lang import *  # noqa
from . import common
from .common import prog, run_prog, accepts, compile_


def log(e):
    return ExprStmt(Op("log", [], [Op("itob", [], [e])]))


class Vars:
    """programs that fill many variables in many scopes and read all of them back"""

    def __init__(self, seed, big=False):
        self.r = random.Random(seed)
        self.big = big
        self.n = 0
        self.c = 0
        self.names = [a + b for a in "abcdefghxyz" for b in ["", "1", "_x"]]

    def val(self):
        self.c += 1
        return Int(1000 + self.c)

    def decls(self, vis, k, taken):
        out = []
        for _ in range(k):
            self.n += 1
            d = D(f"{self.r.choice(self.names)}_{self.n}", "int")
            out.append(Decl(d, self.val()))
            vis.append(d)
        return out

    def check(self, vis):
        out = [log(Var(d)) for d in vis]
        if self.r.random() < 0.3 and vis:
            d = self.r.choice(vis)
            out.append(Assign([d], self.val()))
        return out

    def body(self, vis, d, calls, m):
        r = self.r
        out = self.decls(vis, r.randrange(0, m), None)
        for _ in range(r.randrange(1, 4)):
            k = r.randrange(7)
            if k == 0 and d > 0:
                inner = list(vis)
                b = self.body(inner, d - 1, calls, m)
                w = D(f"w{self.n}_{self.c}", "int")
                self.c += 1
                out += [Decl(w, Int(0)), While(False, Bin(Var(w), "<", Int(2)), [Assign([w], Bin(Var(w), "+", Int(1)))] + b)]
                vis.append(w)
            elif k == 1 and d > 0:
                f = D(f"i{self.n}_{self.c}", "int")
                self.c += 1
                inner = list(vis) + [f]
                out.append(For(f, Int(0), Int(2), self.body(inner, d - 1, calls, m)))
            elif k == 2 and d > 0:
                # names stay declared after the conditional but only one branch runs
                out.append(If([(r.random() < 0.5, Op("getbyte", [], [Field("Txn", "Note"), Int(r.randrange(20))]), self.body(list(vis), d - 1, calls, m))],
                              self.body(list(vis), d - 1, calls, m)))
            elif k == 3 and calls:
                f = r.choice(calls)
                e = Call(f, [self.val() if r.random() < 0.6 or not vis else Var(r.choice(vis)) for _ in f.params])
                if f.rets:
                    x = D(f"r{self.n}_{self.c}", "int")
                    self.c += 1
                    out.append(Decl(x, e))
                    vis.append(x)
                else:
                    out.append(ExprStmt(e))
            elif k == 4:
                out.append(Comment(" x"))
            elif k == 5 and vis:
                d1 = r.choice(vis)
                out.append(Assign([d1], Bin(Var(r.choice(vis)), "|", self.val())))
            else:
                out += self.decls(vis, r.randrange(0, 3), None)
            if r.random() < 0.5:
                out += self.check(vis)
        return out + self.check(vis)

    def program(self):
        r = self.r
        m = r.choice([3, 5, 8, 30]) if self.big else r.choice([2, 3, 4])
        fs = []
        top = []
        head = self.decls(top, r.randrange(0, m), None)
        for i in range(r.randrange(0, 5)):
            f = Func(f"f{i}", [D(f"p{i}_{k}", "int") for k in range(r.randrange(0, 4))], r.choice([[], ["int"]]))
            vis = top + f.params
            f.body[:] = self.body(list(vis), 1, list(fs), min(m, 5)) + [Return([self.val() if r.random() < 0.5 or not vis else Var(r.choice(vis)) for _ in f.rets])]
            fs.append(f)
        group = []
        if r.random() < 0.4:
            group = [InnerGroup([InnerTxn([("Fee", None, Int(0))])] + self.check(top))]
        vis = list(top)
        body = head + group + self.body(vis, 2, fs, m)
        blocks = []
        if r.random() < 0.5:
            b = Block("b")
            bf = Func("bf", [D("q", "int")], ["int"])
            bvis = list(top)
            bd = self.decls(bvis, r.randrange(0, m), None)
            bf.body[:] = self.body(bvis + bf.params, 1, list(fs), 4) + [Return([Var(bf.params[0])])]
            b.body[:] = bd + self.body(bvis, 1, fs + [bf], m) + [Exit(Int(1)), bf]
            blocks = [b]
            body.append(Jump(b))
        else:
            body.append(Exit(Int(1)))
        tail = blocks + fs
        r.shuffle(tail)
        return prog(body + tail)


def variables(arg):
    seed, big = arg
    p = Vars(seed, big).program()
    src = p.source()
    st, e, _ = compile_(src)
    if st == "reject":
        if "slots" in str(e) and src.count("int ") > 120:
            return {"rejected for lack of slots": 1}
        raise Violation(f"rejected: {e}", src)
    r = random.Random(seed)
    cs = [dict(salt=k, nolog=True, txn={"Note": bytes(r.randrange(2) for _ in range(20))}) for k in range(3)]
    return run_prog(p, cs, f"variables seed {seed}")


def many(n):
    """n variables in one scope: all kept apart, or the program is rejected"""
    where, n = n
    vs = [D(f"v{i}", "int") for i in range(n)]
    decls = [Decl(d, Int(i + 7)) for i, d in enumerate(vs)]
    reads = [log(Var(d)) for d in vs]
    if where == "main":
        p = prog(decls + reads + [Exit(Int(1))])
    elif where == "func":
        f = Func("f", [], [])
        k = n // 2
        f.body = decls[k:] + reads[k:] + [Return([])]
        p = prog(decls[:k] + [ExprStmt(Call(f, []))] + reads[:k] + [Exit(Int(1)), f])
    elif where == "funcs":
        # chains of functions, each with its own variables, alive at once
        k = max(1, n // 8)
        parts = [(decls[i : i + k], reads[i : i + k]) for i in range(0, n, k)]
        fs, nxt = [], None
        for i, (d, rd) in enumerate(parts):
            f = Func(f"f{i}", [], [])
            f.body = d + ([ExprStmt(Call(nxt, []))] if nxt else []) + rd + [Return([])]
            fs.append(f)
            nxt = f
        p = prog([ExprStmt(Call(nxt, [])), Exit(Int(1))] + fs)
    elif where == "params":
        k = n
        fs, last = [], None
        for i in range(4):
            f = Func(f"f{i}", [D(f"p{i}_{j}", "int") for j in range(k // 4)], ["int"])
            f.body = ([ExprStmt(Op("log", [], [Op("itob", [], [Call(last, [Int(j + 100 * i) for j in range(len(last.params))])])]))] if last else []) \
                + [log(Var(q)) for q in f.params] + [Return([Int(i)])]
            fs.append(f)
            last = f
        p = prog([log(Call(last, [Int(j + 1000) for j in range(len(last.params))])), Exit(Int(1))] + fs)
    elif where == "group":
        p = prog(decls + [InnerGroup([InnerTxn([("Fee", None, Int(0))])])] + reads + [Exit(Int(1))])
    elif where == "nest":
        n = max(5, n - n % 5)
        vs = [D(f"v{i}", "int") for i in range(n)]
        body = [log(Var(d)) for d in vs]
        for k in range(n - 5, -1, -5):
            ds = vs[k : k + 5]
            w = ds[0]
            body = [Decl(w, Int(0)), While(False, Bin(Var(w), "<", Int(1)), [Assign([w], Bin(Var(w), "+", Int(1)))] + [Decl(d, Int(k + j)) for j, d in enumerate(ds[1:])] + body)]
        p = prog(body + [Exit(Int(1))])
    src = p.source()
    st, e, _ = compile_(src)
    if st == "reject":
        if n <= 150 or "slots" not in str(e):
            raise Violation(f"{n} variables rejected: {e}", src)
        return {"rejected for lack of slots": 1, "key": key(src)}
    return run_prog(p, [dict(nolog=True)], f"{where} {n}")


D_ = "int {n} = 1\n"


def scope_cases():
    """(source, accepted?) for visibility and redeclaration"""
    out = []
    # places that open a scope or not, as text with a hole for statements and a way to run on
    opens = {
        "while": ("while 1 == 2:\n", "end\n"),
        "for": ("for i in 0:2:\n", "end\n"),
        "for_": ("for _ in 0:2:\n", "end\n"),
    }
    plain = {
        "if": ("if 1:\n", "end\n"),
        "else": ("if 1:\nelse:\n", "end\n"),
        "elif": ("if 1:\nelif 2:\n", "end\n"),
        "group": ("inner_group:\ninner_txn:\nFee: 0\nend\n", "end\n"),
    }
    use = "log(itob(x))\n"
    for name, (a, b) in {**opens, **plain}.items():
        # used inside after declaration outside
        out.append((f"int x = 1\n{a}{use}{b}exit(1)\n", True, f"outer variable used in {name}"))
        # redeclared inside
        out.append((f"int x = 1\n{a}int x = 2\n{b}exit(1)\n", False, f"variable redeclared in {name}"))
        # used before declaration
        out.append((f"{a}{use}{b}int x = 1\nexit(1)\n", False, f"variable used in {name} before its declaration"))
    for name, (a, b) in opens.items():
        out.append((f"{a}int x = 2\n{b}{use}exit(1)\n", False, f"variable of {name} used after it"))
        out.append((f"{a}int x = 2\n{b}int x = 1\n{use}exit(1)\n", True, f"variable of {name} declared again after it"))
        out.append((f"{a}int x = 2\n{use}{b}{a}int x = 3\n{use}{b}exit(1)\n", True, f"same name in two {name}"))
        for name2, (a2, b2) in {**opens, **plain}.items():
            if name2 == "for" and name == "for":
                a2 = a2.replace(" i ", " j ")
            if "inner_group" in a2:
                continue
            out.append((f"{a}int x = 2\n{a2}{use}{b2}{b}exit(1)\n", True, f"variable of {name} used in nested {name2}"))
            out.append((f"{a}int x = 2\n{a2}int x = 3\n{b2}{b}exit(1)\n", False, f"variable of {name} redeclared in nested {name2}"))
            out.append((f"{a}{a2}int x = 2\n{b2}{b}{use}exit(1)\n", name2 in plain and False, f"variable of {name2} in {name} used after both"))
    out += [
        ("for i in 0:2:\nend\nlog(itob(i))\nexit(1)\n", False, "loop variable used after the loop"),
        ("for i in 0:2:\nend\nfor i in 0:3:\nend\nexit(1)\n", True, "loop variable reused by a later loop"),
        ("for i in 0:2:\nfor i in 0:3:\nend\nend\nexit(1)\n", False, "loop variable reused by a nested loop"),
        ("int i = 1\nfor i in 0:2:\nend\nexit(1)\n", False, "loop variable redeclares an outer variable"),
        ("int x = 1\nint x = 2\nexit(1)\n", False, "variable redeclared"),
        ("int x\nbytes x\nexit(1)\n", False, "variable redeclared with another type"),
        ("y = 1\nexit(1)\n", False, "assignment to an undeclared name"),
        ("exit(y)\n", False, "use of an undeclared name"),
        ("int x = 1\nexit(f(1))\nfunc f(x: int) int:\nreturn x\nend\n", False, "parameter redeclares a visible variable"),
        ("int x = 1\nexit(f(1))\nfunc f(y: int) int:\nint x = 3\nreturn x\nend\n", False, "local redeclares a visible variable"),
        ("exit(f(1))\nfunc f(y: int) int:\nint y = 3\nreturn y\nend\n", False, "local redeclares a parameter"),
        ("int x = 1\nexit(f(1))\nfunc f(y: int) int:\nreturn x + y\nend\n", True, "outer variable used in a function"),
        ("exit(f(1) + y)\nfunc f(y: int) int:\nreturn y\nend\n", False, "parameter used outside"),
        ("exit(f(1))\nfunc f(y: int) int:\nint z = 2\nreturn y\nend\nfunc g() int:\nreturn z\nend\n", False, "local of one function used in another"),
        ("exit(f(1))\nfunc f(y: int) int:\nreturn y\nend\nfunc g(y: int) int:\nreturn y\nend\n", True, "same parameter name in two functions"),
        ("jump b\nblock b:\nint x = 1\nexit(x)\nend\nblock c:\nexit(x)\nend\n", False, "variable of one block used in another"),
        ("jump b\nblock b:\nint x = 1\nexit(x)\nend\nblock c:\nint x = 2\nexit(x)\nend\n", True, "same name in two blocks"),
        ("int x = 1\njump b\nblock b:\nexit(x)\nend\n", True, "outer variable used in a block"),
        ("int x = 1\njump b\nblock b:\nint x = 2\nexit(x)\nend\n", False, "outer variable redeclared in a block"),
        ("jump b\nblock b:\nint x = 1\njump c\nblock c:\nexit(x)\nend\nend\n", True, "variable of a block used in a nested block"),
        ("jump b\nblock b:\nint x = 1\njump c\nblock c:\nint x = 2\nexit(x)\nend\nend\n", False, "variable of a block redeclared in a nested block"),
        ("jump b\nblock b:\njump c\nblock c:\nexit(1)\nend\nend\nblock d:\njump c\nend\n", False, "jump into a block nested elsewhere"),
        ("jump c\nblock b:\njump c\nblock c:\nexit(1)\nend\nend\n", False, "jump to a block nested inside another"),
        ("switch 1:\n1: c\nend\nblock b:\njump c\nblock c:\nexit(1)\nend\nend\n", False, "switch to a block nested inside another"),
        ("switch 1:\n1: b\nelse: c\nend\nblock b:\njump c\nblock c:\nexit(1)\nend\nend\n", False, "switch else to a block nested inside another"),
        ("jump b\nblock b:\njump c\nend\nblock c:\nexit(1)\nend\n", True, "jump to a sibling block"),
        ("jump b\nblock b:\njump b2\nblock b2:\njump c\nend\nend\nblock c:\nexit(1)\nend\n", True, "jump to an outer block"),
        ("jump nowhere\n", False, "jump to an unknown block"),
        ("exit(f())\n", False, "call of an unknown function"),
        ("f()\nexit(1)\n", False, "call of an unknown function as statement"),
        ("jump b\nblock b:\nexit(f())\nfunc f() int:\nreturn 1\nend\nend\n", True, "call of a function of the block"),
        ("exit(f())\nblock b:\nexit(f())\nfunc f() int:\nreturn 1\nend\nend\n", False, "call of a function of another block"),
        ("jump b\nblock b:\nexit(f())\nend\nfunc f() int:\nreturn 1\nend\n", True, "call of an outer function from a block"),
        ("jump b\nblock b:\nexit(1)\nfunc f() int:\nreturn 1\nend\nend\nfunc g() int:\nreturn f()\nend\n", False, "function calls a function of a block it is not in"),
        ("if 1:\nexit(1)\nend\nexit(X)\n", False, "unknown constant"),
        ("const int X = 1\nexit(X)\n", True, "constant"),
        ("router:\nf\nend\n", False, "router with an unknown function"),
    ]
    return out


def scope(arg):
    src, ok, what = arg
    st, e, _ = compile_(src)
    if (st == "ok") != ok:
        raise Violation(f"{what}: {'rejected: ' + str(e) if ok else 'accepted'}", src)
    return {"key": key(src), "sample": src}


def resolve(arg):
    """shadowed functions and blocks: which body runs"""
    seed = arg
    r = random.Random(seed)
    n = 0
    body = []

    def mk(level, path, vf, vb):
        nonlocal n
        fs, bs = {}, {}
        for nm in ("f", "g", "h"):
            if r.random() < 0.5:
                f = Func(nm, [], ["int"])
                n += 1
                f.body = [ExprStmt(Op("log", [], [Bytes(f"f{n}")]))]
                f.level = level
                fs[nm] = f
        names = [x for x in ("a", "b", "c") if r.random() < 0.6] if level < 3 else []
        for nm in names:
            bs[nm] = Block(nm)
        vf2, vb2 = {**vf, **fs}, {**vb, **bs}
        out = []
        for nm, f in vf2.items():
            x = D(f"x{level}_{nm}_{n}_{len(path)}", "int")
            out.append(Decl(x, Call(f, [])))
        # functions calling functions of outer scopes or earlier ones
        for f in fs.values():
            outer = [g for g in vf.values()]
            if outer and r.random() < 0.5:
                g = r.choice(outer)
                if {**vf, **fs}.get(g.name) is g:
                    f.body.append(ExprStmt(Op("log", [], [Op("itob", [], [Call(g, [])])])))
            f.body.append(Return([Int(1)]))
        out = [Assign([cnt], Bin(Var(cnt), "+", Int(1))), If([(False, Bin(Var(cnt), ">", Int(9)), [Exit(Int(1))])])] + out
        if vb2:
            out.append(If([(False, Op("getbyte", [], [Field("Txn", "Note"), Int(r.randrange(20))]), [Jump(r.choice(list(vb2.values())))])]))
            out.append(Switch(Op("getbyte", [], [Field("Txn", "Note"), Int(r.randrange(20))]), [(Int(i), b) for i, b in enumerate(r.sample(list(vb2.values()), len(vb2)))], r.choice(list(vb2.values()))))
        else:
            out.append(Exit(Int(1)))
        for nm in names:
            bs[nm].body[:] = mk(level + 1, path + [nm], vf2, vb2)
        tail = list(bs.values()) + list(fs.values())
        r.shuffle(tail)
        return out + tail

    cnt = D("cnt", "int")
    body = [Decl(cnt, Int(0))] + mk(0, [], {}, {})
    cs = [dict(nolog=True, txn={"Note": bytes(r.randrange(4) for _ in range(20))}) for _ in range(6)]
    return run_prog(prog(body), cs, f"resolve seed {seed}")


FEAT = dict(depth=1, stmts=12, funcs=4, blocks=3, inner=True, nest=2, structs=1, pushpop=False, teal=False, w={"decl": 5, "multi": 2, "callst": 2, "call": 3})


def run(c):
    c.bounded("programs filling and re-reading up to 300 variables in nested scopes, functions, parameters, blocks and inner groups (accepted and "
              "correct, or rejected when more than 150); all listed visibility and redeclaration cases; random trees of blocks with shadowed "
              "functions and blocks; random programs; non-trivial: distinct source")
    c.run(scope, scope_cases(), "scope cases")
    sizes = [1, 2, 5, 10, 30, 60, 99, 100, 101, 120, 149, 150, 190, 198, 199, 200, 201, 202, 210, 240, 250, 253, 254, 255, 256, 257, 260, 300, 400]
    c.run(many, [(w, n) for w in ("main", "func", "funcs", "params", "group", "nest") for n in sizes], "many")
    c.run(resolve, [c.seed * 99991 + i for i in range(c.scale(300, 4000))], "resolve")
    c.run(variables, [(c.seed * 99989 + i, i % 4 == 0) for i in range(c.scale(420, 12000))], "variables", c.scale(60, 350))
    c.run(common.differential, [(c.seed * 1000003 + i, FEAT, 3) for i in range(c.scale(400, 5000))], "random", c.scale(50, 300))
