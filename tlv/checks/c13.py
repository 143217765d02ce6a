"""C13 Every branch target is defined exactly once"""
import glob
import itertools
import os
import random
import re

from .. import avm, env, gen
from ..harness import Violation, key
from . import common
from .common import compile_

GENERATED = re.compile(r"l\d+_|route\d*_|_itxn|__|_$|^_")


def labels(teal):
    """(duplicate definitions, undefined targets) of written TEAL"""
    p = avm.Program(teal, check=False)
    return p.dups, p.undefined(), p


def check(src, how="", must=True):
    st, teal, m = compile_(src)
    if st != "ok":
        if must:
            raise Violation(f"rejected: {teal}", src, how=how)
        return {"rejected": 1}
    dups, und, p = labels(teal)
    if dups or und:
        raise Violation(f"labels defined twice: {dups[:3]}; not defined: {und[:3]}", src, teal=teal, how=how)
    return {"labels": len(p.labels), "programs": 1, "key": key(src)}


class Build:
    """programs with many labels: every construct, deep and long, the same names in different scopes"""

    def __init__(self, seed, size):
        self.r, self.size, self.group, self.fn = random.Random(seed), size, 0, []

    def name(self, used):
        base = ["a", "b", "main", "end", "x_y", "f", "else1", "l0", "l1", "route", "itxn", "for1", "while2", "B", "Aa", "func", "block", "n9", "elif_0", "end2", "1", "0_end"]
        n = self.r.choice([x for x in base if x not in used] or [f"z{len(used)}"])
        used.add(n)
        return n

    def cond(self):
        return self.r.choice(["1", "Txn.Fee", "1 == 2", "!(Txn.Fee > 3)", 'len("a")'])

    def stmts(self, d, n, loop=False, func=False, blocks=()):
        r, out = self.r, []
        for _ in range(r.randrange(0, n + 1)):
            k = r.choice(["line", "if", "if", "while", "for", "for_", "txn", "group", "call"] if d > 0 else ["line", "call", "jump"])
            if k == "line":
                out.append('log("x")')
            elif k == "if":
                out += [f"if {r.choice(['', 'not '])}{self.cond()}:"] + self.stmts(d - 1, n, loop, func, blocks)
                for _ in range(r.choice([0, 0, 0, 1, 2, 5, 12])):
                    out += [f"elif {r.choice(['', 'not '])}{self.cond()}:"] + self.stmts(d - 1, 2, loop, func, blocks)
                if r.random() < 0.5:
                    out += ["else:"] + self.stmts(d - 1, n, loop, func, blocks)
                out.append("end")
            elif k == "while":
                out += [f"while {r.choice(['', 'not '])}{self.cond()}:"] + self.stmts(d - 1, n, True, func, blocks) + ["end"]
            elif k == "for":
                self.v = getattr(self, "v", 0) + 1
                out += [f"for i{self.v} in 0:3:"] + self.stmts(d - 1, n, loop, func, blocks) + ["end"]
            elif k == "for_":
                out += ["for _ in 0:3:"] + self.stmts(d - 1, n, loop, func, blocks) + ["end"]
            elif k == "txn":
                out += ["inner_txn:", "Fee: 0", "end"]
            elif k == "group" and not self.group:
                self.group = 1
                out += ["inner_group:"] + self.stmts(d - 1, 2, loop, func, blocks) + ["inner_txn:", "Fee: 0", "end", "end"]
                self.group = 0
            elif k == "call" and self.fn:
                out.append(r.choice(self.fn) + "()")
            elif k == "jump" and blocks:
                out.append("jump " + r.choice(blocks))
        if loop and r.random() < 0.2:
            out.append("break")
        return out

    def exit(self, blocks):
        r = self.r
        k = r.randrange(3)
        if k == 0 or not blocks:
            return ["exit(1)"]
        if k == 1:
            return ["jump " + r.choice(blocks)]
        return ["switch Txn.Fee:"] + [f"{i}: {r.choice(blocks)}" for i in range(r.randrange(0, 5))] + r.choice([["else: " + r.choice(blocks)], []]) + ["end"]

    def scope(self, d, outer, top=False):
        """a program or block body: statements, an exit, blocks and functions"""
        r, used, out = self.r, set(), []
        names = [self.name(used) for _ in range(r.randrange(0, 4 if d else 1))]
        vis = sorted(set(names) | set(outer))
        old = list(self.fn)
        fs = [f"f{chr(97 + len(old))}{i}" if not top else self.name(used) for i in range(r.randrange(0, 3))]
        self.fn = list(self.fn)
        fns = []
        for f in fs:
            fns.append(["func " + f + "():"] + self.stmts(2, self.size, False, True) + ["return", "end"])
        bl = []
        saved = self.fn
        self.fn = self.fn + [f for f in fs if re.fullmatch("[a-z][a-z_0-9]*", f) and f not in avm.OPS and f not in ("end", "exit", "push", "pop")]
        body = self.stmts(2, self.size, blocks=vis)
        for n in names:
            bl.append([f"block {n}:"] + self.scope(d - 1, vis) + ["end"])
        self.fn = old
        rest = bl + fns
        r.shuffle(rest)
        return body + self.exit(vis) + [l for x in rest for l in x]


def built(a):
    seed, size = a
    src = "\n".join(Build(seed, size).scope(3, [], True))
    r = check(src, f"seed {seed}")
    r["sample"] = src[:1500]
    return r


def generated(a):
    seed, feat, router = a
    g = gen.Gen(seed, **feat)
    p = g.router_program()[0] if router else g.program()
    return check(p.source(), f"seed {seed}")


def shapes(src):
    return check(src)


def repeated(src):
    return check(src, must=False)


def repetitions():
    """the same function routed twice, in one router or in two"""
    f = "".join(f"@public()\nfunc {n}():\nreturn\nend\n" for n in "fgh")
    out = []
    for k in range(1, 4):
        for names in itertools.product("fgh", repeat=k):
            out.append("router:\n" + "".join(n + "\n" for n in names) + "end\n" + f)
            out.append("if 1:\nrouter:\n" + "".join(n + "\n" for n in names) + "end\nend\nrouter:\n# one\n" + "".join(n + "\n" for n in reversed(names)) + "end\n" + f)
    return out


def counted():
    """n of everything, for n from 0 to beyond the two-digit labels"""
    out = []
    for n in list(range(0, 14)) + [25, 99, 101, 120]:
        out.append("if 1:\n" + "".join(f"elif {k}:\nlog(\"a\")\n" for k in range(n)) + "else:\nend\nexit(1)")
        out.append("if 1:\nend\n" * n + "exit(1)")
        out.append("while 1:\nbreak\nend\n" * n + "exit(1)")
        out.append("".join(f"for i{k} in 0:{k}:\nend\n" for k in range(n)) + "exit(1)")
        out.append("for _ in 0:2:\nend\n" * n + "exit(1)")
        out.append("exit(1)\n" + "".join(f"func f{k}():\nif 1:\nend\nreturn\nend\n" for k in range(n)))
        out.append("exit(1)\n" + "".join(f"block b{k}:\nif 1:\nend\nexit(1)\nblock b:\nexit(1)\nend\nfunc f():\nreturn\nend\nend\n" for k in range(n)))
        out.append("switch 1:\n" + "".join(f"{k}: b{k}\n" for k in range(n)) + "end\n" + "".join(f"block b{k}:\nexit(1)\nend\n" for k in range(n)))
        if n:
            out.append("router:\n" + "".join(f"f{k}\n" for k in range(n)) + "end\n" + "".join(f"@public()\nfunc f{k}(a: int) int:\nreturn a\nend\n" for k in range(n)))
        out.append("inner_group:\ninner_txn:\nFee: 0\nend\nend\n" * n + "exit(1)")
        out.append("inner_txn:\nFee: 0\nend\n" * n + "exit(1)")
        if n < 40:
            out.append("if 1:\n" * n + "while 0:\nfor _ in 0:1:\nelog()\nend\nend\n".replace("elog()", 'log("x")') + "else:\nend\n" * n + "exit(1)")
            out.append("while 1:\n" * n + "break\nend\n" * n + "exit(1)")
            out.append("exit(1)\n" + "block a:\nexit(1)\n" * n + "end\n" * n)
            out.append("exit(1)\n" + "block a:\nf()\nexit(1)\nfunc f():\nwhile 1:\nend\nreturn\nend\n" * n + "end\n" * n)
    for k in range(3):
        a = ["jump a\nblock a:\nexit(1)\nend", "if 1:\nrouter:\nf\nend\nelse:\nrouter:\nf\nend\nend\nexit(1)\n@public()\nfunc f():\nreturn\nend",
             "exit(1)\nblock a:\nrouter:\nf\nend\n@public()\nfunc f():\nreturn\nend\nend\nblock b:\nrouter:\nf\nend\n@public()\nfunc f():\nreturn\nend\nend"][k]
        out.append(a)
    return out


def finding(path):
    src = open(path).read()
    st, teal, m = compile_(src)
    name = os.path.basename(path)[:-3]
    if st == "ok":
        dups, und, _ = labels(teal)
        if dups or und:
            return {"known": [f"{name}: labels {sorted(set(dups + und))} (findings/{name}.tl)"]}
        try:
            avm.Program(teal)
        except avm.AsmError as e:
            return {"known": [f"{name}: {e} (findings/{name}.tl)"]}
    return {}


FEAT = dict(depth=2, stmts=8, funcs=3, blocks=3, nest=3)


def run(c):
    c.bounded("labels of the TEAL of: 0 to 120 of every construct in a row and up to 40 nested, random programs of every construct with the same names in different scopes "
              "(no name of the form of a generated label), generated well-typed programs and routers; non-trivial: distinct accepted source")
    c.run(shapes, counted(), "counted shapes", 60)
    c.run(repeated, repetitions(), "repeated routes", 20)
    c.run(built, [(c.seed * 15485863 + i, 1 + i % 4) for i in range(c.scale(700, 12000))], "constructs", c.scale(25, 200))
    c.run(generated, [(c.seed * 1000033 + i, FEAT, i % 3 == 0) for i in range(c.scale(300, 5000))], "generated", c.scale(20, 200))
    names = {f["id"] for f in c.findings}
    c.run(finding, [p for p in sorted(glob.glob(os.path.join(env.VERIF, "findings", "C13-*.tl"))) if os.path.basename(p)[:-3] in names], "known findings")
