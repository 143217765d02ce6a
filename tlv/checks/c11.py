"""C11 Formatting preserves the program and is idempotent"""
import glob
import itertools
import os
import random
import re

from .. import env, gen
from ..harness import Violation, key
from . import common, grids
from .common import compile_

import tealish
from tealish.errors import CompileError, ParseError

STR = re.compile(r'"(?:\\.|[^"\\])*"')


def fmt(src):
    with env.quiet():
        try:
            return "ok", tealish.reformat_program(src)
        except (CompileError, ParseError) as e:
            return "reject", e


def instructions(teal):
    """the instructions of written TEAL, comments dropped (strings kept)"""
    out = []
    for l in "\n".join(teal).split("\n"):
        i, q = 0, False
        while i < len(l):
            if q:
                if l[i] == "\\":
                    i += 1
                elif l[i] == '"':
                    q = False
            elif l[i] == '"':
                q = True
            elif l.startswith("//", i):
                break
            i += 1
        code = l[:i].strip()
        if code:
            out += [p.strip() for p in split_semicolons(code) if p.strip()]
    return out


def split_semicolons(code):
    parts, cur, i, q = [], "", 0, False
    while i < len(code):
        ch = code[i]
        if q and ch == "\\":
            cur += code[i : i + 2]
            i += 2
            continue
        if ch == '"':
            q = not q
        if ch == ";" and not q:
            parts.append(cur)
            cur = ""
        else:
            cur += ch
        i += 1
    return parts + [cur]


def shape(src):
    """per line: comment text, blank, decorator, inline TEAL or the literals of the line"""
    out, teal = [], False
    for l in src.strip().split("\n"):
        s = l.strip()
        if teal:
            if strip_inline(s) == "end":
                teal = False
                out.append(("line", ()))
            else:
                out.append(("teal", strip_inline(s)))
            continue
        if s.startswith("#pragma"):
            out.append(("pragma", s))
        elif s.startswith("#"):
            out.append(("comment", s))
        elif not s:
            out.append(("blank",))
        elif s.startswith("@"):
            out.append(("decorator", re.sub(r"\s", "", strip_inline(s))))
        else:
            if s == "teal:":
                teal = True
            code = strip_inline(s)
            strings = STR.findall(code)
            nums = re.findall(r"(?<![\w.])\d+(?!\w)", STR.sub(" ", code))
            out.append(("line", tuple(strings), tuple(nums)) if (strings or nums) else ("line", ()))
    return out


def strip_inline(s):
    """without a Tealish comment at its end"""
    i, q = 0, False
    while i < len(s):
        if q and s[i] == "\\":
            i += 1
        elif s[i] == '"':
            q = not q
        elif s[i] == "#" and not q:
            return s[:i].strip()
        i += 1
    return s.strip()


def check(src, how=""):
    st, teal, m = compile_(src)
    if st != "ok":
        f, _ = fmt(src)
        if f == "ok":
            # the formatter does not write TEAL; it may accept what only writing rejects
            return {"rejected": 1}
        return {"rejected": 1}
    st, out = fmt(src)
    if st != "ok":
        raise Violation(f"the formatter rejects an accepted program: {out}", src, how=how)
    st, teal2, _ = compile_(out)
    if st != "ok":
        raise Violation(f"the formatted program is rejected: {teal2}", src, formatted=out, how=how)
    a, b = instructions(teal), instructions(teal2)
    if a != b:
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        raise Violation(f"the formatted program compiles to other TEAL: instruction {k}: {a[k:k+2]} became {b[k:k+2]}", src, formatted=out, how=how)
    st, again = fmt(out)
    if st != "ok" or again != out:
        raise Violation("formatting the formatted program changes it", src, formatted=out, again=str(again), how=how)
    x, y = shape(src), shape(out)
    if x != y and how != SINGLE:
        k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
        raise Violation(f"line {k + 1} (comment, blank line, decorator, inline TEAL or literals): {x[k:k+2]} became {y[k:k+2]}", src, formatted=out, how=how)
    if not out.endswith("\n") or out != out.strip() + "\n":
        raise Violation("the formatted text does not end with one line break", src, formatted=out)
    return {"formatted": 1, "key": key(src)}


def vary(src, r):
    """other ways of writing the same program: indentation, trailing blanks, comments, spaces inside brackets"""
    out, teal = [], False
    for l in src.rstrip("\n").split("\n"):
        s = l.strip()
        if s == "teal:":
            teal = True
        elif s == "end":
            teal = False
        elif teal:
            out.append(r.choice(["", "  ", "\t", "        "]) + s)
            continue
        if not s.startswith("#") and not teal and s:
            if r.random() < 0.4:
                s = spaces(s, r)
            if r.random() < 0.12:
                s += r.choice(["# c", "  # inline comment", " #", ' # "x"', "# end", " # a: b"])
        if r.random() < 0.2:
            s += r.choice([" ", "   ", "\t"])
        if s.strip() or True:
            out.append(r.choice(["", "", "    ", "  ", "\t", "            "]) + s)
    if r.random() < 0.3:
        out = [""] * r.randrange(0, 3) + out if not out[0].strip().startswith("#pragma") else out
        out += [""] * r.randrange(0, 3)
    return "\n".join(out) + r.choice(["", "\n", "\n\n"])


def spaces(s, r):
    """vary the blanks inside brackets, outside strings"""
    out, depth, i = "", 0, 0
    while i < len(s):
        ch = s[i]
        if ch == '"':
            j = i + 1
            while j < len(s) and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            out += s[i : j + 1]
            i = j + 1
            continue
        if ch == "(":
            depth += 1
            out += ch + " " * (r.random() < 0.2)
        elif ch == ")":
            depth -= 1
            out += " " * (r.random() < 0.2) + ch
        elif ch == "," and depth:
            out += r.choice([",", " ,", ", ", ",  "])
        elif ch == " " and depth and not s.startswith(("struct", "func")):
            out += r.choice([" ", "  ", " "])
        else:
            out += ch
        i += 1
    return out


def random_(arg):
    seed, feat, router = arg
    g = gen.Gen(seed, **feat)
    p = g.router_program()[0] if router else g.program()
    src = p.source()
    r = check(src, f"seed {seed}")
    if "rejected" in r:
        raise Violation("a generated program is rejected", src)
    r["sample"] = src[:1200]
    rr = random.Random(seed)
    n = 0
    for _ in range(2):
        v = vary(src, rr)
        q = check(v, f"variant of seed {seed}")
        n += q.get("formatted", 0)
    r["variants"] = n
    return r


def files(path):
    src = open(path).read()
    r = check(src, path)
    rr = random.Random(path)
    for _ in range(6):
        check(vary(src, rr), path)
    return r


def grammar(src):
    """one construct each, with comments and blank lines in every place that takes them"""
    r = check(src)
    if "rejected" in r:
        raise Violation("rejected", src)
    return r


SINGLE = "single quotes"  # printed as double quotes; shape knows those only
QUOTES = [
    "bytes x = 'a\\\\'\nbytes y = 'b\\''\nlog(x)\nlog(y)\nexit(1)",
    """bytes x = 'say "hi"'\nlog(x)\nlog('a b')  # c\nexit(1)""",
]


def quotes(src):
    if "rejected" in check(src, SINGLE):
        raise Violation("rejected", src)
    return {"formatted": 1, "key": key(src)}


CASES = [
    'int not = 1\nif  not == 1:\nnot = 2\nelif  not == 3:\nwhile  not > 4:\nnot = 1\nend\nelif not not:\nexit(2)\nend\nexit(1)',
    'int else = 1\nswitch 1:\nelse : a\nelse: b\nend\nblock a:\nexit(1)\nend\nblock b:\nexit(2)\nend',
    'exit(1)',
    '\n\n# c\n\n# d\n\nexit(1)\n\n\n',
    '#pragma version 6\n\n# c\nexit(1)',
    'exit((1 + 2) * (3 - 4))',
    'exit(!(1 == 2) && !0)',
    'exit(~1)\n# after',
    'const int X = 1\nconst bytes Y = "a # b // c"\nconst bytes Z = 0xff00\nexit(X)',
    'int x\nint y = 5\nx, y = mulw(1, 2)\n_, y = mulw(x, y)\nexit(x)',
    'if 1:\n# a\n\nelif 2:\n\n# b\nelse:\n# c\n\nend\nexit(1)',
    'if not 1:\nelif not 2:\nend\nexit(1)',
    'while not 1:\n# a\nbreak\n\nend\nexit(1)',
    'while 1:\nend\nexit(1)',
    'for i in 0:10:\n# a\n\nend\nexit(1)',
    'for _ in 0:10:\n# a\n\nend\nexit(1)',
    'int a = 1\nfor i in a:a:\nend\nexit(1)',
    'switch 1:\n# a\n1: b\n# c\nelse: c\n# d\nend\nblock b:\n# x\n\nexit(1)\nend\n\n# between\nblock c:\njump b\nend',
    'jump x\nblock x:\njump y\nblock y:\nexit(1)\nend\nend',
    'router:\n# a\nf\n# b\ng\nend\n\n@public()\nfunc f():\nreturn\nend\n# c\n@public(OnCompletion=OptIn)\nfunc g(a: int, b: bytes[3]) int, bytes:\n# d\nreturn a, b\nend',
    'exit(f(1, g("a")))\nfunc f(a: int, b: uint8) int:\nreturn a + b\nend\nfunc g(b: bytes) uint8:\n\nreturn 3\nend',
    'struct S:\n# c\na: int\nb: bytes[32]\n# d\nc: uint8\nend\nS s = bzero(41)\ns.a = 1\ns.b = bzero(32)\nbox<S> x = Box("a")\nbox<S> y = OpenBox("b")\nbox<S> z = CreateBox(concat("c", "d"))\nx.a = s.a + y.c\nlog(z.b)\nexit(1)',
    'inner_txn:\n# c\nFee: 0\nApplicationArgs[0]: "a"\nApplicationArgs[1]: "b # c"\n# d\nend\nexit(1)',
    'inner_group:\n# c\n\ninner_txn:\nFee: 0\nend\nif 1:\ninner_txn:\nFee: 1\nend\nend\nend\nexit(1)',
    'teal:\n  pushint 1 // c\n    // only\n\n  pop\n  pushbytes "a // b"; pop\nend\nexit(1)',
    'teal:\n  byte "a  b"   ;  pop\n\tint  1 \n pop // x  "y\n bytes: "a"\n  byte "\\"  #" // \\ \n#if\n  pushbytes "a  // b"; pop\n\tbyte "c   d  // e"\n# raw  text\npop\nend\nlog("a   b")\nassert(1, "m  n")\nexit(1)',
    'assert(1)\nassert(1 == 1, "m \\"q\\" # x")\nassert(len("a, \\"b"), "c, d")\nexit(1)',
    'push("a", 1)\nint x = pop()\nbytes y = pop()\nError()\nexit(1)',
    'int x = ((Txn.Fee + Gtxn[0].Fee) + (Gtxn[-1].Fee + Gtxn[+2].Amount)) + Gtxn[len("a")].Fee\nexit(x)',
    'log(Txn.ApplicationArgs[0])\nlog(Txn.ApplicationArgs[len("a")])\nlog(Gtxn[1].ApplicationArgs[2])\nlog(Itxn.Logs[0])\nlog(Itxn.Note)\nexit(Global.Round)',
    'log(ARC28Event("f(uint64)", itob(1)))\nbytes[4] a = Rpad("a", 4)\nbytes[4] b = Lpad(a, 4)\nbytes[2] c = ToBytes(5, 2)\nint d = FromBytes(c, int)\nuint8 e = Cast(d, uint8)\nbytes[8] f = Convert(d, bytes[8])\nexit(EnsureType(app_global_get("k"), int))',
    'exit(SizeOf(int))',
    'log(gitxna(0, Logs, 1))\nlog(gtxnas(0, ApplicationArgs, 1))\nexit(1)',
    'int x = app_global_get("a \\\\ \\" b")\nexit(x)',
    'exit("a" b< "b")',
    'log(b~"a" b| "b")\nexit(1)',
    'exit(1 & 3)',
    'int v\nbytes w\nv, w = app_params_get(AppAddress, 1)\nexit(v)',
    'if 1:\nexit(1)\nend\nexit(0)\n# after exit\n\nfunc f():\nif 1:\nreturn\nend\nreturn\nend\n# end',
]

FEAT = dict(depth=3, stmts=7, funcs=3, blocks=2, nest=3)


def decorated(arg):
    """functions with several decorators, at several places"""
    names, params, where = arg
    ds = [f"@{n}({q})\n" for n, q in zip(names, params)]
    f = "".join(d + ("# c\n" if where == "commented" and i + 1 == len(ds) else "") for i, d in enumerate(ds)) + "func f(a: int) int:\nreturn a\nend\n"
    src = {"first": "router:\nf\nend\n" + f, "commented": "router:\nf\nend\n" + f, "block": "jump b\nblock b:\nrouter:\nf\nend\n" + f + "end\n",
           "two": "router:\nf\ng\nend\n" + f + f.replace("func f", "func g"), "plain": "exit(f(1))\n" + f}[where]
    r = check(src)
    if "rejected" in r and where != "commented" and (where == "plain" or "public" in names):
        raise Violation("rejected", src)
    return r


def of_others(arg):
    """the programs of the grids of other checks: every form of expression in every context"""
    return check(grids.program(arg).source(), str(arg))



def finding(path):
    name, src = os.path.basename(path)[:-3], open(path).read()
    try:
        check(src)
    except Violation as v:
        return {"known": [f"{name}: {str(v)[:120]} (findings/{name}.tl)"]}
    return {}


def run(c):
    c.bounded("every construct with comments and blank lines, functions with one to three decorators, every form of expression in every context, the repository's programs, random programs and random re-spacings of all of them (indentation, "
              "trailing blanks, inline comments, blanks in brackets): formatted, recompiled, reformatted and compared line by line; non-trivial: distinct accepted source")
    fs = sorted(glob.glob(os.path.join(env.REPO, "examples/**/*.tl"), recursive=True) + glob.glob(os.path.join(env.REPO, "tests/**/*.tl"), recursive=True) + glob.glob(os.path.join(env.REPO, "docs/**/*.tl"), recursive=True))
    c.run(grammar, CASES, "constructs")
    c.run(quotes, QUOTES, "single quotes")
    c.run(vary_case, [(i, k) for i in range(len(CASES)) for k in range(c.scale(20, 200))], "constructs re-spaced")
    names, params = ["public", "other", "x1"], ["", "OnCompletion=OptIn", "a, b", "k=v=w"]
    c.run(decorated, [(ns, ps, w) for k in (1, 2, 3) for ns in itertools.permutations(names, k) for ps in itertools.product(params[: 4 if k < 3 else 2], repeat=k) for w in ("first", "commented", "block", "two", "plain")], "decorators")
    c.run(of_others, grids.cases(c), "every form in every context", c.scale(60, 300))
    c.run(files, fs, "repository programs")
    c.run(random_, [(c.seed * 1000003 + i, FEAT, i % 4 == 0) for i in range(c.scale(450, 12000))], "random", c.scale(45, 300))
    names = {f["id"] for f in c.findings}
    c.run(finding, [p for p in sorted(glob.glob(os.path.join(env.VERIF, "findings", "C11-*.tl"))) if os.path.basename(p)[:-3] in names], "known findings")


def vary_case(a):
    i, k = a
    return check(vary(CASES[i], random.Random(i * 1000 + k)))
