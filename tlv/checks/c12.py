"""C12 Every source text is decided: compiled, or rejected with a proper error"""
import glob
import os
import random
import re
import signal

from .. import env, gen
from ..harness import Violation, key
from . import c11, common

import tealish
from tealish.errors import CompileError, ParseError


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def decide(src, how="", seconds=20):
    """True if compiled, False if rejected properly"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        with env.quiet():
            try:
                tealish.compile_program(src)
                return True
            except (CompileError, ParseError):
                return False
    except Timeout:
        raise Violation(f"the compiler does not terminate within {seconds} s", src, how=how)
    except Exception as e:
        raise Violation(f"{type(e).__name__}: {e}", src, how=how)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def kept(src, how=""):
    """an accepted text: every line is in the formatted program"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 20)
    try:
        with env.quiet():
            out = tealish.reformat_program(src)
    except Timeout:
        raise Violation("the formatter does not terminate", src, how=how)
    except Exception as e:
        raise Violation(f"compiled but not formatted: {type(e).__name__}: {e}", src, how=how)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    a, b = src.strip().split("\n"), out.strip().split("\n")
    if len(a) != len(b):
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if words(x) != words(y)), min(len(a), len(b)))
        raise Violation(f"line {k + 1} is dropped: {a[k:k+1]}", src, formatted=out, how=how)
    for k, (x, y) in enumerate(zip(a, b)):
        if words(x) != words(y):
            raise Violation(f"part of line {k + 1} is dropped: {x!r} became {y!r}", src, formatted=out, how=how)


def words(l):
    s = l.strip()
    if s.startswith("#"):
        return [s]
    s = c11.strip_inline(s)
    ws = re.findall(r'"(?:\\.|[^"\\])*"|\w+|[^\w\s]', s)
    return sorted(w.lstrip("0") or "0" if w.isdigit() else w for w in ws if w not in "()+")


def try_(a):
    """decided; and if accepted nothing is dropped"""
    src, how = a
    ok = decide(src, how)
    if ok:
        kept(src, how)
    return {"accepted" if ok else "rejected": 1, "key": key(src)}


def must(a):
    src, want, how = a
    ok = decide(src, how)
    if ok != want:
        raise Violation(f"{'rejected' if want else 'accepted'}: {how}", src)
    if ok:
        kept(src, how)
    return {"accepted" if ok else "rejected": 1, "key": key(src)}


GARBAGE = ["???", "end", "end end", "if", "if 1", "if 1:", "elif 1:", "else:", "else", "while", "while 1:", "for", "for i in 0:1:", "for _ in 0:1:", "for i", "block", "block a:", "block :",
           "func", "func f():", "func f(", "switch", "switch 1:", "1: a", "else: a", "router:", "router", "teal:", "teal", "inner_txn:", "inner_group:", "inner_txn", "Fee: 0", "struct", "struct S:", "struct s:", "a: int",
           "@public()", "@public", "@", "return", "return 1", "break", "break 1", "jump a", "jump", "exit(1)", "exit(", "exit()", "exit", "assert(", "assert()", "assert(1)", "int", "int x", "int x =", "int X = 1",
           "x = ", "= 1", "x, = 1", ", x = 1", "x = y = 1", "_ = 1", "box<S> b", "box<S> b = Box(1)", "box<", "s.a = 1", ".a = 1", "s. = 1", "#pragma version 8", "#pragma", "# c", "", "f()", "f(", ")", "(", "log(\"a", 'log("a")',
           'log("', "\"", "'", "\\", "\x00", "\u00e9", "\t", "const int A = 1", "const int a = 1", "const A", "const int A =", "const bytes A = 0x0", "1", "1 + 1", "exit(1 +)", "exit(1 + 1 + 1)", "exit((1)", "exit(1))", "exit(1,)",
           "exit(Txn)", "exit(Txn.)", "exit(Txn.Nope)", "exit(Gtxn[].Fee)", "exit(Gtxn[1)", "exit(nope(1))", "exit(len())", "exit(len(1, 2))", "bytes[3] b", "bytes[x] b", "bytes[] b", "uint9 u", "nope x", "S s", "int x, y = 1",
           "end # c", "end\t", "END", "If 1:", "if not :", "if not:", "if 1: exit(1)", "while not", "else if 1:", "elseif 1:", "for i in 1:", "for i in :2:", "for i in 1:2", "for 1 in 1:2:", "router: a", "func f() -> int:",
           "func f(a):", "func f(a: ):", "func f(a: int,):", "func f(a: int int) int:", "func f() nope:", "exit(Cast(1))", "exit(SizeOf())", "exit(SizeOf(nope))", 'log(Concat())', "log(Bzero(1))", "push()", "pop()", "Error()", "Error(1)", "x.y",
           "x.y.z = 1", "x[0] = 1", "x[0]", "teal:end", "0x", "0xff", "exit(0xff)", "exit(-1)", "exit(+1)", "exit(--1)", "exit(! 1)", "exit(1 ! 1)", "exit(1 b+ )", "exit(a)", "exit(A)", "a:b", "a: b: c", "@public(", "@public(OnCompletion=)", "@public(OnCompletion=Nope)", "@nope()"]

DEEP = {
    "ifs": lambda n: "if 1:\n" * n + "end\n" * n + "exit(1)", "whiles": lambda n: "while 1:\n" * n + "end\n" * n + "exit(1)",
    "blocks": lambda n: "exit(1)\n" + "block a:\nexit(1)\n" * n + "end\n" * n, "open ifs": lambda n: "if 1:\n" * n, "ends": lambda n: "end\n" * n,
    "groups": lambda n: "exit(" + "(" * n + "1" + " + 1)" * n + ")", "unary": lambda n: "exit(" + "!" * n + "1)", "calls": lambda n: "log(" + "itob(" * n + "1" + ")" * n + ")\nexit(1)",
    "open parentheses": lambda n: "exit(" + "(" * n, "closed": lambda n: "exit(" + ")" * n, "sum": lambda n: "exit(1" + " + 1" * n + ")",
    "elifs": lambda n: "if 1:\n" + "elif 1:\n" * n + "end\nexit(1)", "for": lambda n: "for _ in 0:1:\n" * n + "end\n" * n + "exit(1)", "inner groups": lambda n: "inner_group:\n" * n + "end\n" * n + "exit(1)",
    "lines": lambda n: "log(\"a\")\n" * n + "exit(1)", "long string": lambda n: 'log("' + "a" * n + '")\nexit(1)', "long name": lambda n: "int " + "a" * n + " = 1\nexit(1)", "long comment": lambda n: "#" * n + "\nexit(1)",
    "arguments": lambda n: "exit(1)\nfunc f(" + ", ".join(f"a{i}: int" for i in range(n)) + "):\nreturn\nend", "names": lambda n: ", ".join("_" for _ in range(n)) + " = 1\nexit(1)",
    "quotes": lambda n: "log(" + '"' * n + ")\nexit(1)", "backslashes": lambda n: 'log("' + "\\" * n + '")\nexit(1)', "blanks": lambda n: "exit(" + " " * n + "1" + " " * n + ")", "commas": lambda n: "exit(f(" + "," * n + "))",
    "struct": lambda n: "struct S:\n" + "".join(f"a{i}: int\n" for i in range(n)) + "end\nexit(1)", "brackets": lambda n: "exit(Gtxn[" * n + "]" * n + ")", "digits": lambda n: "exit(" + "1" * n + ")", "not": lambda n: "if " + "not " * n + "1:\nend\nexit(1)",
}


def deep(a):
    k, n = a
    return try_((DEEP[k](n), f"{k} {n}"))


def rules():
    """the structural rules: (text, accepted?, rule)"""
    out = []
    ok = lambda s, w: out.append((s, True, w))
    no = lambda s, w: out.append((s, False, w))
    st = "struct S:\na: int\nend\n"
    simple = {"assignment": "int q = 1\n", "call": 'log("a")\n', "if": "if 1:\nend\n", "while": "while 0:\nend\n", "for": "for i in 0:1:\nend\n", "for _": "for _ in 0:1:\nend\n",
              "teal": "teal:\npushint 1; pop\nend\n", "inner_txn": "inner_txn:\nFee: 0\nend\n", "inner_group": "inner_group:\ninner_txn:\nFee: 0\nend\nend\n", "assert": "assert(1)\n", "const": "const int C = 1\n", "declaration": "int q\n"}
    ends = {"exit": "exit(1)\n", "jump": "jump t\n", "switch": "switch 1:\n1: t\nend\n"}
    T = "block t:\nexit(1)\nend\n"
    defs = {"block": "block u:\nexit(1)\nend\n", "func": "func g():\nreturn\nend\n", "decorated": "@public()\nfunc h():\nreturn\nend\n"}
    for c in ["", "# c\n", "\n", "#pragma version 8\n", "#pragma version 8\n# c\n\n"]:
        ok(c + st + "exit(1)", "a struct after comments")
    for n, s in simple.items():
        no(s + st + "exit(1)", f"a struct after {n}")
        no(st + s + st.replace("S", "R") + "exit(1)", f"a struct after {n}")
        ok(st + s + "exit(1)", n)
    no("exit(1)\n" + st, "a struct after exit")
    ok(st + st.replace("S", "R") + "exit(1)", "two structs")
    for wrap in ["if 1:\n%send\nexit(1)", "while 1:\n%send\nexit(1)", "func f():\n%sreturn\nend\n", "exit(1)\nfunc f():\n%sreturn\nend\n", "exit(1)\nblock b:\n%sexit(1)\nend\n", "inner_group:\n%send\nexit(1)", "for i in 0:1:\n%send\nexit(1)"]:
        if not wrap.startswith("inner_group"):
            no(wrap % st, "a struct inside a construct")
    for where, (pre, post) in {"program": ("", ""), "block": ("jump o\nblock o:\n", "end\n")}.items():
        for en, e in ends.items():
            for dn, d in defs.items():
                ok(pre + e + d + T + post, f"{where}: {dn} after {en}")
                ok(pre + e + "# c\n\n" + d + "# d\n" + T + "\n" + post, f"{where}: comments between definitions")
                no(pre + d + e + T + post, f"{where}: {dn} before {en}")
                no(pre + 'log("a")\n' + d + e + T + post, f"{where}: {dn} before {en}")
            for sn, s in simple.items():
                no(pre + e + s + T + post, f"{where}: {sn} after {en}")
                no(pre + e + T + s + post, f"{where}: {sn} after {en} and a block")
                ok(pre + s + e + T + post, f"{where}: {sn} before {en}")
            for en2, e2 in ends.items():
                no(pre + e + e2 + T + post, f"{where}: {en2} after {en}")
        for sn, s in simple.items():
            if where == "block":
                no(pre + s + post, f"a block ending with {sn}")
                no(pre + s + "if 1:\nexit(1)\nend\n" + post, "a block ending with a conditional exit")
        if where == "block":
            no(pre + post, "an empty block")
            no(pre + "# c\n" + post, "an empty block")
            no(pre + "block u:\nexit(1)\nend\n" + post, "a block of a block only")
    for sn, s in simple.items():
        no(f"exit(1)\nfunc f():\n{s}end", f"a function ending with {sn}")
        no(f"exit(1)\nfunc f():\nreturn\n{s}end", f"a function ending with {sn} after return")
        ok(f"exit(1)\nfunc f():\n{s}return\nend", f"a function with {sn}")
        ok(f"exit(1)\nfunc f():\n{s}return\n# c\n\nend", "comments after return")
    no("exit(1)\nfunc f():\nend", "an empty function")
    no("exit(1)\nfunc f():\n# c\nend", "an empty function")
    no("exit(1)\nfunc f():\nif 1:\nreturn\nend\nend", "a function ending with a conditional return")
    no("exit(1)\nfunc f():\nexit(1)\nend", "a function ending with exit")
    for en, d in defs.items():
        for wrap in ["if 1:\n%send\n", "if 1:\nelif 1:\n%send\n", "if 1:\nelse:\n%send\n", "while 0:\n%send\n", "for i in 0:1:\n%send\n", "for _ in 0:1:\n%send\n", "inner_group:\n%send\n", "inner_group:\nif 1:\n%send\nend\n"]:
            for x in (d, d + "# c\n", 'log("a")\n' + d):
                no(wrap % x + "exit(1)", f"{en} inside {wrap[:8]!r}")
        no("exit(1)\nfunc f():\n" + d + "return\nend", f"{en} inside a function")
        no("exit(1)\nfunc f():\nreturn\n" + d + "end", f"{en} inside a function")
    for k in range(4):
        for n in range(4):
            s = "exit(1)\nfunc f()" + (" " if k else "") + ", ".join(["int"] * k) + ":\n%sreturn" + (" " if n else "") + ", ".join("1" for _ in range(n)) + "\nend"
            out.append((s % "", k == n, f"{n} values returned for {k}"))
            s = "exit(1)\nfunc f()" + (" " if k else "") + ", ".join(["int"] * k) + ":\nif 1:\nreturn" + (" " if n else "") + ", ".join("1" for _ in range(n)) + "\nend\nreturn " + ", ".join("2" for _ in range(k)) + "\nend"
            out.append((s, k == n, f"{n} values returned inside if for {k}"))
    inner = {"if": "if 1:\n%send\n", "if not": "if not 1:\n%send\n", "elif": "if 0:\nelif 1:\n%send\n", "else": "if 0:\nelse:\n%send\n", "for": "for i in 0:1:\n%send\n", "for _": "for _ in 0:1:\n%send\n", "group": "inner_group:\n%send\n", "bare": "%s"}
    for a, x in inner.items():
        for b, y in inner.items():
            y = y.replace("for i", "for j")
            no(x % (y % "break\n") + "exit(1)", f"break in {a} {b} outside a while loop")
            no("exit(1)\nfunc f():\n" + x % (y % "break\n") + "return\nend", f"break in {a} {b} in a function")
            no("exit(1)\nblock o:\n" + x % (y % "break\n") + "exit(1)\nend", f"break in {a} {b} in a block")
            no(x % (y % "return\n") + "exit(1)", f"return in {a} {b} outside a function")
            no("exit(1)\nblock o:\n" + x % (y % "return\n") + "exit(1)\nend", f"return in {a} {b} in a block")
            no("while 1:\nend\n" + x % (y % "break\n") + "exit(1)", f"break after a loop in {a} {b}")
            no("exit(1)\nfunc f():\nreturn\nend\nblock o:\n" + x % (y % "return\n") + "exit(1)\nend", "return after a function")
            if "group" not in (a, b):
                ok("while 1:\n" + x % (y % "break\n") + "end\nexit(1)", f"break in {a} {b} in a while loop")
                ok("while not 1:\n" + x % (y % "break\n") + "end\nexit(1)", f"break in {a} {b} in a while loop")
                ok("exit(1)\nfunc f():\n" + x % (y % "return\n") + "return\nend", f"return in {a} {b} in a function")
    # every construct closed, and only once
    whole = list(simple.values()) + [st, "switch 1:\n1: t\nelse: t\nend\n" + T, "jump t\n" + T, "exit(1)\n" + defs["func"], "exit(1)\n" + defs["decorated"]]
    whole += ["router:\nh\nend\n" + defs["decorated"]]
    for s in whole:
        tail = "" if s.startswith(("switch", "jump", "exit", "router")) else "exit(1)\n"
        ls = s.split("\n")
        for k, l in enumerate(ls):
            if l == "end":
                no("\n".join(ls[:k] + ls[k + 1 :]) + tail, "an end is missing")
                no("\n".join(ls[: k + 1] + ["end"] + ls[k + 1 :]) + tail, "one end too many")
                for z in ["ends", "end x", "end:", "end()", "end 1", "endif", "End"]:
                    no("\n".join(ls[:k] + [z] + ls[k + 1 :]) + tail, f"closed by {z!r}")
        for k in range(1, len(ls)):
            t = "\n".join(ls[:k])
            if t.strip() and ls[k - 1] != "end" and any(x == "end" for x in ls[k:]) and not (ls[0].startswith(("exit", "jump")) and k == 1):
                no(t, "cut off")
    no("exit(1)\nend", "a lone end")
    for mid in ["", "2: t\n", "# c\n"]:
        no("switch 1:\n1: t\nelse: t\n" + mid + "else: u\nend\n" + T + T.replace("t", "u", 1), "a second else in a switch")
        no("if 1:\nexit(1)\nelse:\n" + mid.replace("2: t", 'log("a")') + "else:\nexit(1)\nend\nexit(1)", "a second else in a conditional")
    for n in ("#pragma version 8", "#pragma version 6"):
        ok(n + "\nexit(1)", "a pragma first")
        no("exit(1)\n" + n, "a pragma later")
        no("\n" + n + "\nexit(1)", "a pragma later")
    # undeclared and misplaced names
    for s in ["exit(x)", "x = 1\nexit(1)", "if x:\nend\nexit(1)", "jump nope", "switch 1:\n1: nope\nend", "exit(f())", "f()\nexit(1)", "exit(X)", "router:\nf\nend", "S s = bzero(8)\nexit(1)", "s.a = 1\nexit(1)", "exit(s.a)", "exit(Txn.Nope)", "exit(Global.Nope)",
              "inner_txn:\nNope: 1\nend\nexit(1)", "exit(OnNope)", st + "S s = bzero(8)\ns.b = 1\nexit(1)", st + "S s = bzero(8)\nexit(s.b)", "int x\nint x\nexit(1)", "exit(nope(1))", "box<S> b = Box(\"a\")\nexit(1)", "func f(a: nope):\nreturn\nend"]:
        no(s, "an unknown name")
        for pre in ['log("a")\n', "int y = 1\n"]:
            no(pre + s, "an unknown name")
    return out


def sources():
    fs = sorted(glob.glob(os.path.join(env.REPO, "examples/**/*.tl"), recursive=True) + glob.glob(os.path.join(env.REPO, "tests/**/*.tl"), recursive=True))
    return [open(f).read() for f in fs] + list(c11.CASES)


def truncated(src):
    """every prefix of lines, and cuts inside the last line"""
    ls = src.split("\n")
    r = random.Random(len(src))
    n, ks = 0, []
    cuts = range(len(ls)) if len(ls) < 60 else sorted(r.sample(range(len(ls)), 60))
    for k in cuts:
        t = "\n".join(ls[:k])
        try_((t, "cut after a line"))
        if ls[k]:
            try_((t + "\n" + ls[k][: r.randrange(len(ls[k]) + 1)], "cut in a line"))
        ks.append(key(t))
        n += 2
    return {"texts": n, "key": ks}


def mutate(src, r):
    ls = src.split("\n")
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(len(ls))
        m = r.randrange(9)
        if m == 0:
            del ls[k]
            ls = ls or [""]
        elif m == 1:
            ls.insert(k, r.choice(GARBAGE))
        elif m == 2:
            ls[k] = r.choice(GARBAGE)
        elif m == 3:
            j = r.randrange(len(ls))
            ls[k], ls[j] = ls[j], ls[k]
        elif m == 4:
            ls.insert(k, ls[r.randrange(len(ls))])
        elif m == 5 and ls[k]:
            i = r.randrange(len(ls[k]))
            ls[k] = ls[k][:i] + ls[k][i + 1 :]
        elif m == 6:
            i = r.randrange(len(ls[k]) + 1)
            ls[k] = ls[k][:i] + r.choice(list("()[]{}\"',:;.=+-*!#@_ \t\\aZ09<>&|~^%$?") + ["//", "end", " not ", "\u00e9", "\r", "\x0c"]) + ls[k][i:]
        elif m == 7:
            ws = ls[k].split(" ")
            r.shuffle(ws)
            ls[k] = " ".join(ws)
        else:
            ls[k] = ls[k] + " " + r.choice(GARBAGE)
    return "\n".join(ls)


def mutated(seed):
    r = random.Random(seed)
    if seed % 3 == 0:
        g = gen.Gen(seed, depth=2, stmts=5, funcs=2, blocks=2)
        p = g.router_program()[0] if seed % 2 else g.program()
        src = p.source()
    else:
        S = sources()
        src = r.choice(S)
    out = {"texts": 0, "key": []}
    for _ in range(4):
        t = mutate(src, r)
        x = try_((t, f"mutation {seed}"))
        out["texts"] += 1
        out["key"].append(x["key"])
        for k in ("accepted", "rejected"):
            out[k] = out.get(k, 0) + x.get(k, 0)
    out["sample"] = t[:800]
    return out


def lines(seed):
    """random sequences of good and bad lines"""
    r = random.Random(seed)
    t = "\n".join(r.choice(GARBAGE) for _ in range(r.randrange(1, 12)))
    return try_((t, "random lines"))


def valid(a):
    seed, feat, router = a
    g = gen.Gen(seed, **feat)
    p = g.router_program()[0] if router else g.program()
    return must((p.source(), True, f"generated program {seed} follows the grammar and the rules"))


def run(c):
    c.bounded("all cuts of the repository's programs and of one program per construct; mutations of them and of generated programs; all pairs of 190 good and bad lines; sizes to 2000 of 28 shapes; "
              "the structural rules in every position (about 1500 texts with a stated verdict); generated programs that must be accepted; each with a time limit; non-trivial: distinct text")
    c.run(must, [x for x in rules() if x], "rules")
    c.run(deep, [(k, n) for k in DEEP for n in (1, 2, 5, 20, 60, 150, 400, 2000)], "sizes", 60)
    c.run(truncated, sources(), "cut texts", c.scale(20, 200))
    pairs = [(a + "\n" + b + z, "pair") for a in GARBAGE for b in GARBAGE for z in ("", "\nend")]
    r = random.Random(c.seed)
    if c.quick:
        pairs = r.sample(pairs, 5000)
    c.run(try_, [(a, "one line") for a in GARBAGE] + pairs, "pairs of lines", c.scale(15, 300))
    c.run(lines, [c.seed * 65537 + i for i in range(c.scale(2500, 40000))], "random lines", c.scale(10, 120))
    c.run(mutated, [c.seed * 999983 + i for i in range(c.scale(1500, 30000))], "mutations", c.scale(25, 400))
    c.run(valid, [(c.seed * 1000003 + i, dict(depth=3, stmts=7, funcs=3, blocks=2, nest=3), i % 4 == 0) for i in range(c.scale(150, 4000))], "valid programs", c.scale(15, 200))
