"""C14 Literals reach TEAL intact; comment handling never alters code"""
import random

from .. import avm, env, gen
from ..harness import Violation, key
from . import common
from .common import assemble, compile_

import tealish
from tealish.utils import minify_teal, strip_comments

PIECES = ["a", "b", " ", "  ", "#", "//", ";", ":", "(", ")", ",", "{", "}", "[", "]", "=", "'", "`", "%", "$", "@", "!", "\\\\", '\\"', "\\n", "\\t", "\\r",
          "\\x00", "\\x41", "\\xff", "end", "pop", "b l0_end", "exit(1)", "0x", "é", "\u2028", "tl:", "a:", "//;", "#//", "Z", "_", "0", "9", "-", "+", "*", "/", "|", "<", ">", "~", "^", "&", "?", "."]


def denote(body):
    """the bytes a Tealish string denotes: TEAL's escapes, text as UTF-8"""
    out, i = b"", 0
    esc = {"n": b"\n", "r": b"\r", "t": b"\t", "\\": b"\\", '"': b'"'}
    while i < len(body):
        if body[i] == "\\":
            if body[i + 1] == "x":
                out += bytes([int(body[i + 2 : i + 4], 16)])
                i += 4
            else:
                out += esc[body[i + 1]]
                i += 2
        else:
            out += body[i].encode()
            i += 1
    return out


def run_(src):
    p, teal, m = assemble(src)
    return p, avm.run(p, {"salt": 1}), teal


def logs(src, want):
    p, r, teal = run_(src)
    if r.status != "approve" or r.world.logs != want:
        raise Violation(f"expected the logs {want}, got {r.status} {r.reason} {r.world.logs}", src, teal=teal)
    return p, teal


def strings(body):
    """one literal text in every position that takes one"""
    b = denote(body)
    n = 0
    out = []
    for src, want in [
        (f'log("{body}")\nexit(1)', [b]),
        (f'bytes x = "{body}"\nlog(x) # c\nexit(1)', [b]),
        (f'const bytes C = "{body}"\nlog(C)\nexit(1)', [b]),
        (f'const bytes C = "{body}" # x\nlog(C)  # "y"\nexit(1)', [b]),
        (f'const bytes C = 0x{b.hex()}\nlog(C)\nexit(1)', [b]),
        (f'bytes x = concat("{body}", concat("{body}", "z"))\nlog(x)\nexit(1)', [b + b + b"z"]),
        (f'log(f("{body}", "k")) # "\nexit(1)\nfunc f(x: bytes, y: bytes) bytes:\nreturn concat(y, x)\nend', [b"k" + b]),
        (f'log(f())\nexit(1)\nfunc f() bytes:\nreturn "{body}" # )\nend', [b]),
        (f'if "{body}" == "{body}": # "\nlog("{body}")\nend\nexit(1)', [b]),
        (f'assert(1, "{body}")\nlog("{body}")\nexit(1)', [b]),
        (f'assert("{body}" == "{body}", "{body}")\nexit(1)', []),
        (f'struct S:\na: bytes[{len(b)}]\nend\nS s = bzero({len(b)})\ns.a = "{body}"\nlog(s.a)\nexit(1)', [b]),
        (f'log(Concat("{body}", "{body}", "q"))\nexit(1)', [b + b + b"q"]),
        (f'_ = len("{body}")\nexit(1)', []),
        (f'switch "{body}":\n"{body}": k\nelse: z\nend\nblock k:\nlog("{body}")\nexit(1)\nend\nblock z:\nexit(0)\nend', [b]),
        (f'while "{body}" != "{body}":\nlog("n")\nend\nlog("{body}")\nexit(1)', [b]),
        (f'push("{body}")\nbytes x = pop()\nlog(x)\nexit(1)', [b]),
        (f'teal:\npushbytes "{body}" // c " d\nlog\nend\nexit(1)', [b]),
        (f'inner_txn:\nNote: "{body}"\nApplicationArgs[0]: "{body}"\nend\nexit(1)', []),
    ]:
        if not body and ("const" in src or "struct" in src):
            continue
        p, teal = logs(src, want)
        if "inner_txn" in src:
            r = avm.run(p, {})
            got = [f for g in r.world.groups for t in g for f in t]
            if [v for _, v in got] != [b, b]:
                raise Violation(f"inner transaction fields {got}", src, teal=teal)
        utilities(teal, src)
        n += 1
        out.append(key(src))
    return {"positions": n, "key": out, "sample": src}


def rand_string(seed):
    r = random.Random(seed)
    return strings("".join(r.choice(PIECES) for _ in range(r.randrange(0, 9))))


def integer(v):
    for w in {str(v), "0" + str(v), "000" + str(v)}:
        for src in [f"int x = {w}\nlog(itob(x))\nexit(1)", f"const int C = {w}\nlog(itob(C)) # {w}\nexit(1)", f"log(itob({w}))\nexit(1)",
                    f"log(itob(f({w})))\nexit(1)\nfunc f(a: int) int:\nreturn a\nend", f"log(itob({w} | 0))\nexit(1)"]:
            logs(src, [v.to_bytes(8, "big")])
    if v < 10**6:
        src = f"switch {v}:\n{v + 1}: a\n{v}: b\nend\nblock a:\nexit(0)\nend\nblock b:\nlog(itob({v}))\nexit(1)\nend"
        logs(src, [v.to_bytes(8, "big")])
        src = f"int n = 0\nfor i in {v}:{v + 2}:\nn = n + i\nend\nlog(itob(n))\nexit(1)"
        logs(src, [(2 * v + 1).to_bytes(8, "big")])
    return {"integers": 1, "key": key(v)}


def commented(seed):
    """comments anywhere in a program never change its instructions"""
    r = random.Random(seed)
    src = gen.Gen(seed, depth=2, stmts=5, funcs=2, blocks=1).program().source()
    a = assemble(src)[0]
    out, teal, openers = [], False, []
    for l in src.split("\n"):
        s = l.strip()
        txt = "".join(r.choice(PIECES) for _ in range(r.randrange(0, 6)))
        if not teal and l and r.random() < 0.3 and not s.startswith("#") and not l.startswith("#pragma"):
            l = l + r.choice([" # ", "#", "  #"]) + txt
        top = s.split(" ")[0].rstrip(":")
        if top in ("if", "while", "for", "block", "func", "switch", "struct", "router", "inner_txn", "inner_group", "teal"):
            openers.append(top)
        if s == "end":
            openers.pop()
        if r.random() < 0.25 and out and not s.startswith("elif") and not s.startswith("else") and not teal and not (out[-1].strip().startswith("@")):
            out.append("  # " + txt)
        if s == "teal:":
            teal = True
        if s == "end":
            teal = False
        out.append(l)
    new = "\n".join(out)
    b = assemble(new)[0]
    ka, kb = [i.key() for i in a.instrs], [i.key() for i in b.instrs]
    if ka != kb or a.labels != b.labels:
        raise Violation("comments change the instructions", new, original=src)
    return {"commented": 1, "key": key(new), **utilities(compile_(new)[1], new)}


def flow(p):
    """instructions with their branch targets as instruction numbers"""
    out = []
    for i in p.instrs:
        t = p.targets(i)
        out.append((i.op, tuple(p.labels[x] for x in t)) if t else i.key())
    return out


def utilities(lines, src=None):
    """strip_comments and minify_teal keep the instructions, their order and their branch structure"""
    lines = [x for l in lines for x in l.split("\n")]
    try:
        want = flow(avm.Program(lines))
    except avm.AsmError:
        return {}
    s = strip_comments(list(lines))
    try:
        if flow(avm.Program(s)) != want:
            raise Violation("strip_comments changes the program", src, teal=lines, stripped=s)
        m, mp = minify_teal(list(lines))
        if flow(avm.Program(m)) != want:
            raise Violation("minify_teal changes the program", src, teal=lines, minified=m)
    except avm.AsmError as e:
        raise Violation(f"strip_comments or minify_teal breaks the program: {e}", src, teal=lines)
    prev = 0
    for k, l in enumerate(m, 1):
        if k not in mp or not prev < mp[k] <= len(lines):
            raise Violation(f"minified line {k} maps to {mp.get(k)}", src, teal=lines)
        prev = mp[k]
        x, y = ops(lines[mp[k] - 1]), ops(l)
        if x != y:
            raise Violation(f"minified line {k} maps to line {mp[k]}: {l} / {lines[mp[k]-1]}", src, teal=lines)
    kept = {mp[k] for k in range(1, len(m) + 1)}
    for n, l in enumerate(lines, 1):
        if n not in kept and ops(l):
            raise Violation(f"minify_teal drops line {n}: {l}", src, teal=lines)
    return {"utilities": 1}


def ops(line):
    try:
        p = avm.Program([line], check=False)
    except avm.AsmError:
        return None
    return [(i.op, None if p.targets(i) else tuple(i.args)) for i in p.instrs]


WORDS = ["pop", "dup", "pushint 1", "pushint 20", 'pushbytes "a // b"', 'pushbytes "x; b a"', 'pushbytes "l1:"', 'pushbytes "a\\"// b"', "pushbytes 0x00", "load 0", "store 1", "retsub", "err", "return",
         "addr RIKLQ5HEVXAOAWYSW2LGQFYGWVO4J6LIAQQ72ZRULHZ4KS5NRPCCKYPCUU", "txn Fee", "itxn_begin", "global Round", "int 1; store 3", "byte \"b l1\"; pop", "bnz_", "+", "b==", "b+", "match_"]


def teal_lines(seed):
    """random lines of TEAL: labels in runs, several instructions per line, branches of every kind, comments"""
    r = random.Random(seed)
    n = r.randrange(1, 8)
    pool = ["l", "l0", "l0_end", "l0_end2", "b", "main", "x", "l0_e", "a:b"[:1], "bz", "callsub", "switch"]
    labels = r.sample(pool, min(n, len(pool)))
    todo = list(labels)
    lines = []
    while todo or r.random() < 0.85:
        k = r.random()
        if k < 0.35 and todo:
            t = todo.pop()
            l = t + ":" + r.choice(["", "", "", " pop", " b " + r.choice(labels), " // c: d"])
        elif k < 0.6:
            op = r.choice(["b", "bz", "bnz", "callsub", "switch", "match"])
            ts = [r.choice(labels) for _ in range(r.randrange(1, 4) if op in ("switch", "match") else 1)]
            l = op + " " + r.choice([" ", "  "]).join(ts)
            if r.random() < 0.2:
                l += r.choice(["; pop", ";pop", " ; b " + r.choice(labels)])
        else:
            l = r.choice([w for w in WORDS if not w.endswith("_")])
        c = r.random()
        if c < 0.3:
            l += r.choice([" // ", " //", "  // "]) + r.choice(["c", "b " + r.choice(labels), "l0:", '"', "a // b", "", ";"])
        if r.random() < 0.15:
            lines.append(r.choice(["", "   ", "// c", "  // " + r.choice(labels) + ":"]))
        lines.append(r.choice(["", "  ", "\t", "        "]) + l)
    r2 = utilities(lines)
    return {"key": key(*lines), "sample": "\n".join(lines), **r2}


def runs(a):
    """all short arrangements of labels, blank lines, comments and instructions"""
    ix, n = a
    parts = ["a:", "b:", "c:", "", "// x", "pop", "  c: // y"]
    k = ix
    lines = []
    for _ in range(n):
        lines.append(parts[k % len(parts)])
        k //= len(parts)
    defined = {l.split(":")[0].strip() for l in lines if ":" in l}
    lines += [f"b {x}" for x in sorted(defined)] + (["switch " + " ".join(sorted(defined))] if defined else [])
    return {"key": key(*lines), **utilities(lines)}


MALFORMED = ['"', '""a', '"a"b"', '"a" "b"', '"a" // "', '"a"; pop; byte "', '"a\\"', '"\\"', '"a\\\\\\"', "a\"", "\"a", '"a" b', '"a"a"']


def malformed(t):
    """a text that is no literal is rejected in every position of one"""
    n = 0
    for src in [f"const bytes X = {t}\nlog(X)\nexit(1)", f"log({t})\nexit(1)", f"bytes x = {t}\nlog(x)\nexit(1)", f"bytes x = concat({t}, \"z\")\nlog(x)\nexit(1)",
                f"if {t} == \"z\":\nlog(\"z\")\nend\nexit(1)"]:
        try:
            teal = tealish.compile_program(src)[0]
        except (tealish.CompileError, tealish.ParseError):
            n += 1
            continue
        raise Violation(f"accepted, although {t} is no literal", src, teal=teal)
    return {"malformed": n, "key": key(t)}


def scoped(seed):
    """constants of the same names in nested blocks and functions: everywhere a name has the value of its innermost scope"""
    rng = random.Random(seed)
    want, n = {}, [0]

    def consts(outer):
        own = {k: rng.choice(["1", "07", "256", '"x"', '"a b"', "0xff"]) for k in "ABC" if rng.random() < 0.45}
        return [f"const {'int' if v[0] in '12' or v == '07' else 'bytes'} {k} = {v}" for k, v in own.items()], {**outer, **own}

    def logged(seen):
        out, values = [], []
        for k, v in sorted(seen.items()):
            is_int = v[0] in "12" or v == "07"
            out.append(f"log(itob({k}))" if is_int else f"log({k})")
            values.append(int(v).to_bytes(8, "big") if is_int else bytes.fromhex(v[2:]) if v.startswith("0x") else v.strip('"').encode())
        return out, values

    def func(outer, depth):
        n[0] += 1
        name = f"f{n[0]}"
        c, seen = consts(outer)
        body, values = logged(seen)
        return name, [f"func {name}():", *c, *(body or ["assert(1)"]), "return", "end"], values

    order = []

    def block(outer, depth):
        n[0] += 1
        me = {"name": f"b{n[0]}"}
        order.append(me)
        c, seen = consts(outer)
        me["body"], me["values"] = logged(seen)
        me["calls"], me["funcs"], me["inner"] = [], [], []
        me["consts"] = c
        for _ in range(rng.randrange(3)):
            f, lines, values = func(seen, depth)
            me["funcs"] += lines
            me["calls"].append((f, values))
        if depth < 2 and n[0] < 9:
            me["inner"] = [block(seen, depth + 1) for _ in range(rng.randrange(3))]
        return me

    def text(b):
        nxt = order[order.index(b) + 1]["name"] if order.index(b) + 1 < len(order) else None
        kids = [text(x) for x in b["inner"]]
        late = b["funcs"]
        mid = [f"{f}()" for f, _ in b["calls"]]
        inner = [l for k in kids for l in k]
        rest = inner + late if rng.random() < 0.5 else late + inner
        end = [f"jump {nxt}"] if nxt else ["exit(1)"]
        lines = b["consts"] + b["body"] + mid + end + rest
        return lines if b["name"] == "b1" else [f"block {b['name']}:"] + lines + ["end"]

    src = "\n".join(text(block({}, 0)))
    want = [v for b in order for v in b["values"] + [x for _, vs in b["calls"] for x in vs]]
    if len(want) > 32:  # more logs than a program may write
        return {"key": key(src[:0])}
    logs(src, want)
    return {"key": key(src)}


def run(c):
    c.bounded("constants of the same names in nested scopes; texts (one or two special pieces in every combination, then random) in 19 source positions; integers at every power of two and ten +-1 with leading zeros; "
              "texts that are no literals in 5 positions; programs with comments in every place; lists of TEAL lines (all arrangements of up to 5 lines, then random); non-trivial: distinct source or line list")
    bodies = [""] + PIECES + [a + b for a in PIECES for b in (PIECES if not c.quick else PIECES[:22])]
    c.run(strings, bodies, "texts", c.scale(35, 300))
    c.run(malformed, MALFORMED, "malformed literals", 30)
    c.run(rand_string, [c.seed * 7919 + i for i in range(c.scale(150, 4000))], "random texts", c.scale(15, 200))
    ints = sorted({x for k in range(65) for x in (2**k - 1, 2**k, 2**k + 1)} | {x for k in range(20) for x in (10**k - 1, 10**k, 10**k + 1)} | set(range(40)))
    c.run(scoped, [c.seed * 613 + i for i in range(c.scale(250, 5000))], "constants in nested scopes", c.scale(15, 200))
    c.run(integer, [x for x in ints if x < 2**64], "integers", 60)
    c.run(commented, [c.seed * 104729 + i for i in range(c.scale(150, 3000))], "comments", c.scale(15, 200))
    c.run(teal_lines, [c.seed * 31337 + i for i in range(c.scale(4000, 60000))], "TEAL lines", c.scale(15, 120))
    c.run(runs, [(i, n) for n in range(1, 6 if c.quick else 7) for i in range(7**n)], "arrangements", c.scale(30, 200))
