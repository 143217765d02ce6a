"""C10 Source maps and error maps point at the right line

Oracle for the line map: marker statements (two labels of inline TEAL would change the
program; an `assert` of a unique number does not) are inserted before and after a
statement; the TEAL between them is, by construction, what the statement produced."""
import json
import random

from .. import env, gen
from ..harness import Violation, key
from ..lang import *  # noqa
from .. import lang
from . import common, grids
from .common import compile_

import tealish
from tealish.utils import TealishMap

MARK = 987650000


class Marked(S):
    """stands for a marker statement; its TEAL is known from a program of its own"""

    def __init__(self, n):
        self.n = n

    def lines(self):
        return [f"assert({MARK + self.n})"]

    def run(self, s):
        pass


def lists(prog):
    """every statement list of the program: (list, kind of owner)"""
    yield prog.body, "program"
    for s in each(prog.body):
        if isinstance(s, (Block, Func)):
            yield s.body, "block"
        elif isinstance(s, (While, For, For_, InnerGroup)):
            yield s.body, "inner"
        elif isinstance(s, If):
            for _, _, b in s.branches:
                yield b, "inner"
            if s.else_ is not None:
                yield s.else_, "inner"


def kids(s):
    if isinstance(s, If):
        return [b for _, _, b in s.branches] + ([s.else_] if s.else_ is not None else [])
    if isinstance(s, (Block, Func, While, For, For_, InnerGroup)):
        return [s.body]
    return []


def each(body):
    for s in body:
        yield s
        for b in kids(s):
            yield from each(b)


def number(prog):
    """source line ranges of every statement: {id: (first, last)}"""
    at = {}
    line = 1
    if prog.version:
        line += 1
    for st in prog.structs:
        line += len(st.fields) + 2
    for c in prog.consts:
        line += len(c.lines())

    def go(body, line):
        for s in body:
            n = len(s.lines())
            at[id(s)] = (line, line + n - 1)
            if isinstance(s, If):
                l = line
                for _, _, b in s.branches:
                    go(b, l + 1)
                    l += 1 + sum(len(x.lines()) for x in b)
                if s.else_ is not None:
                    go(s.else_, l + 1)
            elif isinstance(s, Func):
                go(s.body, line + (2 if s.deco is not None else 1))
            elif kids(s):
                go(kids(s)[0], line + 1)
            line += n
        return line

    go(prog.body, line)
    return at


def own_lines(s, at):
    a, b = at[id(s)]
    own = set(range(a, b + 1))
    for k in kids(s):
        for x in k:
            p, q = at[id(x)]
            own -= set(range(p, q + 1))
    return own


def shape():
    """how many TEAL lines of a marker come before and after the one with its number"""
    st, teal, m = compile_(f"assert({MARK})\nexit(1)\n")
    st2, teal2, m2 = compile_("exit(1)\n")
    n = len(teal) - len(teal2)
    k = next(i for i, l in enumerate(teal) if f"pushint {MARK}" in l and "//" not in l.split("pushint")[0])
    base = next(i for i in range(len(teal2) + 1) if i == len(teal2) or teal[i] != teal2[i] and teal[i].split("tl:")[0] != teal2[i].split("tl:")[0] or "assert" in teal[i])
    return n, k - base


def find(teal):
    for i, l in enumerate(teal):
        if l.strip().startswith("pushint 98765"):
            return i
    return None


def whole(m, teal, src):
    """the parts that need no marker"""
    tt = m.teal_tealish
    text = "\n".join(teal).split("\n")
    if len(text) != len(teal):
        raise Violation("a written line of TEAL holds several lines", src)
    if sorted(tt) != list(range(1, len(teal) + 1)):
        extra = sorted(set(tt) ^ set(range(1, len(teal) + 1)))
        raise Violation(f"mapped TEAL lines differ from the TEAL lines: {extra[:5]}", src)
    n = len(src.split("\n"))
    helper = len(teal)
    if "\n_itxn_" in "\n".join(teal):
        # the helper routines of inner groups, added after the program, belong to no line
        while helper and tt[helper] == 0:
            helper -= 1
    for t, l in tt.items():
        if not 1 <= l <= n and t <= helper:
            raise Violation(f"TEAL line {t} maps to line {l} of {n}", src)
    back = {}
    for t, l in tt.items():
        back.setdefault(l, []).append(t)
    for l in range(0, n + 3):
        got = m.get_teal_lines_for_tealish(l)
        if sorted(got) != sorted(back.get(l, [])):
            raise Violation(f"reverse map of line {l}: {got}, expected {back.get(l, [])}", src)
        for t in got:
            if m.get_tealish_line_for_teal(t) != l:
                raise Violation(f"maps disagree about TEAL line {t}", src)
    if {k: sorted(v) for k, v in m.tealish_teal.items()} != {k: sorted(v) for k, v in back.items()}:
        raise Violation("tealish_teal is not the reverse of teal_tealish", src)


def saved(m, src, r):
    """saving and loading loses nothing"""
    for d in (json.loads(json.dumps(m.as_dict())), m.as_dict()):
        k = TealishMap(d)
        for a in ("pc_teal", "teal_tealish", "errors", "tealish_teal"):
            if getattr(k, a) != getattr(m, a):
                raise Violation(f"{a} differs after saving and loading", src)
        for l in list(m.teal_tealish.values()) + [0, 10**6]:
            if k.get_teal_lines_for_tealish(l) != m.get_teal_lines_for_tealish(l):
                raise Violation(f"reverse map of line {l} differs after loading", src)
        for pc in list(m.pc_teal) + [10**7]:
            if k.get_tealish_line_for_pc(pc) != m.get_tealish_line_for_pc(pc) or k.get_error_for_pc(pc) != m.get_error_for_pc(pc):
                raise Violation(f"pc {pc} resolves differently after loading", src)


B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def vlq(v):
    v = -2 * v + 1 if v < 0 else 2 * v
    out = ""
    while True:
        d, v = v & 31, v >> 5
        out += B64[d | (32 if v else 0)]
        if not v:
            return out


def assembler_map(teal, r):
    """pcs as an assembler would give them: a source map (lines from 0) and the expected pc -> TEAL line"""
    want, groups = {}, []
    pc, last = 0, 0

    def skip(k):
        nonlocal pc
        groups.extend([""] * k)
        pc += k

    skip(r.choice([0, 1, 3]))
    for i, l in enumerate(teal):
        code = l.split("//")[0].strip()
        if not code or code.startswith("#") or code.endswith(":"):
            continue
        for _ in range(r.choice([1, 1, 2, 3])):
            groups.append("AA" + vlq(i - last) + "A")
            last = i
            want[pc] = i + 1
            pc += 1
            if r.random() < 0.6:
                # later bytes of the same instruction belong to it or are not listed
                k = r.randrange(0, 3)
                skip(k)
    return dict(version=3, sources=["x.teal"], names=[], mapping=";".join(groups), mappings=";".join(groups)), want


def pcs(m, teal, src, errors, r):
    sm, want = assembler_map(teal, r)
    from algosdk.source_map import SourceMap

    s = SourceMap(sm)
    listed = dict(s.pc_to_line)
    m.update_from_teal_sourcemap(sm if r.random() < 0.5 else s)
    top = max(listed, default=0) + 5
    for pc in range(top):
        line = listed[pc] + 1 if pc in listed else None
        if pc in want and line != want[pc]:
            raise Violation(f"the test's own source map is wrong at pc {pc}", src)
        tl = m.teal_tealish.get(line) if line is not None else None
        if m.get_teal_line_for_pc(pc) != line:
            raise Violation(f"pc {pc}: TEAL line {m.get_teal_line_for_pc(pc)}, expected {line}", src)
        if m.get_tealish_line_for_pc(pc) != tl:
            raise Violation(f"pc {pc}: line {m.get_tealish_line_for_pc(pc)}, expected {tl}", src)
        if m.get_error_for_pc(pc) != (errors.get(tl) if tl is not None else None):
            raise Violation(f"pc {pc} of line {tl}: message {m.get_error_for_pc(pc)!r}, expected {errors.get(tl)!r}", src)
    if m.get_tealish_line_for_pc(top + 100) is not None or m.get_error_for_pc(top + 100) is not None or m.get_tealish_line_for_pc(-1) is not None:
        raise Violation("an unknown pc resolves to a line", src)


def messages(prog, at):
    out = {}
    for s in each(prog.body):
        if isinstance(s, Assert) and s.msg:
            out[at[id(s)][0]] = s.msg
    return out


SH = []


def program(arg):
    seed, feat, router = arg
    r = random.Random(str(seed))
    if not SH:
        SH.append(shape())
    size, before = SH[0]
    g = gen.Gen(0 if router == "grid" else seed, **feat)
    if router == "grid":
        p = grids.program(seed)
    else:
        p = g.router_program()[0] if router else g.program()
    # number the asserts' messages
    for k, s in enumerate(each(p.body)):
        if isinstance(s, Assert) and r.random() < 0.8:
            s.msg = f"message {k}"
    at = number(p)
    src = p.source()
    st, teal, m = compile_(src)
    if st != "ok":
        raise Violation(f"rejected: {teal}", src)
    whole(m, teal, src)
    errors = messages(p, at)
    if m.errors != errors:
        raise Violation(f"error messages {m.errors}, expected {errors}", src)
    # regions of statements by markers before and after them
    regions = 0
    gaps = {}

    def gap(body, i):
        """TEAL line (from 0) where the TEAL of body[i:] begins"""
        k = (id(body), i)
        if k not in gaps:
            body.insert(i, Marked(0))
            try:
                st, t2, _ = compile_(p.source())
            finally:
                del body[i]
            f = find(t2) if st == "ok" and len(t2) == len(teal) + size else None
            gaps[k] = None if f is None else f - before
        return gaps[k]

    todo = [(b, i) for b, _ in list(lists(p)) for i in range(len(b))]
    if router == "grid":
        todo = [(b, i) for b, i in todo if b is not p.body or i >= 12]  # after the declarations
    r.shuffle(todo)
    for body, i in todo[: feat_limit(feat)]:
        s = body[i]
        if isinstance(s, (Comment, Blank)):
            continue
        a, b = gap(body, i), gap(body, i + 1)
        if a is None or b is None:
            continue
        first, last = at[id(s)]
        inner = [False] * (b - a)
        rng = range(first, last + 1)
        for t in range(a, b):
            l = m.teal_tealish[t + 1]
            if l not in rng:
                raise Violation(f"TEAL line {t + 1} ({teal[t].strip()[:60]!r}) was produced by the statement of lines {first}-{last} but maps to {l}", src)
        # exact for what lies outside the children
        own = own_lines(s, at)
        cover = set()
        known = True
        for kb in kids(s):
            if not kb:
                continue
            x = gap(kb, 0)
            y = gap(kb, len(kb))
            if x is None or y is None:
                known = False
                break
            cover |= set(range(x, y))
        if known:
            for t in range(a, b):
                if t not in cover and m.teal_tealish[t + 1] not in own:
                    raise Violation(f"TEAL line {t + 1} ({teal[t].strip()[:60]!r}) belongs to the statement of lines {first}-{last} itself but maps to {m.teal_tealish[t + 1]}", src)
        regions += 1
        # nothing outside maps into it
        for t, l in m.teal_tealish.items():
            if l in rng and not a <= t - 1 < b:
                raise Violation(f"TEAL line {t} ({teal[t - 1].strip()[:60]!r}) maps to line {l} but was not produced by the statement of lines {first}-{last}", src)
    pcs(m, teal, src, errors, r)
    saved(m, src, r)
    return {"statements": regions, "teal lines": len(teal), "key": key(src)}


def feat_limit(feat):
    return feat.get("limit", 40)


def literals(seed):
    """every literal of every line, also of fields, options and branches, maps to the line it is on"""
    r = random.Random(seed)
    n = [0]

    def num():
        n[0] += 1
        return 500000 + n[0]

    lines, want = [], {}

    def put(text):
        """text with {} for numbers"""
        while "{}" in text:
            k = num()
            want[k] = len(lines) + 1
            text = text.replace("{}", str(k), 1)
        lines.append(text)

    def block(d, fn):
        for _ in range(r.randrange(1, 5)):
            k = r.randrange(14)
            if k == 0 and d:
                put("if {} == {}:")
                block(d - 1, fn)
                for _ in range(r.randrange(0, 3)):
                    put("elif {} < x:")
                    block(d - 1, fn)
                if r.random() < 0.5:
                    put("else:")
                    block(d - 1, fn)
                put("end")
            elif k == 1 and d:
                put("while {} > x:")
                block(d - 1, fn)
                put("end")
            elif k == 2 and d:
                n[0] += 1
                a, b = num(), num()
                want[a] = want[b] = len(lines) + 1
                lines.append(f"for i{n[0]} in {a}:{b}:")
                block(d - 1, fn)
                put("end")
            elif k == 3:
                put("inner_txn:")
                for f in r.sample(["Fee", "Amount", "XferAsset", "AssetAmount"], r.randrange(1, 4)):
                    if r.random() < 0.3:
                        put("# comment")
                    put(f + ": {} + {}")
                put("end")
            elif k == 4:
                put("teal:")
                for _ in range(r.randrange(1, 4)):
                    put("pushint {}")
                    put("pop")
                put("end")
            elif k == 5:
                put("assert({} != {}, \"m\")")
            elif k == 6:
                put("log(itob({}))")
            elif k == 7:
                put("")
            elif k == 8:
                put("# c")
            elif k == 9:
                put("x, _ = mulw({}, {})")
            elif k == 10:
                put("s.a = {}")
            elif k == 11:
                put(f"y{n[0]} = Cast(f({{}}, {{}}), int)".replace("y", "int y"))
                n[0] += 1
            elif k == 12:
                put("x = f({}, {})")
            else:
                put("x = x + {}")

    put("struct Sx:")
    put("a: int")
    put("end")
    put("int x = {}")
    put("Sx s = bzero(8)")
    block(2, False)
    put("switch x:")
    for _ in range(r.randrange(1, 4)):
        put("{}: " + r.choice(["one", "two"]))
    if r.random() < 0.5:
        put("# c")
        put("else: one")
    put("end")
    for b in ("one", "two"):
        put(f"block {b}:")
        block(1, False)
        put("exit({})")
        put("end")
    put("func f(p: int, q: int) int:")
    block(1, True)
    put("return {}")
    put("end")
    src = "\n".join(lines) + "\n"
    st, teal, m = compile_(src)
    if st != "ok":
        raise Violation(f"rejected: {teal}", src)
    whole(m, teal, src)
    got = {}
    for i, l in enumerate(teal):
        w = l.split("//")[0].split()
        if len(w) == 2 and w[0] == "pushint":
            got.setdefault(int(w[1]), set()).add(m.teal_tealish[i + 1])
    for k, line in want.items():
        if got.get(k) != {line}:
            raise Violation(f"the literal {k} of line {line} maps to {got.get(k)}", src)
    return {"literals": len(want), "key": key(src)}


def shifted(arg):
    """inserting blank lines before a line of the program shifts exactly the lines after it"""
    seed, feat = arg
    r = random.Random(seed)
    p = gen.Gen(seed, comments=False, **feat).program()
    src = p.source()
    st, teal, m = compile_(src)
    if st != "ok":
        raise Violation(f"rejected: {teal}", src)
    lines = src.split("\n")
    n = 0
    for k in r.sample(range(len(lines)), min(len(lines), 6)):
        j = r.randrange(1, 3)
        s2 = "\n".join(lines[:k] + [""] * j + lines[k:])
        st, t2, m2 = compile_(s2)
        if st != "ok":
            continue  # inside a construct that takes no blank lines
        code = [(i, l) for i, l in enumerate(teal) if l.strip() and not l.strip().startswith("//")]
        code2 = [(i, l) for i, l in enumerate(t2) if l.strip() and not l.strip().startswith("//")]
        if [l for _, l in code] != [l for _, l in code2]:
            raise Violation(f"blank lines at line {k + 1} change the TEAL", s2)
        for (i, l), (i2, _) in zip(code, code2):
            a, b = m.teal_tealish[i + 1], m2.teal_tealish[i2 + 1]
            if b != a + (j if a > k else 0):
                raise Violation(f"{l.strip()!r} of line {a} maps to {b} after inserting {j} lines before line {k + 1}", s2)
        n += 1
    return {"insertions": n, "key": key(src)}


def maps(seed):
    """TealishMap on arbitrary maps"""
    r = random.Random(seed)
    n = r.randrange(0, 60)
    m = TealishMap()
    m.teal_tealish = {k: r.randrange(1, 20) for k in r.sample(range(1, 100), n)}
    m.errors = {k: r.choice(["", "x", "a b", "é"]) for k in r.sample(range(1, 25), r.randrange(0, 12))}
    src = repr((m.teal_tealish, m.errors))
    back = {}
    for t, l in m.teal_tealish.items():
        back.setdefault(l, []).append(t)
    for l in range(0, 25):
        if sorted(m.get_teal_lines_for_tealish(l)) != sorted(back.get(l, [])):
            raise Violation(f"reverse map of line {l}", src)
    teal = [r.choice(["pushint 1", "// c", "", "lbl:", "pop"]) for _ in range(r.randrange(0, 80))]
    pcs(m, teal, src, m.errors, r)
    # a second source map replaces the first
    if r.random() < 0.5:
        pcs(m, teal[: len(teal) // 2], src, m.errors, r)
    saved(m, src, r)
    return {"key": key(src)}


FEAT = dict(depth=1, stmts=4, funcs=2, blocks=1, nest=2, structs=1, consts=1, limit=25)


def run(c):
    c.bounded("for statements of random programs and of programs with every form of expression in every context, the TEAL produced is located by inserting marker statements before and after and every line of it must map to the "
              "statement (own lines exact, children apart), nothing else may; every literal maps to its line; inserted blank lines shift the map; reverse maps, "
              "error messages, every pc of generated assembler maps, save and load; non-trivial: distinct program")
    c.run(program, [(c.seed * 1000003 + i, FEAT, i % 5 == 0) for i in range(c.scale(200, 5000))], "statements", c.scale(30, 400))
    c.run(program, [(a, dict(FEAT, limit=6), "grid") for a in grids.cases(c, 300)], "forms", c.scale(40, 200))
    c.run(literals, [c.seed * 7000003 + i for i in range(c.scale(500, 10000))], "literals", c.scale(30, 200))
    c.run(shifted, [(c.seed * 9000011 + i, FEAT) for i in range(c.scale(150, 4000))], "insertions", c.scale(30, 200))
    c.run(maps, [c.seed * 50021 + i for i in range(c.scale(500, 10000))], "maps")
