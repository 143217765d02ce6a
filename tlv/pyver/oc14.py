"""C14: literals reach TEAL intact; comment handling never alters code."""
import z3

import tealish
from tealish import nodes, utils
from tealish.scope import Scope
from tealish.types import BytesType, IntType

from .chars import SPACE, Cat, Text, zz
from .domain import Refuted, SymWriter, mk, runs
from .interp import fresh
from .maps import UNROLL, Inv, MapV, check
from .oc04 import find
from .sem import Line
from .values import *  # noqa: F401,F403

I, B, STR = z3.IntSort(), z3.BoolSort(), z3.StringSort()
SPACES = [SPACE(ord(c)) == c.isspace() for c in '"/:#\\; ']
ASSUMPTIONS = [
    "white space at the start of a line keeps the lexical state (induction; the step is an obligation)",
    "str.strip takes the characters away that str.isspace tells of, and no others"]


# -- the lexical state of a line: outside of a string literal, in one, behind a backslash in one ---------
OUT, IN, ESC = 0, 1, 2


def delta(s, c):
    return z3.If(s == OUT, z3.If(c == ord('"'), IN, OUT), z3.If(s == ESC, IN, z3.If(c == ord('"'), OUT, z3.If(c == ord("\\"), ESC, IN))))


def state(t):
    """the state before each character of a text (from its own start on); the texts of a line that begin outside of its literals share it"""
    f = z3.Function(f"state in {t.name} from {t.root}", I, I)
    return lambda j: f(z3.simplify(t.lo + zz(j)))


def step_of(t, j):
    s = state(t)
    j = zz(j)
    return z3.And(s(0) == OUT, z3.Implies(z3.And(j >= 0, j < t.n), s(j + 1) == delta(s(j), t.at(t.lo + j))), z3.Implies(z3.And(j >= 0, j <= t.n), z3.And(s(j) >= OUT, s(j) <= ESC)))


def hit(t, marker, j):
    """the marker begins at j, outside of string literals"""
    return z3.And(j >= 0, state(t)(j) == OUT, t.begins(marker, j))


def is_first(t, marker, r, j):
    """what find_outside_strings gives: -1 and no j is a hit, or a hit and no j before it is one"""
    return z3.Or(z3.And(r == -1, z3.Not(hit(t, marker, j))), z3.And(hit(t, marker, r), z3.Implies(z3.And(j >= 0, j < r), z3.Not(hit(t, marker, j)))))


def ended(rs):
    for r in rs:
        if r.kind == "raise":
            raise Refuted(f"{r.value!r}")
    if not any(r.kind == "ok" for r in rs):
        raise Refuted("there is no result")


def finder(marker):
    def f(o):
        """find_outside_strings: the first position outside of string literals where the marker is, or -1; it ends"""
        t = Text.new("line")
        J = z3.Int("any position")
        at = z3.Function("position after iterations", I, I)
        names = {}

        def facts(ip, k):
            return [step_of(t, j) for j in list(range(7)) + [at(k), at(k) + 1]]

        def before(i):
            return z3.And(i >= 0, i <= t.n + 1, z3.Implies(z3.And(J >= 0, J < i, J < t.n), z3.Not(hit(t, marker, J))))

        def chk(ip, fr, k):
            if not names:
                names["i"] = find(fr, lambda v: v == 0 and type(v) is int)
                names["in"] = find(fr, lambda v: v is False)
            inv.need(fr, names.values())
            i, q = zi(ip.resolve(fr.loc[names["i"]])), ip.resolve(fr.loc[names["in"]])
            q = q.e if isinstance(q, SBool) else z3.BoolVal(bool(q))
            check(ip, i >= k, "the loop goes on")
            check(ip, before(i), "a marker is passed by")
            check(ip, z3.Implies(i < t.n, z3.And(state(t)(i) == z3.If(q, IN, OUT))), "the state of the line")

        def put(ip, fr, k):
            i, q = at(k), fresh("in string", B)
            ip.ctx.assume(z3.And(i >= k, before(i), z3.Implies(i < t.n, state(t)(i) == z3.If(q, IN, OUT))))
            fr.loc[names["i"]], fr.loc[names["in"]] = SInt(i), SBool(q)
        inv = Inv(put, chk, assume=facts, bound=t.n + 2)

        def build(ip):
            r = ip.resolve(ip.call(utils.find_outside_strings, [t, marker], {}))
            if not is_int(r):
                raise Refuted(f"find_outside_strings gives {r!r}")
            check(ip, is_first(t, marker, zi(r), J), f"another position of {marker}")
            return r
        rs = runs(o, build, loops={("find_outside_strings", "while"): inv}, base=[t.hi >= 0])
        ended(rs)
        return len(rs)
    return f


# -- the parts of a line ---------------------------------------------------------------
def found(ip, line, marker):
    """contract of find_outside_strings (above)"""
    line, marker = ip.resolve(line), ip.resolve(marker)
    if not isinstance(line, Text) or marker not in ("#", "//"):
        raise Unsupported(f"find_outside_strings({line!r}, {marker!r})")
    return mkint(first(ip, line, marker))


def first(ip, t, marker):
    """the z3 int of the first marker outside of string literals in the text, or -1"""
    memo = ip.__dict__.setdefault("firsts", {})
    key = (t.name, str(t.lo), str(t.hi), marker)
    if key not in memo:
        r = memo[key] = fresh("first", I)
        for c in SPACES:
            ip.ctx.assume(c)
        ip.ctx.assume(z3.And(r >= -1, r < t.n + 1, step_of(t, 0)))
        a = z3.Int("p!first")
        f = z3.Function(f"state in {t.name} from {t.root}", I, I)
        ip.ctx.assume(z3.ForAll([a], is_first(t, marker, r, a - t.lo), patterns=[f(a)]))
    return memo[key]


def is_part(ip, v, t, lo, hi, what):
    """the value is the part of t from lo to hi (both from the start of t)"""
    v = ip.resolve(v)
    if not isinstance(v, Text) or v.name != t.name:
        raise Refuted(f"{what}: {v!r}")
    check(ip, z3.Or(z3.And(v.lo == t.lo + lo, v.hi == t.lo + hi), z3.And(v.hi <= v.lo, hi <= lo)), what)


def split_comment(o):
    """split_comment: what is before and behind the first // outside of string literals, or the line and None"""
    t = Text.new("line")

    def build(ip):
        r = first(ip, t, "//")
        v = ip.resolve(ip.call(utils.split_comment, [t], {}))
        if not isinstance(v, tuple) or len(v) != 2:
            raise Refuted(f"split_comment gives {v!r}")
        c = ip.resolve(v[1])
        if c is None:
            check(ip, r < 0, "a comment is not found")
            is_part(ip, v[0], t, 0, t.n, "the code of a line without a comment")
        else:
            check(ip, r >= 0, "a comment where none is")
            is_part(ip, v[0], t, 0, r, "the code")
            is_part(ip, c, t, r + 2, t.n, "the comment")
        return v
    rs = runs(o, build, {"find_outside_strings": found}, base=[t.hi >= 0])
    ended(rs)
    return len(rs)


def code(ip, t):
    """the code of a line: what is before its comment"""
    r = first(ip, t, "//")
    return Text(t.name, t.at, t.lo, z3.If(r >= 0, t.lo + r, t.hi), t.root, t.line)


def split(ip, line):
    """contract of split_comment (above)"""
    t = ip.resolve(line)
    if not isinstance(t, Text):
        raise Unsupported(f"split_comment({t!r})")
    r = first(ip, t, "//")
    if ip.ctx.branch(r < 0):
        return t, None
    return Text(t.name, t.at, t.lo, t.lo + r, t.root, t.line), Text(t.name, t.at, t.lo + r + 2, t.hi, None, t.line)


# -- lines of TEAL --------------------------------------------------------------------
LINES = z3.Int("lines")
CHAR, LEN = z3.Function("character of line", I, I, I), z3.Function("length of line", I, I)


def line(i):
    return Text(f"line {z3.simplify(zz(i))}", lambda j: CHAR(zz(i), zz(j)), 0, LEN(zz(i)))


def same_text(ip, a, b, what):
    a = ip.resolve(a)
    if not isinstance(a, Text) or a.name != b.name:
        raise Refuted(f"{what}: {a!r} instead of {b!r}")
    check(ip, z3.Or(z3.And(a.lo == b.lo, a.hi == b.hi), z3.And(a.hi <= a.lo, b.hi <= b.lo)), what)


K = {"find_outside_strings": found, "split_comment": split}
def how_many(ip):
    """how many lines there are (the loops run themselves)"""
    for m in range(UNROLL["limit"] + 1):
        if ip.ctx.valid(LINES == m):
            return m
    raise Unsupported("the number of lines")


KEPT = z3.Function("kept", I, B)
CNT = z3.Function("lines kept", I, I)
ORIG = z3.Function("line kept as", I, I)


def kept_so_far(k, elem):
    return SeqV([("many", SList("output", CNT(k), elem))])


def appended(ip, v, k, kept, want, what):
    """the list is that of k lines, with the wanted elements behind it"""
    segs = ip.segs(ip.resolve(v))
    if k is None:
        return check(ip, ip.length(v) == 0, f"{what}: not empty at the start")
    if not segs or segs[0][0] != "many":
        raise Unsupported("output")
    check(ip, segs[0][1].n == CNT(k), f"{what}: lines are dropped")
    new = segs[1:]
    if any(kind != "one" for kind, _ in new):
        raise Unsupported("output")
    if not kept:
        if new:
            raise Refuted(f"{what}: a line too many: {new}")
    elif len(new) != 1:
        raise Refuted(f"{what}: {len(new)} lines for one")
    else:
        want(new[0][1])


def strip_comments(o):
    """strip_comments: of each line in order its code without white space around it, lines without code left out; nothing else"""
    names = {}

    def elem(j):
        return Opaque(f"code of {z3.simplify(j)}")

    def chk(ip, fr, k):
        if not names:
            names["out"] = find(fr, lambda v: isinstance(v, list))
        inv.need(fr, names.values())
        out = fr.loc[names["out"]]
        if z3.is_int_value(k) and k.as_long() == 0:
            return appended(ip, out, None, None, None, "strip_comments")
        t = line(ip.now)
        c = code(ip, t.strip(ip)).strip(ip)
        for j in (0, 1):
            ip.ctx.assume(step_of(t, j))
        ip.ctx.assume(step_of(t.strip(ip), 0))
        appended(ip, out, ip.now, ip.ctx.branch(c.hi > c.lo), lambda v: same_text(ip, v, c, "strip_comments: another code"), "strip_comments")

    def put(ip, fr, k):
        ip.now = k
        fr.loc[names["out"]] = kept_so_far(k, elem)

    inv = Inv(put, chk)

    def build(ip):
        v = ip.call(utils.strip_comments, [SList("lines", LINES, line)], {})
        segs = ip.segs(ip.resolve(v))
        if UNROLL["on"]:
            want = []
            for i in range(how_many(ip)):
                c = parts(ip, i, line)[1]
                if ip.ctx.branch(c.hi > c.lo):
                    want.append(c)
            if len(want) != len(segs):
                raise Refuted(f"strip_comments: {len(segs)} lines instead of {len(want)}")
            for a, b in zip(segs, want):
                same_text(ip, a[1], b, "strip_comments: another code")
            return v
        if len(segs) != 1 or segs[0][0] != "many" or segs[0][1].name != "output":
            raise Refuted(f"strip_comments gives {v!r}")
        check(ip, segs[0][1].n == CNT(LINES), "strip_comments: lines are dropped")
        return v
    rs = runs(o, build, K, {("strip_comments", "for"): inv}, base=[LINES >= 0])
    ended(rs)
    return len(rs)


def spaces(o):
    """white space outside of literals stays outside"""
    c = z3.Int("character")
    if not solve(SPACES + [SPACE(c), delta(z3.IntVal(OUT), c) != OUT])[0] == z3.unsat:
        raise Refuted("white space begins a literal")
    return 1


# -- minifying -------------------------------------------------------------------------
TEXTOF = z3.Function("text of line", I, I, I, STR)  # line, from, to
POS = z3.Function("instructions before line", I, I)
PL, PLAB = z3.Function("the line before is a label", I, B), z3.Function("the label before", I, I)
HASR, WITH, FROM = z3.Function("replaced", I, STR, B), z3.Function("replaced by the label of line", I, STR, I), z3.Function("label dropped at line", I, STR, I)
LABEL = z3.Function("label of line", I, STR)
ISLAB = z3.Function("is a label", I, B)
INSTR = z3.Function("has code", I, B)
NAME = z3.String("any label")


class Labels(MapV):
    """a dictionary of labels"""

    def key(self, k):
        if isinstance(k, Text) and k.line is not None:
            return name_of(k)
        return super().key(k)

    def copy(self):
        m = Labels(self.name, self.has, self.get, self.layers, self.sort)
        return m


def name_of(t):
    return TEXTOF(t.line, z3.simplify(t.lo), z3.simplify(t.hi))


def tline(i):
    t = line(i)
    t.line = zz(i)
    return t


def parts(ip, i, tline=tline):
    """(the line without white space, its code, z3: has code, z3: is a label, its label) of line i"""
    t = tline(i).strip(ip)
    for x in (t, tline(i)):
        for j in (0, 1):
            ip.ctx.assume(step_of(x, j))
    c = code(ip, t).strip(ip)
    has = c.hi > c.lo
    lab = z3.And(has, c.at(c.hi - 1) == ord(":"))
    return t, c, has, lab, Text(c.name, c.at, c.lo, c.hi - 1, c.root, c.line)


def facts_of(ip, k):
    """the ghost functions at line k: definitions over its text"""
    t, c, has, lab, name = parts(ip, k)
    drop = z3.And(lab, PL(k))
    x = NAME
    out = [INSTR(k) == has, ISLAB(k) == lab, z3.Implies(lab, LABEL(k) == name_of(name)), KEPT(k) == z3.And(has, z3.Not(drop)),
           CNT(0) == 0, POS(0) == 0, z3.Not(PL(0)), z3.Not(HASR(0, x)), CNT(k) >= 0,
           CNT(k + 1) == CNT(k) + z3.If(KEPT(k), 1, 0), POS(k + 1) == POS(k) + z3.If(z3.And(has, z3.Not(lab)), 1, 0),
           z3.Implies(KEPT(k), ORIG(CNT(k)) == k),
           PL(k + 1) == z3.If(has, lab, PL(k)), PLAB(k + 1) == z3.If(z3.And(lab, z3.Not(PL(k))), k, PLAB(k)),
           HASR(k + 1, x) == z3.Or(HASR(k, x), z3.And(drop, x == LABEL(k))),
           WITH(k + 1, x) == z3.If(z3.And(drop, x == LABEL(k)), PLAB(k), WITH(k, x)), FROM(k + 1, x) == z3.If(z3.And(drop, x == LABEL(k)), k, FROM(k, x))]
    return out


def lemma(k):
    """what the replacements are for: a label dropped and the one kept for it stand before the same instruction"""
    x = NAME
    return [z3.Implies(PL(k), z3.And(PLAB(k) >= 0, PLAB(k) < k, ISLAB(PLAB(k)), KEPT(PLAB(k)), POS(PLAB(k)) == POS(k))),
            z3.Implies(HASR(k, x), z3.And(FROM(k, x) >= 0, FROM(k, x) < k, ISLAB(FROM(k, x)), z3.Not(KEPT(FROM(k, x))), LABEL(FROM(k, x)) == x,
                                          WITH(k, x) >= 0, WITH(k, x) < k, ISLAB(WITH(k, x)), KEPT(WITH(k, x)), POS(WITH(k, x)) == POS(FROM(k, x))))]


def label_text(i):
    """the label of line i"""
    t = Text(f"label of {z3.simplify(i)}", lambda j: z3.IntVal(0), 0, 1)
    t.label = i
    t.line = None
    return t


def minify(o):
    """minify_teal: the lines with code in order, without a label that follows another label; the map of each to its original;
    every label dropped is replaced by one that stands before the same instruction; nothing else is changed"""
    names, two, now = {}, {}, {}

    def src(j):
        return tline(ORIG(j)).strip(now["ip"])

    def replacements(k):
        return Labels("replacements", lambda x: HASR(k, x), lambda x: label_text(WITH(k, x)))

    def is_label(ip, v, i, what):
        v = ip.resolve(v)
        if isinstance(v, Text) and hasattr(v, "label"):
            return check(ip, v.label == i, what)
        if not isinstance(v, Text) or v.line is None:
            raise Refuted(f"{what}: {v!r}")
        check(ip, name_of(v) == LABEL(i), what)

    def chk(ip, fr, k):
        start = z3.is_int_value(k) and k.as_long() == 0
        if not names:
            names.update(n=find(fr, lambda v: v == 1 and type(v) is int), out=find(fr, lambda v: isinstance(v, list)), before=find(fr, lambda v: v is False), label=find(fr, lambda v: isinstance(v, str) and v == ""))
            maps = [a for a, v in fr.loc.items() if isinstance(v, dict)]
            if len(maps) != 2:
                raise Unsupported("the dictionaries of minify_teal")
            names["maps"] = maps
        inv.need(fr, [v for a, v in names.items() if a != "maps"] + names["maps"])
        loc = {a: ip.resolve(fr.loc[v]) for a, v in names.items() if a != "maps"}
        maps = [ip.resolve(fr.loc[v]) for v in names["maps"]]
        check(ip, zi(loc["n"]) == CNT(k) + 1, "the number of the next line")
        q = loc["before"]
        check(ip, (q.e if isinstance(q, SBool) else z3.BoolVal(bool(q))) == PL(k), "whether the line before is a label")
        if start:
            appended(ip, loc["out"], None, None, None, "minify_teal")
            if any(maps):
                raise Refuted("the maps are not empty at the start")
            return
        now = ip.now
        for f in lemma(k):
            check(ip, f, "a label is replaced by one that stands elsewhere")
        is_in = ip.ctx.branch(KEPT(now))
        appended(ip, loc["out"], now, is_in, lambda v: same_text(ip, v, tline(now).strip(ip), "another line"), "minify_teal")
        if ip.ctx.branch(PL(k)):
            is_label(ip, loc["label"], PLAB(k), "the label before")
        m, r = (maps if isinstance(maps[1], Labels) else maps[::-1])
        x = fresh("x", I)
        f, v = m.look(ip, x)
        check(ip, z3.BoolVal(bool(f)) == z3.And(x >= 1, x <= CNT(k)), "which lines are mapped")
        if f:
            check(ip, z3.Implies(x == CNT(now) + 1, zi(ip.resolve(v)) == now + 1) if is_in else z3.BoolVal(True), "a line is mapped to another")
            check(ip, z3.Implies(x <= CNT(now), zi(ip.resolve(v)) == ORIG(x - 1) + 1), "the map of a line before is changed")
        f, v = r.look(ip, NAME)
        check(ip, z3.BoolVal(bool(f)) == HASR(k, NAME), "which labels are replaced")
        if f:
            is_label(ip, v, WITH(k, NAME), "what a label is replaced by")

    def put(ip, fr, k):
        ip.now, now["ip"] = k, ip
        for f in facts_of(ip, k) + lemma(k):
            ip.ctx.assume(f)
        loc = fr.loc
        loc[names["n"]] = SInt(CNT(k) + 1)
        loc[names["out"]] = kept_so_far(k, src)
        loc[names["before"]] = SBool(PL(k))
        loc[names["label"]] = label_text(PLAB(k))
        a, b = names["maps"]
        if "map" not in names:
            names["map"], names["repl"] = (a, b)
        loc[names["map"]] = MapV("source map", lambda x: z3.And(x >= 1, x <= CNT(k)), lambda x: SInt(ORIG(x - 1) + 1), sort=I)
        loc[names["repl"]] = replacements(k)

    def assume(ip, k):
        now["ip"] = ip
        return [CNT(0) == 0, POS(0) == 0, z3.Not(PL(0)), z3.Not(HASR(0, NAME))] if not UNROLL["on"] else facts_of(ip, k)

    def chk2(ip, fr, k):
        if not two:
            two["out"] = find(fr, lambda v: isinstance(v, SeqV))
        v = ip.resolve(fr.loc[two["out"]])
        if z3.is_int_value(k) and k.as_long() == 0:
            return
        if not isinstance(v, Minified) or len(v.sets) > 1:
            raise Refuted(f"the lines are {v!r}")
        for at, new in v.sets:
            check(ip, at == ip.now2, "another line is changed")
            t = tline(ORIG(ip.now2)).strip(ip)
            is_replaced(ip, new, t)
        if not v.sets:
            raise Refuted("a line is left with its old labels")

    def put2(ip, fr, k):
        now["ip"] = ip
        ip.now2 = k
        fr.loc[two["out"]] = Minified(k)
    inv, inv2 = Inv(put, chk, assume=assume), Inv(put2, chk2)

    def is_replaced(ip, v, t):
        """the code with its branch targets replaced, and the rest of the line as it was"""
        c = code(ip, t)
        v = ip.resolve(v)
        if not isinstance(v, Cat) or not isinstance(v.parts[0], Replaced):
            raise Refuted(f"a line becomes {v!r}")
        x, rest = v.parts[0], v.parts[1:]
        same_text(ip, x.t, c, "the code of a line")
        if len(rest) != 1 or not isinstance(rest[0], Text):
            raise Refuted(f"a line becomes {v!r}")
        is_part(ip, rest[0], t, c.n, t.n, "the comment of a line")
        f, w = x.labels.look(ip, NAME)
        check(ip, z3.BoolVal(bool(f)) == HASR(LINES, NAME), "which labels are replaced")
        if f:
            is_label(ip, w, WITH(LINES, NAME), "what a label is replaced by")

    def unrolled(ip, out, m):
        """a few lines themselves"""
        want, repl, before = [], [], None
        for i in range(how_many(ip)):
            t, c, has, lab, name = parts(ip, i)
            if not ip.ctx.branch(has):
                continue
            if not ip.ctx.branch(lab):
                before = None
            elif before is not None:
                repl.append((name_of(name), before))
                continue
            else:
                before = name
            want.append((i, t))
        if not isinstance(out, list):
            raise Unsupported(f"the lines are {out!r}")
        if len(out) != len(want):
            raise Refuted(f"{len(out)} lines instead of {len(want)}")
        m = m if isinstance(m, MapV) else MapV.of(m, sort=I)
        for j, ((i, t), v) in enumerate(zip(want, out)):
            f, y = m.look(ip, j + 1)
            if not f:
                raise Refuted("a line is not mapped")
            check(ip, zi(ip.resolve(y)) == i + 1, "a line is mapped to another")
            c, v = code(ip, t), ip.resolve(v)
            if not isinstance(v, Cat) or not isinstance(v.parts[0], Replaced) or len(v.parts) != 2 or not isinstance(v.parts[1], Text):
                raise Refuted(f"a line becomes {v!r}")
            same_text(ip, v.parts[0].t, c, "the code of a line")
            is_part(ip, v.parts[1], t, c.n, t.n, "the comment of a line")
            x = fresh("a label", STR)
            f, w = v.parts[0].labels.look(ip, x)
            for name, by in reversed(repl):
                if ip.ctx.branch(name == x):
                    if not f:
                        raise Refuted("a label dropped is not replaced")
                    check(ip, name_of(ip.resolve(w)) == name_of(by), "what a label is replaced by")
                    break
            else:
                if f:
                    raise Refuted("a label is replaced that is there")
        return out

    def build(ip):
        v = ip.resolve(ip.call(utils.minify_teal, [SList("lines", LINES, tline)], {}))
        if not isinstance(v, tuple) or len(v) != 2:
            raise Refuted(f"minify_teal gives {v!r}")
        out, m = ip.resolve(v[0]), ip.resolve(v[1])
        if UNROLL["on"]:
            return unrolled(ip, out, m)
        if not isinstance(out, Minified) or out.sets or not isinstance(m, MapV):
            raise Refuted(f"minify_teal gives {v!r}")
        x = fresh("x", I)
        ip.ctx.assume(z3.And(x >= 1, x <= CNT(LINES)))
        f, y = m.look(ip, x)
        if not f:
            raise Refuted("a line is not mapped")
        check(ip, zi(ip.resolve(y)) == ORIG(x - 1) + 1, "a line is mapped to another")
        return v

    def replace(ip, c, labels):
        c, labels = ip.resolve(c), ip.resolve(labels)
        if isinstance(labels, dict) and not labels:
            labels = Labels("{}", lambda x: z3.BoolVal(False), lambda x: None)
        if not isinstance(c, Text) or not isinstance(labels, MapV):
            raise Unsupported("replace_branch_targets")
        return Replaced(c, labels)
    rs = runs(o, build, {**K, "replace_branch_targets": replace}, {("minify_teal", "for", 0): inv, ("minify_teal", "for", 1): inv2}, base=[LINES >= 0, CNT(LINES) >= 0])
    ended(rs)
    return len(rs)


class Replaced:
    """a line's code with its branch targets replaced (replace_branch_targets)"""

    pyver_symbolic = True

    def __init__(self, t, labels):
        self.t, self.labels = t, labels

    def sym_add(self, ip, o, before):
        return Cat([o, self] if before else [self, o])

    def sym_isinstance(self, ip, cls):
        return issubclass(str, cls)


class Minified:
    """the lines kept: the first k with their branch targets replaced; sets: what was set since"""

    pyver_symbolic = True

    def __init__(self, k):
        self.k, self.sets = k, []

    def sym_setitem(self, ip, i, v):
        old = list(self.sets)
        ip.journal.append(("call", lambda: setattr(self, "sets", old), self))
        ip.note_write(self, "[]")
        self.sets = old + [(zi(ip.resolve(i)), v)]

    def sym_len(self, ip):
        return CNT(LINES)

# -- constants that a scope has hidden ----------------------------------------------------
def const_of(name, x, ty):
    """the declaration of x: its type (as decided) and the text of its value"""
    return (ty, Rope([Atom(z3.Function(name, STR, STR)(x), safe=True)]))


def restore(ty):
    def f(o):
        """restore_consts: one line #define for each constant visible outside that the scope of the node has with another value, and no line but such definitions"""
        outer = MapV("constants outside", z3.Function("outside", STR, B), lambda x: const_of("value outside", x, ty()))
        inner = MapV("constants of the scope", z3.Function("in the scope", STR, B), lambda x: const_of("value in the scope", x, ty()))
        hidden = lambda x: z3.And(inner.has(x), z3.Function("value outside", STR, STR)(x) != z3.Function("value in the scope", STR, STR)(x))

        def line_for(ip, x, l):
            """the line l is the definition of x"""
            v = Atom(z3.Function("value outside", STR, STR)(x), safe=True)
            want = Rope(["#define ", Atom(x, safe=True), " ", IntText(zi(ip.call(int, [Rope([v])], {}))) if ty is IntType else v])
            if not isinstance(l, Line) or ip.resolve(l.owner) is not inv.node:
                raise Refuted("the line is of another node")
            if repr(ip.resolve(l.text)) != repr(want):
                check(ip, zs(ip.resolve(l.text)) == zs(want), "the line defines something else")

        class Restored(Inv):
            def shut(self, ip, k):
                x = outer._enum[1](k)
                lines = ip.out[self.out0:]
                if not lines:
                    check(ip, z3.Not(hidden(x)), "a constant stays hidden")
                elif len(lines) > 1:
                    raise Refuted("a constant is defined twice")
                else:
                    line_for(ip, x, lines[0])
                self.out0 = len(ip.out)
                super().shut(ip, k)
        inv = Restored(lambda ip, fr, k: None, lambda ip, fr, k: None)
        scope = lambda consts: mk(Scope, consts=consts)

        def build(ip):
            inv.node = node = mk(nodes.Block, current_scope=scope(inner), parent=mk(nodes.Program))
            v = ip.resolve(ip.call(ip.get_attr(node, "restore_consts"), [SymWriter()], {}))
            if UNROLL["on"]:
                lines, (n, key, _) = list(ip.out), outer.enumeration(ip)
                m = next((i for i in range(UNROLL["limit"] + 1) if ip.ctx.valid(n == i)), None)
                if m is None:
                    raise Unsupported("how many constants")
                for j in range(m):
                    if ip.ctx.branch(hidden(key(j))):
                        if not lines:
                            raise Refuted("a constant stays hidden")
                        line_for(ip, key(j), lines.pop(0))
                if lines:
                    raise Unsupported("more lines than constants hidden")
            elif ip.out:
                raise Refuted("a line is written apart from the constants")
            return v
        def visible(ip, self):
            if ip.resolve(self) is not inv.node.parent:
                raise Unsupported("get_scope of another node than the parent")
            return scope(outer)
        rs = runs(o, build, {"Node.restore_consts": None, "BaseNode.get_scope": visible, "int of text": lambda ip, v: mkint(z3.Function("int of", STR, I)(zs(v)))},
                  {("Node.restore_consts", "for"): inv})
        ended(rs)
        return len(rs)
    return f


OBLIGATIONS = [("white space keeps the lexical state", spaces), ("find_outside_strings: #", finder("#")), ("find_outside_strings: //", finder("//")), ("split_comment", split_comment), ("strip_comments", strip_comments), ("minify_teal", minify), ("restore_consts: integers", restore(IntType)), ("restore_consts: bytes", restore(BytesType))]
