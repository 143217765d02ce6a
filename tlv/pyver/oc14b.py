"""C14: the texts of literals, from the source to TEAL."""
import itertools
import os
import re

import z3

import tealish
from tealish import expression_nodes as en
from tealish import nodes
from tealish.types import BytesType, IntType, UIntType

from . import oc10, oc12b, regex
from .domain import Refuted, SymWriter, mk, runs
from .oc14 import OUT, delta, ended
from .sem import Line
from .values import *  # noqa: F401,F403

I, STR = z3.IntSort(), z3.StringSort()
ASSUMPTIONS = [
    "re.sub replaces the matches that re finds from the left to the right, each behind the one before, and nothing else (Python's documentation)",
    "what re finds at a position depends on as many characters as the pattern can match, and on their classes only (the pattern has no look-around: checked)"]
QUOTED = regex.fullmatch(r'"(?:\\.|[^"\\])*"')  # a literal on one line: ends at its first quote that is not escaped
BODY = regex.fullmatch(r'(?:\\.|[^"\\])*')
HEX = regex.fullmatch(r"0x[0-9a-fA-F]+")
DIGITS = regex.fullmatch(r"[0-9]+")
ONE_LINE = regex.star(regex.chars(regex.inv([(10, 10)])))


def grammar(rule):
    """the regular expression of a rule of the expression grammar"""
    p = os.path.join(os.path.dirname(tealish.__file__), "tealish_expressions.tx")
    m = re.search(rf"^{rule}:\s*(?:\w+=)?/(.*)/\s*;\s*$", open(p).read(), re.M)
    if not m:
        raise Unsupported(f"the rule {rule}")
    return m[1].replace(r"\/", "/")


def inside(a, b, what):
    t = regex.included(a, b, ONE_LINE)
    if t is not None:
        raise Refuted(f"{what}: {t!r}")
    return 1


def languages(o):
    """what is taken for a literal is one literal: a text in quotes none of which is inside, 0x and hexadecimal digits, decimal digits"""
    c = inside(regex.fullmatch(grammar("ByteString")), QUOTED, "the grammar takes this for a string literal")
    c += inside(QUOTED, regex.fullmatch(grammar("ByteString")), "the grammar takes this for no string literal")
    c += inside(regex.fullmatch(grammar("HexBytes")), HEX, "the grammar takes this for a hexadecimal literal")
    c += inside(regex.fullmatch(grammar("Integer")), regex.fullmatch(r"[0-9_]+"), "the grammar takes this for an integer")
    c += inside(regex.match(nodes.LiteralInt.pattern), DIGITS, "a constant takes this for an integer")
    c += inside(regex.match(nodes.LiteralHex.pattern), HEX, "a constant takes this for a hexadecimal literal")
    c += inside(regex.match(nodes.LiteralBytes.pattern), QUOTED, "a constant takes this for a string literal")
    return c


def lexical(o):
    """a string literal is exactly one literal for the reader of the lines: inside until its last character, outside behind it"""
    alphabet = regex.representatives([QUOTED]) + [ord('"'), ord("\\")]
    start = (QUOTED, OUT)
    seen, todo = {start}, [start]
    while todo:
        r, s = todo.pop()
        if r.nullable and s != OUT:
            raise Refuted("the state behind a literal")
        if not r.nullable and r is not QUOTED and s == OUT:
            raise Refuted("the state in a literal")
        for c in alphabet:
            d = regex.derive(r, c)
            if not regex.outcomes([d]).get((True,), None) and not d.nullable:
                continue
            n = (d, z3.simplify(delta(z3.IntVal(s), z3.IntVal(c))).as_long())
            if n not in seen:
                seen.add(n)
                todo.append(n)
    if len(seen) < 4:
        raise Refuted("no literal")
    return len(seen)


# -- re.sub with a pattern that matches a few characters --------------------------------------------
def width(pattern, flags=0):
    import re._constants as K
    import re._parser as P

    tree = P.parse(pattern, flags)

    def go(items):
        for op, av in items:
            if op in (K.AT, K.ASSERT, K.ASSERT_NOT, K.GROUPREF, K.GROUPREF_EXISTS):
                raise Unsupported(f"regular expression: {op}")
            for x in av if isinstance(av, (list, tuple)) else ():
                if isinstance(x, P.SubPattern):
                    go(x)
                if isinstance(x, list):
                    for y in x:
                        if isinstance(y, P.SubPattern):
                            go(y)
    go(tree)
    w = tree.getwidth()[1]
    if w > 6:
        raise Unsupported("a pattern without bound")
    return w


def windows(pattern, classes, flags=0):
    """(what comes, the match there or None): every text of the classes' representatives as long as the pattern can see"""
    w, p = max(2, width(pattern, flags)), re.compile(pattern, flags)
    for n in range(w + 1):
        for t in itertools.product(classes, repeat=n):
            t = "".join(t) if isinstance(pattern, str) else b"".join(t)
            yield t, p.match(t)


class Subbed:
    """what re.sub gives"""

    pyver_symbolic = True

    def __init__(self, pattern, repl, text, flags):
        self.pattern, self.repl, self.text, self.flags = pattern, repl, text, flags

    def sym_isinstance(self, ip, cls):
        return issubclass(str if isinstance(self.pattern, str) else bytes, cls)

    def sym_add(self, ip, other, before):
        if before:
            return Words(other, self)
        raise Unsupported("text behind what re.sub gives")

    def sym_len(self, ip):
        ip.counted = self
        n = z3.Int("length of what re.sub gives")
        ip.ctx.assume(n >= 0)
        return n


def sub(ip, pattern, repl, text, count=0, flags=0):
    pattern, text, count, flags = (ip.resolve(x) for x in (pattern, text, count, flags))
    if not isinstance(pattern, (str, bytes)) or count or flags:
        raise Unsupported("re.sub")
    return Subbed(pattern, repl, text, 0)


def classes(pattern, more):
    """a character of each class that the pattern and the meaning of a text tell apart (a text is of one line)"""
    l = regex.fullmatch(pattern if isinstance(pattern, str) else pattern.decode("latin-1"))
    return [chr(c) for c in regex.representatives([l, regex.fullmatch(more)]) if c != 10 and (isinstance(pattern, str) or c < 256)]


def replaced(ip, s, m):
    """what stands for the match m"""
    r = ip.resolve(s.repl)
    v = m.expand(r) if isinstance(r, (str, bytes)) else ip.resolve(ip.call(r, [m], {}))
    if not isinstance(v, (str, bytes)):
        raise Unsupported(f"{v!r} for a match")
    return v


def escapes(o):
    """Bytes: the text is kept, but for a quote that is not escaped, which gets a backslash; so a literal's text is kept as it is, and what is kept can stand between quotes"""
    c = 0
    text = Rope([Atom(z3.String("body"), what="strbody")])

    def build(ip):
        n = ip.call(en.Bytes, [text, mk(nodes.Program)], {})
        v = ip.resolve(ip.get_attr(n, "value"))
        if repr(v) == repr(text):
            raise Unsupported("the text is kept unseen")
        if not isinstance(v, Subbed) or repr(ip.resolve(v.text)) != repr(text) or not isinstance(v.pattern, str):
            raise Unsupported(f"the text of a literal: {v!r}")
        k = 0
        for t, m in windows(v.pattern, classes(v.pattern, r'["\\]')):
            # how far the text goes that is looked at, and what it must become
            esc = len(t) >= 2 and t[0] == "\\"
            if m is None or not m[0]:
                if m is not None:
                    raise Unsupported("an empty match")
                if t[:1] == '"':
                    raise Refuted("a quote is left as it is")
                if esc and t[1] in '"\\':
                    raise Refuted(f"the characters of {t[:2]!r} are looked at apart")
            else:
                got = replaced(ip, v, m)
                want, at = "", 0
                while at < len(m[0]):
                    if m[0][at] == "\\" and at + 1 < len(m[0]):
                        want, at = want + m[0][at:at + 2], at + 2
                    elif m[0][at] == '"':
                        want, at = want + '\\"', at + 1
                    elif m[0][at] == "\\" and at + 1 < len(t):
                        raise Refuted(f"the characters of {t!r} are looked at apart")
                    else:
                        want, at = want + m[0][at], at + 1
                if got != want:
                    raise Refuted(f"{m[0]!r} becomes {got!r} instead of {want!r}")
            k += 1
        return k

    size = lambda ip, v: SInt(z3.Int("bytes of the literal"))
    rs = runs(o, build, {"re.sub": sub, "string_literal_size": size}, base=[z3.Int("bytes of the literal") >= 0])
    ended(rs)
    return sum(r.value for r in rs if r.kind == "ok")


def measure(o):
    """string_literal_size: one for each byte, and for each escape: \\xHH, or a backslash and one character"""
    text = Rope([Atom(z3.String("body"), what="strbody")])

    def encode(ip, s, *a):
        if a and ip.resolve(a[0]) not in ("utf-8", "utf8"):
            raise Unsupported("another encoding")
        return Opaque("the bytes of the text")

    def build(ip):
        n = ip.resolve(ip.call(en.string_literal_size, [text], {}))
        v = getattr(ip, "counted", None)
        if not isinstance(v, Subbed) or repr(ip.resolve(v.text)) != "<the bytes of the text>" or not isinstance(n, SInt) or str(n.e) != "length of what re.sub gives":
            raise Unsupported(f"the size of a literal: {n!r}")
        k = 0
        cs = [chr(x).encode("latin-1") for x in sorted({ord(c) for c in classes(v.pattern, r"[\\xA-Fa-f0-9]")})]
        for t, m in windows(v.pattern, cs):
            size = 4 if re.match(rb"(?s)\\x[0-9a-fA-F]{2}", t) else 2 if len(t) > 1 and t[:1] == b"\\" else 1
            if not t:
                if m is not None:
                    raise Unsupported("an empty match")
                continue
            got, becomes = (1, 1) if m is None else (len(m[0]), len(replaced(ip, v, m)))
            if (got, becomes) != (size, 1):
                raise Refuted(f"{t!r}: {got} bytes count as {becomes}, where {size} are one")
            k += 1
        return k

    rs = runs(o, build, {"re.sub": sub, "str.encode": encode})
    ended(rs)
    return sum(r.value for r in rs if r.kind == "ok")


# -- branch targets ---------------------------------------------------------------------------------------
class Groups:
    """a match with these groups"""

    pyver_symbolic = True

    def __init__(self, whole, *groups):
        self.whole, self.gs = whole, groups

    def sym_getitem(self, ip, k):
        return self.whole if k == 0 else self.gs[k - 1]

    def sym_truth(self, ip):
        return True

    def sym_getattr(self, ip, name):
        m = self
        if name == "groups":
            return Opaque2(lambda ip2: tuple(m.gs))
        if name == "group":
            return Opaque2(lambda ip2, *k: m.sym_getitem(ip2, *(k or (0,))))
        raise Unsupported(f"{name} of a match")


class Opaque2:
    pyver_symbolic = True

    def __init__(self, f):
        self.f = f

    def sym_call(self, ip, args, kwargs):
        return self.f(ip, *[ip.resolve(a) for a in args])


class Words:
    """op + the targets with each word replaced"""

    pyver_symbolic = True

    def __init__(self, before, s):
        self.before, self.s = before, s


def targets(o):
    """replace_branch_targets: string literals and everything but the targets of branches stays; a target that has a replacement is replaced"""
    code, op, words, word, lit = (Rope([Atom(z3.String(x), what="line")]) for x in ("code", "op", "targets", "target", "literal"))
    branch = regex.fullmatch(r"[;:]?\s*(b|bz|bnz|callsub|switch|match)\s[^;]*")
    quote = regex.starts('"')

    def build(ip):
        from .maps import MapV

        labels = MapV("replacements", z3.Function("is replaced", STR, z3.BoolSort()), lambda x: Rope([Atom(z3.Function("replacement", STR, STR)(x), what="line")]))
        v = ip.resolve(ip.call(tealish.utils.replace_branch_targets, [code, labels], {}))
        if not isinstance(v, Subbed) or repr(v.text) != repr(code) or not isinstance(v.pattern, str):
            raise Unsupported(f"{v!r}")
        l = regex.fullmatch(v.pattern)
        inside(regex.both(l, quote), QUOTED, "what is taken for a string literal")
        inside(QUOTED, l, "a string literal is looked into")
        inside(regex.both(l, regex.neg(quote)), branch, "what is taken for a branch")
        inside(branch, l, "a branch is not seen")
        ip.ctx.assume(z3.Length(z3.String("literal")) >= 2)
        a = ip.resolve(ip.call(v.repl, [Groups(lit, lit, None, None)], {}))
        if repr(a) != repr(lit):
            raise Refuted(f"a string literal becomes {a!r}")
        b = ip.resolve(ip.call(v.repl, [Groups(Rope(op.parts + words.parts), None, op, words)], {}))
        if not isinstance(b, Words) or repr(b.before) != repr(op) or repr(b.s.text) != repr(words) or not isinstance(b.s.pattern, str):
            raise Unsupported(f"a branch becomes {b!r}")
        w = regex.fullmatch(r"\S+")
        l = regex.fullmatch(b.s.pattern)
        inside(l, w, "what is taken for a target")
        inside(w, l, "a target is not seen")
        for t in ("a", "l0_end", "__f__x", "\u00e9\u00e9", "a,b"):
            m = re.compile(b.s.pattern).match(t + " x")
            if not m or m[0] != t:
                raise Refuted(f"of the target {t} {m and m[0]} is replaced")
        r = ip.resolve(ip.call(b.s.repl, [Groups(word)], {})) if not isinstance(b.s.repl, str) else b.s.repl
        x = z3.String("target")
        if ip.ctx.branch(labels.has(x)):
            if repr(r) != repr(labels.get(x)):
                raise Refuted(f"a target becomes {r!r}")
        elif repr(r) != repr(word):
            raise Refuted(f"a target without replacement becomes {r!r}")
        return 1

    rs = runs(o, build, {"re.sub": sub})
    ended(rs)
    return len(rs)


# -- what is written -----------------------------------------------------------------------------------
TEXT = Rope([Atom(z3.String("text"), what="strbody")])
NAME = Rope([Atom(z3.String("name"), safe=True)])
V = z3.Int("value")


def int_of(ip, v):
    """int() of the digits of a literal is their decimal value"""
    return SInt(V) if repr(v) == repr(TEXT) else (_ for _ in ()).throw(Unsupported("int"))


def starts_with(ip, got, want):
    """the line: the code that is wanted, and at most a comment behind it"""
    g = list(ip.resolve(got).parts) if isinstance(ip.resolve(got), Rope) else [ip.resolve(got)]
    w = list(want)
    for p in w:
        if not g:
            return False
        if isinstance(p, str) and isinstance(g[0], str) and g[0].startswith(p):
            g[0] = g[0][len(p):]
            if not g[0]:
                g.pop(0)
        elif repr(p) == repr(g[0]):
            g.pop(0)
        else:
            return False
    return not g or isinstance(g[0], str) and g[0].startswith(" // ")


def written(make, want):
    def f(o):
        def build(ip):
            n = make(ip)
            ip.call(ip.get_attr(n, "write_teal"), [SymWriter()], {})
            w = want(ip, n)
            if len(ip.out) != 1 or not isinstance(ip.out[0], Line):
                raise Refuted(f"what is written: {ip.out}")
            same = {"pushbytes ": "byte ", 'pushbytes "': 'byte "', "pushint ": "int "}
            if not any(starts_with(ip, ip.out[0].text, x) for x in (w, [same.get(w[0], w[0]), *w[1:]])):
                raise Refuted(f"what is written: {ip.out[0].text!r} instead of {w}")
            return 1
        rs = runs(o, build, {"int of text": int_of, "string_literal_size": lambda ip, v: SInt(z3.Int("size")),
                             "LiteralHex.type": lambda ip, self: BytesType(7)}, base=[V >= 0, z3.Int("size") >= 0])
        ended(rs)
        return len(rs)
    f.__doc__ = "the line written for a literal or constant holds its text, and nothing else but a comment"
    return f


def new(cls, **attrs):
    return lambda ip: mk(cls, **attrs)


P = lambda x: x.parts[0]
IT = IntText(V)
OBLIGATIONS = [
    ("what is taken for a literal", languages), ("a literal is one literal", lexical), ("Bytes: escapes", escapes), ("string_literal_size", measure, 120), ("replace_branch_targets", targets),
    ("written: Bytes", written(new(en.Bytes, value=TEXT), lambda ip, n: ['pushbytes "', P(TEXT), '"'])),
    ("written: Integer", written(new(en.Integer, value=SInt(V)), lambda ip, n: ["pushint ", IT])),
    ("written: Constant, int", written(new(en.Constant, name=NAME, value=TEXT, type=IntType()), lambda ip, n: ["pushint ", P(NAME)])),
    ("written: Constant, uint", written(new(en.Constant, name=NAME, value=TEXT, type=UIntType(2)), lambda ip, n: ["pushint ", P(NAME)])),
    ("written: Constant, bytes", written(new(en.Constant, name=NAME, value=TEXT, type=BytesType(3)), lambda ip, n: ["pushbytes ", P(NAME)])),
    ("written: Const, int", written(new(nodes.Const, name=NAME, literal=mk(nodes.LiteralInt, value=TEXT)), lambda ip, n: ["#define ", P(NAME), " ", IT])),
    ("written: Const, bytes", written(new(nodes.Const, name=NAME, literal=mk(nodes.LiteralBytes, value=TEXT)), lambda ip, n: ["#define ", P(NAME), " ", P(TEXT)])),
    ("written: Const, hex", written(new(nodes.Const, name=NAME, literal=mk(nodes.LiteralHex, value=TEXT)), lambda ip, n: ["#define ", P(NAME), " ", P(TEXT)])),
    ("a line written keeps its code", oc10.line_written),
    ("peek", oc12b.reading("peek", False)), ("consume_line", oc12b.reading("consume_line", True)),
]
