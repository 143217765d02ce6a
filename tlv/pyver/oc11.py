"""C11: the lines a statement is printed as are read as that statement, with the same parts.

Printing is evaluated on the real code: a node whose parts are unknown texts and unknown
expressions, taken by contract (an expression prints a text of the language of printed
expressions, oc11b).  Its first line is a template, a language with marks where the parts are;
for every text of it the tables of C12 give the same statement again, and the groups of the
match its pattern finds (regex.groups: greedy and lazy as Python) are exactly the parts.
"""
import re

import z3

from . import regex, texts
from .domain import Family, Opaque, Refuted, mk, runs
from .maps import check
from .oc12b import BEGINS, HERE, IS_LINE, hints
from .regex import ALL, EPS, alt, both, cat, chars, fullmatch, inv, marked, neg, star, starts
from .values import *  # noqa: F401,F403

from tealish import base, expression_nodes as en, nodes

I, B, STR = z3.IntSort(), z3.BoolSort(), z3.StringSort()

ASSUMPTIONS = [
    "textX reads two texts that differ only in the blanks between tokens alike (blanks are put in where one of the sides is an operator or a comma)",
    "two nodes with the same class, parts and children compile to the same TEAL (C15: compiling depends on nothing else)",
    "Python's matcher prefers what its documentation says: earlier alternatives, more for a greedy and less for a lazy repetition (compared with re on random texts by the self-check)",
    "known finding: a variable named as the word that begins a statement, assigned to with a tab or the like before ' = ', is printed with a blank there"]

# -- languages ---------------------------------------------------------------------------
STRING = fullmatch(r'"(?:\\[^\n]|[^"\\\n])*"')
CODE = star(alt(STRING, chars(inv([(10, 10), (34, 34), (35, 35)]))))  # no comment in it, and no line feed: nothing of the line is dropped
MESSAGE = cat(ALL, cat(regex.text(', '), STRING))
EXPR = both(star(alt(STRING, fullmatch(r"[A-Za-z0-9_ .,()\[\]+*/%<>=!&|^~-]"))), regex.stripped(), neg(EPS), neg(MESSAGE))  # what an expression is printed as (oc11b)
TOKEN = fullmatch("[A-Za-z0-9_]+")
TYPE = fullmatch(r"[a-zA-Z][A-Za-z_0-9]*(<[A-Za-z_0-9]+>)?(\[[0-9]+\])?")  # get_type_instance knows no other names
ARG = fullmatch(r"[a-z][a-z_0-9]*: [a-zA-Z][A-Za-z_0-9<>]*(\[[0-9]+\])?")
PLAIN = both(CODE, HERE)


def listed(item, least=0):
    l = cat(item, star(cat(regex.text(", "), item)))
    return l if least else alt(EPS, l)


def group_of(cls, name):
    """the language of a group of the pattern"""
    p = regex.Pattern(cls.pattern)
    no = re.compile(cls.pattern).groupindex[name]
    K = p.K

    def find(items):
        for op, av in items:
            if op is K.SUBPATTERN:
                if av[0] == no:
                    return av[3]
                r = find(av[3])
            elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
                r = find(av[2])
            elif op is K.BRANCH:
                r = next((x for b in av[1] for x in [find(b)] if x is not None), None)
            else:
                r = None
            if r is not None:
                return r
        return None
    items = list(find(p.items))
    if any(op is K.BRANCH or op is K.AT for op, _ in items):  # words
        return alt(*[regex.text(w) for w in re.sub(r"\\b", "", _source(cls.pattern, name)).split("|")])
    return p.seq(items, EPS, "start")


def _source(pattern, name):
    s = pattern[pattern.index(f"(?P<{name}>") + len(f"(?P<{name}>"):]
    words = s[:s.index(")")]
    if not re.fullmatch(r"(\\b)?\w+(\\b)?(\|(\\b)?\w+(\\b)?)*", words):
        raise Unsupported(f"the part {name} of {pattern}")
    return words


# -- nodes with unknown parts ------------------------------------------------------------
class Part:
    """kind: text | expr | list; the language of what is printed for it, and the group of the pattern it stands for"""

    def __init__(self, kind, language, group=None, attr=None):
        self.kind, self.language, self.group, self.attr = kind, language, group, attr


def T(language=None):
    return lambda cls, n: Part("text", both(regex.LINE, language if language is not None else group_of(cls, n)))


def E(language=EXPR):
    return lambda cls, n: Part("expr", language)


def N(cls, n):
    return None


def L(attr, language, least=0):
    return lambda cls, n: Part("list", listed(language, least), attr=attr)


NOT = regex.text("not")
COND = {"modifier": [N, T(NOT)], "condition": [E(both(EXPR, neg(starts("not ")))), E(both(EXPR, starts("not ")))]}
PARTS = {
    nodes.TealVersion: {"version": [T()]},
    nodes.Comment: {"comment": [T()]},
    nodes.Const: {"tealish_type": [T()], "name": [T()], "literal": [E(alt(STRING, TOKEN))]},
    nodes.Jump: {"block_name": [T()]},
    nodes.Exit: {"expression": [E()]},
    nodes.FunctionCallStatement: {"expression": [E(both(EXPR, fullmatch(r"[a-zA-Z_0-9]+\(.*\)")))]},
    nodes.Assert: {"arg": [E()], "message": [N, T()]},
    nodes.VarDeclaration: {"type_name": [T()], "name": [E(fullmatch("[a-z][a-zA-Z0-9_]*"))], "expression": [N, E()]},
    nodes.Assignment: {"names": [L("name_nodes", fullmatch("[a-z_][a-zA-Z0-9_]*"), 1)], "expression": [E()]},
    nodes.Block: {"name": [T()]},
    nodes.SwitchOption: {"expression": [E(both(EXPR, neg(regex.text("else")))), E(regex.text("else"))], "block_name": [T(TOKEN)]},
    nodes.SwitchElse: {"block_name": [T()]},
    nodes.Switch: {"expression": [E()]},
    nodes.Route: {"name": [T()]},
    nodes.InnerTxnFieldSetter: {"field_name": [T(fullmatch("[A-Za-z]+"))], "index": [N, T()], "expression": [E()]},
    nodes.Elif: COND, nodes.IfStatement: COND, nodes.WhileStatement: COND,
    nodes.ForStatement: {"var_name": [T(both(fullmatch("[a-z_][a-zA-Z0-9_]*"), neg(regex.text("_"))))], "start": [E(TOKEN)], "end": [E(TOKEN)]},
    nodes.For_Statement: {"start": [E(TOKEN)], "end": [E(TOKEN)]},
    nodes.Func: {"name": [T()], "args": [E(listed(ARG))], "return_type": [L("return_type", TYPE)]},
    nodes.Return: {"args": [L("args_expressions", EXPR)]},
    nodes.Decorator: {"name": [T()], "params": [T()]},
    nodes.StructFieldDefinition: {"field_name": [T()], "data_type": [T()]},
    nodes.StructDefinition: {"name": [T()]},
    nodes.StructOrBoxAssignment: {"name": [E(fullmatch("[a-z][a-zA-Z0-9_]*"))], "field_name": [T()], "expression": [E()]},
    nodes.BoxDeclaration: {"struct_name": [T()], "name": [E(fullmatch("[a-z][a-zA-Z0-9_]*"))], "method": [N, T()], "key": [E()]},
    nodes.Break: {}, nodes.Blank: {}, nodes.Router: {}, nodes.Teal: {}, nodes.InnerTxn: {}, nodes.InnerGroup: {}, nodes.Else: {},
}


def variants(cls):
    out = [{}]
    for n, ways in PARTS[cls].items():
        out = [{**v, n: w(cls, n)} for v in out for w in ways]
    return out


def term(n):
    return z3.String(f"part {n}")


AT = z3.Function("item", STR, I, STR)


def show(ip, h):
    """contract of an unknown expression: what it prints"""
    n = h.name
    return Rope([Atom(AT(z3.StringVal(n), h.idx[0]) if h.idx else term(n), what="printed")])


def attributes(cls, parts):
    a = {n: None for n, _ in hints(cls)} if cls.pattern is not None and hasattr(cls, "pattern") else {}
    for n, p in parts.items():
        if p is None:
            a[n] = None
        elif p.kind == "text":
            a[n] = Rope([Atom(term(n), what="part")])
        elif p.kind == "expr":
            a[n] = Family(n, "expr", cls=base.BaseNode)()
        elif cls is nodes.Func:
            a[n] = Opaque("return types")
        else:
            f = Family(n, "expr", cls=base.BaseNode)
            a[p.attr] = SList(n, z3.Int(f"n_{n}"), lambda i, f=f: f(i))
            a[n] = Rope([Atom(term(n), what="part")])
    return a


N_CHILD = z3.Int("n_children")
BODY, KEPT = z3.Function("printed child", I, STR), z3.Function("line of the child", I, STR)
INDENT, BARE = z3.Function("indented", STR, STR), z3.Function("without line breaks at the end", STR, STR)


def indent(ip, s):
    return Rope([Atom(INDENT(zs(ip.resolve(s))), what="indented")])


def rstrip(ip, o, *a):
    if isinstance(o, Rope) and list(a) == ["\n"]:
        return Rope([Atom(BARE(zs(o)), what="bare")])
    return NotImplemented


def child(ip, h):
    return Rope([Atom(BODY(h.idx[0]), what="child")])


ITEMS = {"names": fullmatch("[a-z_][a-zA-Z0-9_]*"), "args": EXPR, "return_type": TYPE, "piece": alt(EPS, TYPE)}


class Types:
    """the text of the return types of a function, by its parts between commas"""

    pyver_symbolic = True

    def sym_getattr(self, ip, name):
        if name == "split":
            return self
        raise Unsupported(f"{name} of the return types")

    def sym_call(self, ip, args, kwargs):
        if list(args) != [","] or kwargs:
            raise Unsupported("split")
        return items("piece", z3.Int("n_pieces"))


def items(name, n):
    return SList(name, n, lambda i: Rope([Atom(AT(z3.StringVal(name), i), what="item")]))


def without_empty(ip, f, xs):
    """contract of filter(None, the pieces of the text of return types)"""
    xs = ip.resolve(xs)
    if f is None and isinstance(xs, SList) and xs.name == "piece":
        return items("return_type", z3.Int("n_return_type"))
    return NotImplemented


def printed(cls, parts):
    """build: the text of a node with these parts and unknown children"""
    def build(ip):
        ip.contracts.update({"indent": indent, "str.rstrip": rstrip, ("expr", "tealish"): show, ("stmt", "tealish"): child,
                             "filter": without_empty})
        a = attributes(cls, parts)
        if cls is nodes.Func:
            a["return_type"] = Types()
        c = Family("child", "stmt", cls=base.BaseNode, fields={"line": lambda i: Rope([Atom(KEPT(i), what="line")])})
        a["child_nodes"] = SList("children", N_CHILD, lambda i: c(i))
        for n, p in parts.items():
            if p is not None and p.kind == "list":
                ip.ctx.assume(z3.Int(f"n_{n}") >= (0 if p.language.nullable else 1))
            elif p is not None:
                t = term(n)
                for s in ("not ", "else"):  # what the code may ask for: decided by the language
                    l = starts(s)
                    if regex.included(p.language, l) is None:
                        ip.ctx.assume(z3.PrefixOf(z3.StringVal(s), t))
                    elif regex.outcomes([both(p.language, l)]).get((True,)) is None:
                        ip.ctx.assume(z3.Not(z3.PrefixOf(z3.StringVal(s), t)))
                    l = regex.text(s)
                    if regex.included(p.language, l) is None:
                        ip.ctx.assume(t == z3.StringVal(s))
                    elif regex.outcomes([both(p.language, l)]).get((True,)) is None:
                        ip.ctx.assume(t != z3.StringVal(s))
                if not p.language.nullable:
                    ip.ctx.assume(z3.Length(t) > 0)
        ip.node = mk(cls, **a)
        return ip.resolve(ip.call(ip.get_attr(ip.node, "tealish"), [], {}))
    return build


# -- templates -----------------------------------------------------------------------------
def pieces(v):
    return [v] if isinstance(v, str) else list(v.parts) if isinstance(v, Rope) else _no(v)


def _no(v):
    raise Unsupported(f"the printed text is {v!r}")


def first_line(ps):
    """(the parts of the first line, those after its line break or None)"""
    for i, p in enumerate(ps):
        if isinstance(p, str) and "\n" in p:
            a, b = p.split("\n", 1)
            return ps[:i] + ([a] if a else []), ([b] if b else []) + ps[i + 1:]
    return ps, None


def list_name(p, ctx):
    """the list of whose items a Many is made, if it is of what they print and nothing else"""
    r = p.rope.parts if isinstance(p.rope, Rope) else (p.rope,)
    if len(r) == 1 and isinstance(r[0], Atom):
        t = z3.simplify(r[0].term)
        if t.decl().name() == "item" and t.arg(1).eq(p.k):
            return texts.value(t.arg(0))
        if t.decl().name() == "item" and "filter" not in str(t) and ctx.feasible(z3.And(t.arg(1) != p.k, p.k >= 0, p.k < p.n)):
            raise Refuted(f"the items of a list are printed in another order, or some of them only: {p!r}")
    return None


def template(ps, parts, marks, path):
    """the language of the first line, with marks where the parts are"""
    out, used = [], []
    for i, p in enumerate(ps):
        if isinstance(p, str):
            out.append(("text", p))
        elif isinstance(p, Atom) and p.term.decl().name().startswith("part "):
            n = p.term.decl().name()[5:]
            out.append(("part", n, parts[n].language if parts.get(n) else _no(p)))
            used.append(n)
        elif isinstance(p, Many):
            n = list_name(p, path.ctx)
            if n not in ITEMS:
                raise Unsupported(f"the items of a list are printed as {p!r}")
            if p.glue.strip(" ") != ",":
                raise Refuted(f"the items of a list are put together with {p.glue!r}")
            if not path.ctx.valid(p.n == z3.Int("n_pieces" if n == "piece" else f"n_{n}")):
                raise Refuted(f"some items of a list are not printed: {p!r}")
            item = cat(ITEMS[n], star(cat(regex.text(p.glue), ITEMS[n])))
            n = "return_type" if n == "piece" else n
            out.append(("part", n, item))
            used.append(n)
        else:
            raise Unsupported(f"{p!r} in a printed line")
    if sorted(used) != sorted(set(used)):
        raise Refuted(f"a part is printed twice: {used}")
    return out, used


def language(ts, marks=None):
    out = EPS
    for t in reversed(ts):
        if t[0] == "text":
            out = cat(regex.text(t[1]), out)
        elif t[0] == "open":
            out = cat(chars([(t[1], t[1])]), out)
        elif marks is None or t[1] not in marks:
            out = cat(t[2], out)
        else:
            out = cat(marked(marks[t[1]], t[2]), out)
    return out


def with_blanks(cls, ts):
    """blanks beside a part that is parsed, and those in front of the return types, are of its group"""
    out = list(ts)
    for i, t in enumerate(out):
        if t[0] != "part":
            continue
        if i and out[i - 1][0] == "text" and (cls in (nodes.Elif, nodes.IfStatement, nodes.WhileStatement) and out[i - 1][1].endswith("  ") or t[1] == "return_type" and cls is nodes.Func):
            b = out[i - 1][1]
            k = 1
            if not b.endswith(" "):
                continue
            out[i - 1] = ("text", b[:-k])
            out[i] = ("part", t[1], cat(regex.text(" "), t[2]))
        if cls is nodes.SwitchOption and t[1] == "expression" and i + 1 < len(out) and out[i + 1][1].startswith(" "):
            out[i] = ("part", t[1], cat(t[2], regex.text(" ")))
            out[i + 1] = ("text", out[i + 1][1][1:])
    return out


ELSEWHERE = {  # read by the construct around them: what the lines it reads otherwise begin with (C12), and how the line begins
    nodes.SwitchOption: ["#", "else:"], nodes.SwitchElse: ["#"], nodes.InnerTxnFieldSetter: ["#"], nodes.StructFieldDefinition: ["#"], nodes.Route: ["#"],
    nodes.Elif: [], nodes.Else: [], nodes.Decorator: ["func "],
}
MUST = {nodes.Elif: starts("elif "), nodes.Else: starts("else:"), nodes.SwitchElse: starts("else:"), nodes.Decorator: starts("@")}
STOPS = {"end": regex.text("end"), "elif ": starts("elif "), "else:": starts("else:")}  # end the statements around


def others(cls):
    """(languages of the lines that are read as another statement, those which are read as this one)"""
    if cls in ELSEWHERE:
        return [starts(x) for x in ELSEWHERE[cls]] + [regex.text("end")], MUST.get(cls, ALL)
    out = list(STOPS.values())
    for table in (BEGINS, IS_LINE):
        for c, l in table:
            l = starts(l) if isinstance(l, str) else l
            if c is cls:
                return out, l
            out.append(l)
    raise Unsupported(f"how a {cls.__name__} is read")


# lines whose first part is printed as it is in the source, with the character behind it: the statements that a first word
# and what is behind it decide are not those that the line of the source is, so they are not those that it is printed as
FIRST_WORD = {nodes.VarDeclaration, nodes.Assignment, nodes.FunctionCallStatement, nodes.StructOrBoxAssignment}


def word_decides(l):
    """the languages that the first word of a line and the character behind it decide"""
    ws = [x for x in list(STOPS) + [x for _, x in BEGINS] if isinstance(x, str)]
    return ws


def verbatim(cls):
    return all(w is not N and (p := w(cls, n)).kind == "text" for n, ws in PARTS[cls].items() for w in ws)


class Kept(regex.Pattern):
    """the texts of the pattern with marks around its groups"""

    def __init__(self, pattern):
        super().__init__(pattern)
        idx = re.compile(pattern).groupindex
        m = regex.marks(idx)
        self.by_no = {i: m[n] for n, i in idx.items()}

    def seq(self, items, rest, before, anchors=True):
        if items and items[0][0] is self.K.SUBPATTERN and items[0][1][0] in self.by_no:
            a, b = self.by_no[items[0][1][0]]
            inner = super().seq(list(items[0][1][3]), EPS, None, False) if not any(x[0] is self.K.AT for x in items[0][1][3]) else ALL
            return cat(chars([(a, a)]), cat(inner, cat(chars([(b, b)]), self.seq(items[1:], rest, None, anchors))))
        return super().seq(items, rest, before, anchors)


def in_marked(a, b):
    """None, or a text of a (with marks) that is not of b"""
    return regex.outcomes([a, b], star(chars([(0, regex.MARKS + 99)]))).get((True, False))


def same_line(cls):
    def f(o):
        count = 0
        pattern = getattr(cls, "pattern", None)
        for parts in variants(cls):
            rs = runs(o, printed(cls, parts))
            for r in rs:
                count += 1
                if r.kind != "ok":
                    raise Refuted(f"printing fails: {r.value!r}")
                if cls is nodes.Blank:
                    if r.value != "\n":
                        raise Refuted(f"an empty line is printed as {r.value!r}")
                    continue
                ps, rest = first_line(pieces(r.value))
                names = re.compile(pattern).groupindex
                marks = regex.marks(names)
                layout(cls, rest, r)
                ts, used = template(ps, parts, marks, r)
                ts = with_blanks(cls, ts)
                for n, p in parts.items():
                    if n in used or p is None:
                        continue
                    if p.kind == "list" and not r.ctx.feasible(z3.Int(f"n_{n}") > 0):
                        # nothing in the list: an empty part is there if the pattern has room for it
                        k = next((i for i, t in enumerate(ts) if t == ("text", "return")), None)
                        if cls is nodes.Return and k is not None:
                            ts = ts + [("part", n, EPS)]
                        elif cls is nodes.Func:
                            last = ts[-1][1]
                            if not last.endswith(":"):
                                raise Refuted(f"printed as {ts}")
                            ts = ts[:-1] + [("text", last[:-1]), ("part", n, EPS), ("text", ":")]
                        continue
                    if p.kind == "text" and not r.ctx.feasible(z3.Length(term(n)) > 0) and cls is nodes.Assert and n == "message":
                        continue  # an empty message is no message
                    if n == "modifier":
                        k = next((i for i, t in enumerate(ts) if t[0] == "text" and t[1].endswith(" not ")), None)
                        if k is not None:
                            ts[k:k + 1] = [("text", ts[k][1][:-4]), ("part", n, NOT), ("text", " ")]
                            continue
                    raise Refuted(f"{n} is not printed: {r.value!r}")
                plain, m = language(ts), language(ts, marks)
                bad, own = others(cls)
                inside = ALL
                if cls in FIRST_WORD:
                    inside = both(*[neg(starts(w)) for _, w in BEGINS], *[neg(l) for c, l in IS_LINE if c in (nodes.Return, nodes.Break, nodes.Exit, nodes.Assert, nodes.Const, nodes.Jump)],
                                  *[neg(l) for l in STOPS.values()])
                if verbatim(cls):
                    t = in_marked(Kept(pattern).fullmatch(), language([(k[0], k[1], ALL) if k[0] == "part" else k for k in ts], marks))
                    if t is not None:
                        raise Refuted(f"a line of the source is printed otherwise: {t!r}")
                    inside = both(own, *[neg(l) for l in bad], HERE, CODE if cls is not nodes.Comment else ALL)
                for what, l in [("with a line break or blanks around it", HERE), ("with a part that is a comment", CODE), (f"and not read as {cls.__name__}", own)]:
                    if l is CODE and cls in (nodes.Comment, nodes.TealVersion):
                        continue
                    t = regex.included(plain, l, inside)
                    if t is not None:
                        raise Refuted(f"a {cls.__name__} is printed {what}: {t!r}")
                for l in bad:
                    t = regex.outcomes([both(plain, l)], inside).get((True,))
                    if t is not None:
                        raise Refuted(f"a {cls.__name__} is printed as a line that is read otherwise: {t!r}")
                t = regex.groups(m, pattern, inside)
                if t is not None:
                    raise Refuted(f"the line {t!r} of a {cls.__name__} is read with other parts")
        return count
    return f


# -- the lines below the first -------------------------------------------------------------
COMPOUND = {nodes.Block, nodes.Switch, nodes.Router, nodes.Teal, nodes.InnerTxn, nodes.InnerGroup, nodes.IfStatement, nodes.WhileStatement, nodes.ForStatement,
            nodes.For_Statement, nodes.Func, nodes.StructDefinition, nodes.Elif, nodes.Else}
OPEN_ENDED = {nodes.Elif, nodes.Else}  # what ends them is printed behind them
NO_BREAK = {nodes.InnerTxnFieldSetter, nodes.StructFieldDefinition}  # the statement around them puts the line break


def item_of(m):
    """what is printed for child k: (function of k, is its line break taken off, what is put behind it)"""
    r = list(m.rope.parts) if isinstance(m.rope, Rope) else [m.rope]
    if not r or not isinstance(r[0], Atom) or len(r) > 2 or len(r) == 2 and not isinstance(r[1], str):
        raise Unsupported(f"the children are printed as {m!r}")
    t, bare = z3.simplify(r[0].term), False
    while t.decl().name() in (INDENT.name(), BARE.name()):
        bare = bare or t.decl().name() == BARE.name()
        t = t.arg(0)
    if t.decl().name() not in (BODY.name(), KEPT.name()):
        raise Unsupported(f"the children are printed as {m!r}")
    if not z3.simplify(t.arg(0)).eq(z3.simplify(m.k)):
        raise Refuted(f"another child is printed: {t}")
    return t.decl().name(), bare, r[1] if len(r) == 2 else ""


def children(cls, m):
    if not isinstance(m, Many) or m.glue or m.alts:
        raise Unsupported(f"the children are printed as {m!r}")
    if not z3.simplify(m.n).eq(z3.simplify(N_CHILD)):
        raise Refuted(f"{m.n} children are printed")
    f, bare, after = item_of(m)
    if cls is nodes.Teal:
        if f != KEPT.name() or after != "\n" or bare:
            raise Refuted(f"a line of inline TEAL is printed as {m!r}")
    elif f != BODY.name():
        raise Refuted(f"for a child, {f} is printed")
    elif after not in ("", "\n") or (after == "\n") != bare:
        raise Refuted(f"lines are broken or put together: {m!r}")
    elif cls in (nodes.InnerTxn, nodes.StructDefinition) and not bare:
        raise Refuted("the line of a field is not ended")


def layout(cls, rest, r):
    """the text behind the first line: the children in order, each with its lines, and the end"""
    if cls in NO_BREAK:
        if rest is not None:
            raise Refuted(f"behind the line of a field: {rest}")
        return
    if rest is None:
        raise Refuted("the line is not ended")
    if cls not in COMPOUND:
        if rest:
            raise Refuted(f"behind the line: {rest}")
        return
    if not r.ctx.feasible(N_CHILD > 0):
        rest = [None] + rest
    elif not rest or not isinstance(rest[0], Many):
        raise Refuted(f"the children are not printed: {rest}")
    else:
        children(cls, rest[0])
    if rest[1:] != ([] if cls in OPEN_ENDED else ["end\n"]):
        raise Refuted(f"printed behind the children of a {cls.__name__}: {rest[1:]}")


def without_line(cls):
    """IfThen, Program: the children, and nothing else"""
    def f(o):
        rs = runs(o, printed(cls, {}))
        for r in rs:
            if r.kind != "ok":
                raise Refuted(f"printing fails: {r.value!r}")
            ps = pieces(r.value)
            if len(ps) != 1:
                raise Refuted(f"printed as {ps}")
            children(cls, ps[0])
        return len(rs)
    return f


def decorated(o):
    """the decorators in order, and the function"""
    def build(ip):
        ip.contracts.update({("stmt", "tealish"): child, ("func", "tealish"): lambda ip, h: Rope([Atom(z3.String("printed function"))])})
        c = Family("decorator", "stmt", cls=base.BaseNode)
        n = mk(nodes.DecoratedFunc, decorators=SList("decorators", N_CHILD, lambda i: c(i)), func=Family("func", "func", cls=base.BaseNode)())
        return ip.resolve(ip.call(ip.get_attr(n, "tealish"), [], {}))
    rs = runs(o, build)
    for r in rs:
        if r.kind != "ok":
            raise Refuted(f"printing fails: {r.value!r}")
        ps = pieces(r.value)
        if not ps or not isinstance(ps[-1], Atom) or str(ps[-1].term) != "printed function":
            raise Refuted(f"printed as {ps}")
        if all(isinstance(p, Atom) for p in ps) and not r.ctx.feasible(N_CHILD > len(ps) - 1) and len(ps) == 1:
            continue  # no decorators
        if len(ps) != 2 or isinstance(ps[0], Atom) and r.ctx.feasible(N_CHILD > 1):
            raise Refuted(f"printed as {ps}")
        children(nodes.DecoratedFunc, ps[0])
    return len(rs)


ROWS = z3.Function("row", I, STR)


def indented(o):
    """indent: as many lines, each of them the same up to blanks in front of it"""
    n = z3.Int("n_rows")

    def build(ip):
        def split(ip, s, *a):
            if list(a) != ["\n"]:
                raise Unsupported("split")
            return SList("rows", n, lambda i: Rope([Atom(ROWS(i), what="row")]))
        ip.contracts.update({"str.split": split, "str.strip": lambda ip, s, *a: Rope([Atom(BARE(zs(s)), what="stripped")])})
        return ip.resolve(ip.call(nodes.indent, [Rope([Atom(z3.String("s"), what="text")])], {}))
    rs = runs(o, build, base=[n >= 1])
    for r in rs:
        if r.kind != "ok":
            raise Refuted(f"fails: {r.value!r}")
        ps = pieces(r.value)
        if len(ps) != 1 or not isinstance(ps[0], Many):
            raise Unsupported(f"{r.value!r}")
        m = ps[0]
        if m.glue != "\n" or not z3.simplify(m.n).eq(n):
            raise Refuted(f"the lines are put together as {m!r}")
        for way in ([m.rope] if not m.alts else [a[-1] for a in m.alts]):
            q = list(way.parts) if isinstance(way, Rope) else [way]
            if isinstance(q[0], str) and not q[0].strip(" \t"):
                q = q[1:]
            if len(q) != 1 or not isinstance(q[0], Atom) or not z3.simplify(q[0].term).eq(ROWS(m.k)):
                raise Refuted(f"a line is printed as {way!r}")
    return len(rs)


OBLIGATIONS = [(f"printed and read again: {c.__name__}", same_line(c)) for c in PARTS]
OBLIGATIONS += [(f"printed: {c.__name__}", without_line(c)) for c in (nodes.IfThen, nodes.Program)]
OBLIGATIONS += [("printed: DecoratedFunc", decorated), ("indented lines", indented)]
