"""C12, second part: which statement a line begins, what a line leaves in its node, and the compiler around it."""
import typing

import z3

from . import lines, regex, texts
from .domain import Family, Opaque, Refuted, runs, text
from .lines import LINE, START, TOTAL
from .maps import MapV, check
from .interp import fresh
from .oc12 import BODY, COMPOUND, LEAVES, Parsed, at, begin, consume_line, peek, reject
from .values import *  # noqa: F401,F403

import tealish
from tealish import base, nodes, scope as scope_mod
from tealish.errors import CompileError, ParseError

I, B, STR = z3.IntSort(), z3.BoolSort(), z3.StringSort()
HERE = regex.both(regex.LINE, regex.stripped())  # what peek returns (proved below)
ASSUMPTIONS = ["source lines have no line feed in them (source.split('\\n'))"]


# -- which statement a line begins -----------------------------------------------------
BEGINS = [(nodes.Block, "block "), (nodes.Switch, "switch "), (nodes.Func, "func "), (nodes.DecoratedFunc, "@"), (nodes.IfStatement, "if "), (nodes.WhileStatement, "while "),
          (nodes.For_Statement, "for _ "), (nodes.ForStatement, "for "), (nodes.Teal, "teal:"), (nodes.InnerGroup, "inner_group:"), (nodes.InnerTxn, "inner_txn:"),
          (nodes.StructDefinition, "struct "), (nodes.Router, "router:")]
NAME, WORD = "[a-z][a-zA-Z_0-9]*", "[a-zA-Z_0-9]+"
IS_LINE = [(nodes.TealVersion, regex.starts("#pragma")), (nodes.Comment, regex.starts("#")), (nodes.Blank, regex.EPS), (nodes.Const, regex.starts("const ")), (nodes.Jump, regex.starts("jump ")),
           (nodes.Return, regex.match(r"return\b")), (nodes.Break, regex.match(r"break\b")), (nodes.VarDeclaration, regex.match(rf"[A-Za-z][a-zA-Z_0-9]*(\[[0-9]+\])? {WORD}")),
           (nodes.BoxDeclaration, regex.starts("box<")), (nodes.StructOrBoxAssignment, regex.match(rf"{NAME}\.{NAME} = ")), (nodes.Assignment, regex.match(r"[a-z_][a-zA-Z0-9_,\s]* = ")),
           (nodes.Exit, regex.starts("exit(")), (nodes.Assert, regex.starts("assert(")), (nodes.FunctionCallStatement, regex.match(rf"{WORD}\(.*\)"))]


def first_of(table, t):
    """[(cls, z3: it is the first of the table whose language t is of)], z3: of none"""
    out, no = [], []
    for cls, l in table:
        l = regex.starts(l) if isinstance(l, str) else l
        c = texts.within(l, t)
        out.append((cls, z3.And(c, *no)))
        no.append(z3.Not(c))
    return out, z3.And(*no)


def form(cls, t):
    """z3: the text has the form of its statement (else its node rejects it)"""
    return texts.matched(cls.pattern, t)


def same_reading(ip, cls, table, none, t, what, never=()):
    """the text is read as cls, which is what the table says, or neither reading is accepted"""
    want, no = first_of(table, t)
    if none is not None:
        want.append((none, no))
    ok = [c for w, c in want if w is cls]
    rejected = [z3.Implies(c, z3.Not(form(w, t)) if w is not nodes.LineStatement else z3.BoolVal(False)) for w, c in want if w is not cls and w not in never]
    if cls is not None:
        rejected.append(z3.Not(form(cls, t)) if cls is not nodes.LineStatement else z3.BoolVal(False))
    texts.check(ip, z3.Or(*ok, z3.And(*rejected)), what, HERE)


def begins(o):
    """Statement.consume: the construct its first word says, else a line; its consume is called for this line and parent"""
    def build(ip):
        got = ip.got = []

        def sub(cls):
            def f(ip, self, compiler, parent):
                got.append((cls, compiler, parent, at(ip, compiler)))
                return ip.born(Parsed(at(ip, compiler), cls))
            return f
        comp, parent = begin(ip)
        del ip.contracts["Statement.consume"]
        ip.contracts.update({f"{c.__name__}.consume": sub(c) for c in COMPOUND + [nodes.LineStatement]}, **texts.CONTRACTS)
        v = ip.call(ip.get_attr(nodes.Statement, "consume"), [comp, parent], {})
        if not texts.possible(ip, HERE):
            return None
        if len(got) != 1:
            raise Refuted(f"{len(got)} statements are read")
        cls, c, p, where = got[0]
        if c is not comp or p is not parent or not isinstance(v, Parsed) or v.cls is not cls:
            raise Refuted("another statement is returned, or it is read for another parent")
        check(ip, where == START, "lines are left out before a statement")
        same_reading(ip, cls, BEGINS, nodes.LineStatement, LINE(START), f"a line is read as {cls.__name__}")
        return v
    rs = runs(o, build, base=lines.BASE)
    for r in rs:
        if r.kind == "raise" and not (isinstance(r.value, ParseError) and r.ip.reason == "end of source"):
            if texts.possible(r.ip, HERE):
                raise Refuted(f"a line is rejected before it is read: {r.value!r}")
    if not any(r.kind == "ok" for r in rs):
        raise Refuted("no statement is read")
    return len(rs)


def is_line(o):
    """LineStatement.consume: the statement that the form of the line says; a line of no form is rejected, and a pragma after the first line"""
    def build(ip):
        got = ip.got = []

        def sub(cls):
            def f(ip, self, line, parent=None, compiler=None):
                got.append((cls, self, line, parent, compiler))
            return f
        comp, parent = begin(ip)
        ip.contracts.update({f"{c.__name__}.__init__": sub(c) for c in (nodes.Return, nodes.Break)}, **texts.CONTRACTS)
        ip.contracts["Node.__init__"] = lambda ip, self, *a, **k: sub(ip.pyclass(self))(ip, self, *a, **k)
        v = ip.call(ip.get_attr(nodes.LineStatement, "consume"), [comp, parent], {})
        if not texts.possible(ip, HERE):
            return None
        if len(got) != 1 or got[0][1] is not v:
            raise Refuted("another statement is returned")
        cls, _, line, p, c = got[0]
        if c is not comp or p is not parent:
            raise Refuted("a line is read for another parent")
        check(ip, at(ip, comp) == START + 1, "one line is read")
        check(ip, zs(ip.resolve(line)) == LINE(START), "the text of the statement is another")
        same_reading(ip, cls, IS_LINE, None, LINE(START), f"a line is read as {cls.__name__}")
        if cls is nodes.TealVersion:
            check(ip, START == 0, "a pragma that is not in the first line")
        return v
    rs = runs(o, build, base=lines.BASE)
    for r in rs:
        if r.kind != "raise" or not texts.possible(r.ip, HERE):
            continue
        if not isinstance(r.value, ParseError):
            raise Refuted(f"fails: {r.value!r}")
        if r.ip.reason == "end of source":
            continue
        late = r.ctx.valid(START > 0)
        same_reading(r.ip, None, IS_LINE, None, LINE(START), "a line is rejected", [nodes.TealVersion] if late else [])
    if not any(r.kind == "ok" for r in rs):
        raise Refuted("no line is accepted")
    return len(rs)


OBLIGATIONS = [("which statement a line begins", begins), ("which statement a line is", is_line)]


# -- a line of the source -----------------------------------------------------------------
SRC = z3.Function("source line", I, STR)
STRIP = z3.Function("stripped", STR, STR)
FOUND = z3.Function("first marker outside strings", STR, STR, I)


def strip(ip, t, *a):
    """str.strip of an unknown text: a text without white space around it"""
    if a or isinstance(t, str):
        return NotImplemented
    z = STRIP(zs(t))
    ip.ctx.assume(z3.Length(z) <= z3.Length(zs(t)))
    return Rope([Atom(z, what="stripped")])


def found(ip, line, marker):
    """contract of find_outside_strings (C14): -1, or where it is"""
    z, m = zs(ip.resolve(line)), zs(ip.resolve(marker))
    i = FOUND(z, m)
    ip.ctx.assume(z3.And(i >= -1, i < z3.Length(z) + (0 if marker else 1)))
    return SInt(i)


def code_of(p):
    """the text of the line at p: without indentation, and without a comment behind it"""
    s = STRIP(SRC(p))
    i = FOUND(s, z3.StringVal("#"))
    return z3.If(z3.PrefixOf(z3.StringVal("#"), s), s, z3.If(i >= 0, STRIP(z3.SubString(s, 0, i)), s))


def reading(method, moves):
    def f(o):
        def build(ip):
            comp = lines.Source().make(source_lines=SList("source lines", TOTAL, lambda i: Rope([Atom(SRC(i), what="source line")])))
            ip.comp = comp
            return ip.call(ip.get_attr(comp, method), [], {})
        rs = runs(o, build, {"str.strip": strip, "find_outside_strings": found}, base=lines.BASE)
        for r in rs:
            if r.kind == "ok":
                check(r.ip, zs(r.ip.resolve(r.value)) == code_of(START), "another text")
                check(r.ip, z3.And(at(r.ip, r.ip.comp) == START + (1 if moves else 0), START < TOTAL), "another line")
            elif isinstance(r.value, ParseError):
                check(r.ip, START == TOTAL, "an end that is not the end")
            else:
                raise Refuted(f"fails: {r.value!r}")
        if len(rs) < 2 or not any(r.kind == "raise" for r in rs):
            raise Refuted("the end of the source is not noticed")
        return len(rs)
    return f


OBLIGATIONS += [("peek", reading("peek", False)), ("consume_line", reading("consume_line", True))]


# -- the node of a line ----------------------------------------------------------------------
def node_classes():
    out, todo = [], [nodes.Node]
    while todo:
        c = todo.pop()
        if c not in out:
            out.append(c)
            todo += c.__subclasses__()
    return sorted((c for c in out if c.__module__ == nodes.__name__), key=lambda c: c.__name__)


ABSTRACT = {nodes.Node, nodes.Statement, nodes.InlineStatement, nodes.LineStatement, nodes.Expression, nodes.Literal, nodes.GenericExpression}
LINE_CLASSES = [c for c in node_classes() if c not in ABSTRACT]
ACCEPTS = z3.Function("is parsed", STR, B)


def hints(cls):
    import re

    groups = re.compile(cls.pattern).groupindex
    return [(n, h) for n, h in typing.get_type_hints(cls).items() if n in groups]


def in_node(cls):
    """Node.__init__ for a line of one class: rejected with a ParseError, or every named part of the line is in its attribute,
    parsed if it is an expression; nodes are those, in order; no children"""
    def f(o):
        m = texts.matched(cls.pattern, LINE(START))

        def build(ip):
            comp, parent = begin(ip)
            ip.contracts.update(texts.CONTRACTS)
            del ip.contracts["Node.__init__"]
            ip.parsed = []

            def parse(ip, self, line, parent=None, compiler=None):
                ip.parsed.append((ip.resolve(line), parent, compiler))
                if not ip.ctx.branch(ACCEPTS(zs(ip.resolve(line)))):
                    if ip.ctx.branch(z3.Bool("rejected properly")):
                        raise PyRaise(ParseError("?"))
                    raise PyRaise(ValueError("?"))
                v = Family(f"part {len(ip.parsed)}", "expr", cls=self if isinstance(self, type) else None)(START)
                ip.parts.append(v)
                return v
            ip.parts = []
            for c in node_classes():
                ip.contracts[f"{c.__name__}.parse"] = parse
            n = MapV("line_nodes", lambda k: z3.Function("a node has line", I, B)(k), lambda k: Parsed(k), sort=I)
            comp.attrs["line_nodes"] = n
            ip.node, ip.comp, ip.par = object.__new__(cls), comp, parent
            ip.born(ip.node)
            ip.call(ip.get_attr(nodes.Node, "__init__"), [ip.node, lines.line(START), parent, comp], {})
            if not texts.possible(ip, HERE):
                return None
            texts.check(ip, m, "a line that does not have the form is accepted", HERE)
            node = ip.node
            get = lambda a: ip.resolve(ip.get_attr(node, a))  # noqa: E731
            match = texts.Match(cls.pattern, LINE(START), texts.optional_groups(cls.pattern))
            want, k = [], 0
            for name, hint in hints(cls):
                g, v = ip.resolve(match.group(name)), get(name)
                if g is not None and hasattr(hint, "parse"):
                    t, p, c = ip.parsed[k]
                    check(ip, zs(t) == zs(g), f"another text is parsed for {name}")
                    if p is not node or c is not ip.comp:
                        raise Refuted(f"{name} is parsed for another node")
                    if v is not ip.parts[k]:
                        raise Refuted(f"{name} is {v!r}")
                    want.append(v)
                    k += 1
                elif g is None:
                    if v is not None:
                        raise Refuted(f"{name} is {v!r}")
                else:
                    check(ip, zs(v) == zs(g), f"the text of {name}")
            if k != len(ip.parsed):
                raise Refuted("more is parsed")
            got = get("nodes")
            if not isinstance(got, list) or len(got) != len(want) or any(x is not y for x, y in zip(got, want)):
                raise Refuted(f"the nodes are {got!r}")
            if get("child_nodes") != [] or get("child_nodes") is got:
                raise Refuted("children of a new node")
            if get("parent") is not ip.par or get("compiler") is not ip.comp or get("current_scope") is not ip.par.attrs["current_scope"]:
                raise Refuted("the parent, the compiler or the scope of a node")
            check(ip, zs(get("_line")) == LINE(START), "the line of a node")
            check(ip, zi(get("_line_no")) == START, "the line number of a node")
            return ip.node
        rs = runs(o, build, base=lines.BASE + [START < TOTAL])
        for r in rs:
            if r.kind == "raise":
                ip = r.ip
                if not isinstance(r.value, ParseError):
                    if texts.possible(ip, HERE):
                        raise Refuted(f"fails: {r.value!r}")
                elif len(ip.parts) == len(ip.parsed):
                    texts.check(ip, z3.Not(m), "a line of the right form is rejected", HERE)
        if not any(r.kind == "ok" and r.value is not None for r in rs):
            raise Refuted("no line is accepted")
        return len(rs)
    return f


for _c in LINE_CLASSES:
    OBLIGATIONS.append((f"the node of a line: {_c.__name__}", in_node(_c)))


def whole(cls):
    """a line of the form of the class is of it as a whole, and all of it but fixed words and white space is in the named parts, which the node keeps"""
    def f(o):
        p = cls.pattern
        if cls is nodes.StructOrBoxAssignment and ").(?P" in p:  # any character between the names, which is a dot in the lines that are read as this
            if regex.outcomes([regex.fullmatch(p.replace(").(?P", ")[^.](?P", 1))], dict(IS_LINE)[cls]).get((True,)) is None:
                p = p.replace(").(?P", r")\.(?P", 1)
        t = regex.included(regex.match(p), regex.fullmatch(p), HERE)
        if t is not None:
            raise Refuted(f"the end of the line is ignored: {t!r}")
        ts = regex.texts_of(regex.Rest(p).fullmatch())
        if ts is None:
            raise Refuted(f"a part of the line is ignored: {p}")
        kept = {n for n, _ in hints(cls)}
        import re
        for n in re.compile(p).groupindex:
            if n not in kept:
                raise Refuted(f"the part {n} of the line is not kept")
        return len(ts)
    return f


for _c in LINE_CLASSES:
    if _c not in (nodes.DecoratedFunc, nodes.IfThen, nodes.Program, nodes.Blank, nodes.TealLine):  # have no line of their own, or keep it as it is
        OBLIGATIONS.append((f"nothing of a line is ignored: {_c.__name__}", whole(_c)))
