"""C12: every source text is decided. Obligations over the real parser.

The source is a list of unknown lines (lines.py).  A nested statement is taken by contract: it is
rejected, or it starts at the line where its parser was called and ends before NEXT(line), later.
Each consume is evaluated with an invariant: after k rounds the children are those that start at
AT(0), ..., AT(k-1), nothing between them is left out, and none of those lines ends the construct.
So no line is dropped, a construct ends at its own terminator, an unfinished one is an error at
the end of the source, and every round consumes lines (the variant: lines that are left).
"""
import z3

from . import lines
from .domain import CONTRACTS, Event, Family, Opaque, Refuted, runs, text
from .lines import LINE, START, TOTAL
from .maps import Inv, check
from .interp import SymMethod, fresh
from .values import *  # noqa: F401,F403

import tealish
from tealish import nodes, scope as scope_mod
from tealish.errors import CompileError, ParseError

I, B, STR = z3.IntSort(), z3.BoolSort(), z3.StringSort()
ASSUMPTIONS = [
    "a nested statement ends on a later line than it starts (induction on the number of lines that are left; every parser is proved to do so)",
    "Python's re and textX decide whether a line has the form of its statement",
]

# -- statements by contract ------------------------------------------------------
LEAVES = [nodes.TealVersion, nodes.Comment, nodes.Blank, nodes.Const, nodes.Jump, nodes.Return, nodes.Break, nodes.VarDeclaration, nodes.BoxDeclaration,
          nodes.StructOrBoxAssignment, nodes.Assignment, nodes.Exit, nodes.Assert, nodes.FunctionCallStatement]
COMPOUND = [nodes.Block, nodes.Switch, nodes.Func, nodes.DecoratedFunc, nodes.IfStatement, nodes.WhileStatement, nodes.For_Statement, nodes.ForStatement,
            nodes.Teal, nodes.InnerGroup, nodes.InnerTxn, nodes.StructDefinition, nodes.Router]
CLASSES = COMPOUND + LEAVES
NEXT = z3.Function("line after the statement at", I, I)
OK = z3.Function("is a statement", I, B)
KIND = z3.Function("class of the statement at", I, I)


def isa(p, *cls):
    ks = [KIND(p) == i for i, c in enumerate(CLASSES) if issubclass(c, cls)]
    return z3.Or(*ks) if ks else z3.BoolVal(False)


def facts(p):
    return z3.And(KIND(p) >= 0, KIND(p) < len(CLASSES), NEXT(p) > p, NEXT(p) <= TOTAL)


class SymClass:
    pyver_symbolic = True

    def __init__(self, p):
        self.p = p

    def sym_eq(self, ip, o):
        if isinstance(o, SymClass):
            return mkbool(KIND(self.p) == KIND(o.p))
        return mkbool(KIND(self.p) == CLASSES.index(o)) if o in CLASSES else False


class Parsed:
    """the statement at line p"""

    pyver_symbolic = True

    def __init__(self, p, cls=None):
        self.p, self.cls, self.attrs = z3.simplify(p), cls, {}

    def __repr__(self):
        return f"<{self.cls.__name__ if self.cls else 'statement'} at {self.p}>"

    def subst(self, k, t):
        return Parsed(z3.substitute(self.p, (k, t)), self.cls)

    def sym_isinstance(self, ip, cls):
        if self.cls:
            return issubclass(self.cls, cls)
        if all(issubclass(c, cls) for c in CLASSES):
            return True
        return mkbool(isa(self.p, cls))

    def sym_type(self, ip):
        return self.cls or SymClass(self.p)

    def sym_truth(self, ip):
        return True

    def sym_str(self, ip):
        return Rope([Atom(z3.String("name of a class"), safe=True)])

    sym_repr = sym_str

    def sym_eq(self, ip, o):
        return mkbool(self.p == o.p) if isinstance(o, Parsed) else False

    def sym_getattr(self, ip, name):
        if name in self.attrs:
            return self.attrs[name]
        if name in ("line_no", "_line_no"):
            return SInt(z3.Function("line number of", I, I)(self.p))
        if name == "current_scope":
            return Opaque("scope of a child", attrs={"name": text("child scope")}, cls=scope_mod.Scope)
        if name in ("group", "group_index"):
            return Opaque(name)
        if name == "name" and self.cls is nodes.Route:
            return Rope([Atom(route_name(self.p), safe=True)])
        raise Unsupported(f"{name} of a statement")

    def sym_setattr(self, ip, name, value):
        d = self.attrs
        ip.journal.append(("dict", d, name, d.get(name, MISSING)))
        ip.note_write(d, name)
        ip.born(self)
        ip.fresh_objects[id(d)] = d
        d[name] = value


from .interp import _MISSING as MISSING  # noqa: E402


def at(ip, comp):
    return zi(ip.get_attr(comp, "line_no"))


def reject(ip, why):
    ip.reason = why
    raise PyRaise(ParseError("?"))


def statement(cls=None):
    """contract of Statement.consume, or of the consume of one kind"""
    def f(ip, self, compiler, parent):
        p = at(ip, compiler)
        if not ip.ctx.branch(p < TOTAL):
            reject(ip, "end of source")
        ip.calls.append((p, parent))
        if not ip.ctx.branch(OK(p)):
            reject(ip, "nested")
        ip.ctx.assume(facts(p))
        if cls is not None:
            ip.ctx.assume(isa(p, cls))
        ip.set_attr(compiler, "line_no", mkint(NEXT(p)))
        return ip.born(Parsed(p, cls))
    return f


def peek(ip, self):
    p = at(ip, self)
    if not ip.ctx.branch(p < TOTAL):
        reject(ip, "end of source")
    return Rope([Atom(LINE(z3.simplify(p)), what="source line")])


def consume_line(ip, self):
    t = peek(ip, self)
    ip.set_attr(self, "line_no", mkint(at(ip, self) + 1))
    return t


def source_line(t):
    """the position of the line a text is"""
    if isinstance(t, Rope) and len(t.parts) == 1 and isinstance(t.parts[0], Atom) and t.parts[0].term.decl().eq(LINE):
        return t.parts[0].term.arg(0)
    return None


MATCHES = {}


def matches(cls, p):
    f = MATCHES.setdefault(cls, z3.Function(f"is a line of {cls.__name__}", STR, B))
    return f(LINE(p))


def node_init(ip, self, line, parent=None, compiler=None):
    """contract of Node.__init__ (proved below): rejected, or the parts of the line, parsed, and no children"""
    cls = ip.pyclass(self)
    line = ip.resolve(line)
    p = source_line(line)
    if p is None and line != "":
        raise Unsupported(f"{cls.__name__} of {line!r}")
    if p is not None and not ip.ctx.branch(matches(cls, p)):
        reject(ip, "line")
    import typing

    where = z3.simplify(p) if p is not None else at(ip, compiler)
    ip.made.append((self, cls, where if p is not None else None))
    for k, v in dict(parent=parent, compiler=compiler, _line=line, _line_no=ip.get_attr(compiler, "line_no"), child_nodes=ip.born([]), properties=ip.born({}),
                     current_scope=Opaque("scope", attrs={"name": text("scope")}, cls=scope_mod.Scope)).items():
        ip.set_attr(self, k, v)
    ns = []
    import re

    groups = re.compile(cls.pattern).groupindex
    for name, hint in typing.get_type_hints(cls).items():
        if name in groups:
            if hasattr(hint, "parse"):
                v = Family(f"{cls.__name__} {name}", "expr", cls=hint if hint is not nodes.GenericExpression else None)(where)
                ns.append(v)
            else:
                v = Rope([Atom(z3.Function(f"{name} of {cls.__name__}", STR, STR)(LINE(where)), safe=True)])
            ip.set_attr(self, name, v)
    ip.header = getattr(ip, "header", {})
    ip.header[id(self)] = len(ns)
    ip.set_attr(self, "nodes", ip.born(ns))


def rule(ip, msg=""):
    ip.reason = "rule"


def find_parent(ip, self, cls):
    """contract of find_parent (C12 find_parent)"""
    return Opaque(f"parent {cls.__name__}", cls=cls) if ip.ctx.branch(z3.Bool(f"inside {cls.__name__}")) else None


PARSER = {
    "TealishCompiler.peek": peek, "TealishCompiler.consume_line": consume_line, "Node.__init__": node_init, "Statement.consume": statement(),
    "Node.new_scope": lambda ip, self, *a, **k: ip.effects.append(Event("scope", self)), "BaseNode.find_parent": find_parent,
    "Scope.declare_block": lambda ip, self, name, b: ip.effects.append(Event("declare", b)),
    "Scope.declare_function": lambda ip, self, name, b: ip.effects.append(Event("declare", b)),
}


def begin(ip, **contracts):
    """the compiler at line START of unknown lines, inside some node"""
    ip.contracts = {**ip.contracts, **PARSER, **contracts}
    ip.made, ip.calls, ip.reason = [], [], None
    comp = lines.Source().make(router_count=SInt(z3.Int("router_count")), line_nodes=Opaque("line_nodes"))
    parent = Opaque("parent", attrs={"current_scope": Opaque("scope", attrs={"name": text("scope")}, cls=scope_mod.Scope), "line_no": SInt(z3.Int("parent line"))}, cls=nodes.Program)
    return comp, parent


# -- a construct: header, children, terminator -----------------------------------------
def starts(p, *prefixes):
    return z3.Or(*[z3.PrefixOf(z3.StringVal(x), LINE(p)) for x in prefixes])


def is_end(p):
    return LINE(p) == z3.StringVal("end")


class Body(Inv):
    """k children, from the lines AT(0) on"""

    def __init__(self, cls, step, child, ends, header=1, extra=(), fixed=0):
        """fixed: children before those; step(p): where the next child starts; child(ip, v, p): v is the child at p; ends(p): p is a terminator"""
        self.cls, self.step, self.child, self.ends, self.extra = cls, step, child, ends, extra
        self.AT = z3.Function("start of child", I, I)
        self.GOOD = z3.Function("is an allowed child", I, B)
        self.first, self.fixed = START + header, fixed
        Inv.__init__(self, self.put, self.chk, self.axioms)

    def axioms(self, ip, k):
        A = self.AT
        return [x for e in self.extra for x in e.axioms(self, k)] + [A(0) == self.first, z3.Implies(k >= 1, A(k) == self.step(A(k - 1))), z3.Implies(k >= 1, A(k) > A(k - 1))]

    def node_of(self, ip):
        got = [o for o, c, p in ip.made if c is self.cls]
        if not got:
            raise Unsupported(f"the {self.cls.__name__} is not found")
        return got[0]

    def element(self, ip, k):
        raise NotImplementedError

    def before(self, k):
        j = z3.Int("j!b")
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), self.GOOD(j)), patterns=[self.GOOD(j)])

    def tie(self, ip, j):
        """what GOOD(j) says of child j (a symbol of its own keeps texts out of the quantified facts)"""
        ip.ctx.assume(self.GOOD(j) == z3.And(z3.Not(self.ends(self.AT(j))), self.fine(j)))

    def ghost(self, ip, k):
        Inv.ghost(self, ip, k)
        self.tie(ip, k)
        if not z3.is_int_value(z3.simplify(k)):
            self.tie(ip, z3.simplify(k - 1))

    def fine(self, j):
        """child j satisfies the rules"""
        return z3.And(self.accepted(self.AT(j)), *[z3.Not(e.broken(self, j)) for e in self.extra if hasattr(e, "broken")])

    def accepted(self, p):
        return z3.BoolVal(True)

    def put(self, ip, fr, k):
        n = self.node_of(ip)
        comp = ip.get_attr(n, "compiler")
        ip.set_attr(comp, "line_no", SInt(self.AT(k)))
        ip.ctx.assume(self.AT(k) <= TOTAL)
        ip.ctx.assume(self.before(k))
        kids = lambda: ("many", SList("children", k, lambda i: self.make(self.AT(i))))  # noqa: E731
        cs = ip.resolve(ip.get_attr(n, "child_nodes"))
        before = [("one", x) for x in cs[:self.fixed]] if isinstance(cs, list) else list(cs.segs)[:self.fixed]
        ip.set_attr(n, "child_nodes", SeqV(before + [kids()]))
        ns = ip.resolve(ip.get_attr(n, "nodes"))
        h = ip.header[id(n)] + self.fixed
        ip.set_attr(n, "nodes", SeqV([("one", x) for x in list(ns)[:h]] + [kids()] if isinstance(ns, list) else list(ns.segs)[:h] + [kids()]))
        for c in ("conditional_count", "router_count"):
            ip.set_attr(comp, c, SInt(z3.Function(c + " after", I, I)(k)))
        ip.calls[:] = []
        ip.at_k = k
        for e in self.extra:
            e.put(ip, self, fr, n, k)

    def chk(self, ip, fr, k):
        n = self.node_of(ip)
        comp = ip.get_attr(n, "compiler")
        check(ip, at(ip, comp) == self.AT(k), "lines are left out, or read twice")
        check(ip, at(ip, comp) <= TOTAL, "the parser is past the end")
        for p, parent in ip.calls:
            if parent is not n:
                raise Refuted(f"the parent of a child is {parent!r}")
        j = z3.simplify(k - 1)
        if not (z3.is_int_value(j) and j.as_long() < 0):
            check(ip, z3.Not(self.ends(self.AT(j))), "the end of the construct is taken for a child")
            check(ip, self.fine(j), "a child that the rules do not allow")
        self.children(ip, n, k)
        for e in self.extra:
            e.chk(ip, self, fr, n, k)

    def children(self, ip, n, k, tail=0):
        zero = not ip.ctx.branch(k > 0)
        i = fresh("i")
        if not zero:
            ip.ctx.assume(z3.And(i >= 0, i < k))
            self.tie(ip, i)
        for name, h in (("child_nodes", self.fixed), ("nodes", ip.header[id(n)] + self.fixed)):
            c = ip.resolve(ip.get_attr(n, name))
            ln = ip.length(c)
            check(ip, (ln if z3.is_expr(ln) else zi(ln)) == k + h + tail, f"the number of {name}")
            if not zero and ip.ctx.feasible():
                check(ip, self.fine(i), "a child that the rules do not allow")
                self.child(ip, ip.resolve(ip.index(c, i + h)), self.AT(i))


def stmt_child(cls=None):
    def f(ip, v, p):
        if not isinstance(v, Parsed):
            raise Refuted(f"a child is {v!r}")
        check(ip, v.p == p, "a child from another line")
    return f


class Statements(Body):
    """the children are statements"""

    def __init__(self, cls, ends=is_end, header=1, allowed=None, extra=(), fixed=0):
        Body.__init__(self, cls, NEXT, stmt_child(), ends, header, extra, fixed)
        self.allowed = allowed

    def make(self, p):
        return Parsed(p)

    def accepted(self, p):
        return z3.And(facts(p), self.allowed(p) if self.allowed else z3.BoolVal(True))


class Lines(Body):
    """the children are lines, each of a class that its beginning decides: [(prefix or None, class)]"""

    def __init__(self, cls, classes, header=1, extra=()):
        self.classes = classes
        Body.__init__(self, cls, lambda p: p + 1, self.same, is_end, header, extra)
        self.cache = {}

    def alts(self, p):
        out, no = [], []
        for prefix, c in self.classes:
            here = starts(p, prefix) if prefix else z3.BoolVal(True)
            out.append((z3.And(here, *no), c))
            no.append(z3.Not(here))
        return out

    def make(self, p):
        p = z3.simplify(p)
        alts = [(g, Parsed(p, c)) for g, c in self.alts(p)]
        return OneOf(f"line at {p}", alts) if len(alts) > 1 else alts[0][1]

    def accepted(self, p):
        return z3.And(*[z3.Implies(g, matches(c, p)) for g, c in self.alts(p)])

    def same(self, ip, v, p):
        if isinstance(v, Parsed):
            q, cls = v.p, v.cls
        else:
            got = [(c, q) for o, c, q in ip.made if o is v]
            if not got:
                raise Refuted(f"a child is {v!r}")
            cls, q = got[0]
        check(ip, q == p, "a child from another line")
        check(ip, z3.Or(*[g for g, c in self.alts(p) if c is cls]), f"a line is taken for a {cls.__name__}")


def construct(cls, body, ends_at=is_end, eats=True, contracts=None, reasons=("nested", "line", "end of source"), after=None, call=None, allowed_reject=None, tail=0, prepare=None):
    """consume: the header, the children in order, the terminator; rejected for a reason only"""
    def f(o):
        inv = body()

        def build(ip):
            comp, parent = begin(ip, **(contracts or {}))
            if prepare:
                prepare(ip, comp, parent)
            n = call(ip, comp, parent) if call else ip.call(ip.get_attr(cls, "consume"), [comp, parent], {})
            done = [x for x, c, p in ip.made if x is n]
            if not done or type(n) is not cls:
                raise Refuted(f"consume returns {n!r}")
            header = [p for x, c, p in ip.made if x is n][0]
            if inv.first is not START and header is not None and z3.simplify(inv.first).sexpr() != z3.simplify(START + 0).sexpr():
                check(ip, header == START, "the header is another line")
            if n.parent is not parent:
                raise Refuted("the parent of the node")
            k = ip.length(ip.resolve(n.child_nodes))
            k = z3.simplify((k if z3.is_expr(k) else zi(k)) - inv.fixed - tail)
            inv.ghost(ip, k)
            inv.children(ip, n, k, tail)
            for x in inv.extra:
                x.chk(ip, inv, None, n, k)
            e = inv.AT(k)
            check(ip, ends_at(e), "ends at a line that does not end it")
            if eats is not None:
                check(ip, e < TOTAL, "ends after the last line")
            check(ip, at(ip, comp) == (NEXT(e) if tail else e + 1 if eats else e), "the position afterwards")
            if after:
                after(ip, n, k, inv)
            return n

        rs = runs(o, build, loops={("*", "while"): inv}, base=lines.BASE)
        if not any(r.kind == "ok" for r in rs):
            raise Refuted("none is accepted")
        for r in rs:
            if r.kind != "raise":
                continue
            if not isinstance(r.value, (ParseError, CompileError)):
                raise Refuted(f"fails: {r.value!r}")
            why = getattr(r.ip, "reason", None)
            if why not in reasons and not (allowed_reject and allowed_reject(r, inv)):
                raise Refuted(f"rejected without a reason: {r.value!r}")
        return len(rs)
    return f


DEFINITIONS = (nodes.Block, nodes.Func, nodes.DecoratedFunc)


def no_block(p):
    """definitions are at the end of programs and blocks only: inside another statement execution runs into them"""
    return z3.Not(isa(p, *DEFINITIONS))


def rejects_blocks(r, inv):
    """rejected because a child is a block or a function"""
    p = r.ip.calls[-1][0] if r.ip.calls else None
    return p is not None and r.ctx.valid(isa(p, *DEFINITIONS))


# -- what a construct keeps of its children ----------------------------------------------
class Kept:
    """an attribute that lists the children of one class, in order"""

    def __init__(self, attr, cls, pred):
        self.attr, self.cls, self.pred = attr, cls, pred
        self.CNT, self.POS = z3.Function(f"number of {attr} before", I, I), z3.Function(f"start of element of {attr}", I, I)

    def axioms(self, inv, k):
        here = lambda j: self.pred(inv.AT(j))  # noqa: E731
        return [self.CNT(0) == 0, self.CNT(k) >= 0] + [z3.Implies(j >= 0, z3.And(self.CNT(j + 1) == self.CNT(j) + z3.If(here(j), 1, 0), z3.Implies(here(j), self.POS(self.CNT(j)) == inv.AT(j))))
                                                       for j in (k - 1, k)]

    def put(self, ip, inv, fr, n, k):
        ip.set_attr(n, self.attr, SeqV([("many", SList(self.attr, self.CNT(k), lambda i: Parsed(self.POS(i), self.cls)))]))

    def chk(self, ip, inv, fr, n, k):
        c = ip.resolve(ip.get_attr(n, self.attr))
        ln = ip.length(c)
        check(ip, (ln if z3.is_expr(ln) else zi(ln)) == self.CNT(k), f"the number of {self.attr}")
        if ip.ctx.branch(self.CNT(k) > 0):
            i = fresh("i")
            ip.ctx.assume(z3.And(i >= 0, i < self.CNT(k)))
            v = ip.resolve(ip.index(c, i))
            q = v.p if isinstance(v, Parsed) else [q for o, c, q in ip.made if o is v][0]
            if (v.cls if isinstance(v, Parsed) else ip.pyclass(v)) not in (self.cls, None):
                raise Refuted(f"{v!r} among {self.attr}")
            check(ip, q == self.POS(i), f"an element of {self.attr}")


class OnlyOne:
    """an attribute that holds the one child of a class, or None"""

    def __init__(self, attr, cls, pred):
        self.attr, self.cls, self.pred = attr, cls, pred
        self.HAS, self.WHERE = z3.Function(f"{attr} is given before", I, B), z3.Function(f"start of {attr}", I, I)

    def axioms(self, inv, k):
        here = lambda j: self.pred(inv.AT(j))  # noqa: E731
        return [z3.Not(self.HAS(0))] + [z3.Implies(j >= 0, z3.And(self.HAS(j + 1) == z3.Or(self.HAS(j), here(j)), self.WHERE(j + 1) == z3.If(here(j), inv.AT(j), self.WHERE(j)))) for j in (k - 1, k)]

    def put(self, ip, inv, fr, n, k):
        ip.set_attr(n, self.attr, OneOf(self.attr, [(self.HAS(k), Parsed(self.WHERE(k), self.cls)), (z3.Not(self.HAS(k)), None)]))

    def chk(self, ip, inv, fr, n, k):
        v = ip.resolve(ip.get_attr(n, self.attr))
        check(ip, z3.BoolVal(v is not None) == self.HAS(k), f"{self.attr} is given, but not kept, or kept, but not given")
        if v is not None:
            q = v.p if isinstance(v, Parsed) else [q for o, c, q in ip.made if o is v][0]
            check(ip, q == self.WHERE(k), f"{self.attr} is another")

    def broken(self, inv, k):
        return z3.And(self.HAS(k), self.pred(inv.AT(k)))


BODY = dict(allowed=no_block)
OBLIGATIONS = []
for _c in (nodes.WhileStatement, nodes.ForStatement, nodes.For_Statement):
    OBLIGATIONS.append((f"body of {_c.__name__}", construct(_c, lambda c=_c: Statements(c, **BODY), allowed_reject=rejects_blocks)))
OBLIGATIONS.append(("body of else", construct(nodes.Else, lambda: Statements(nodes.Else, **BODY), eats=False, allowed_reject=rejects_blocks)))
_more = lambda p: z3.Or(is_end(p), starts(p, "elif ", "else:"))  # noqa: E731
OBLIGATIONS.append(("body of elif", construct(nodes.Elif, lambda: Statements(nodes.Elif, ends=_more, **BODY), ends_at=_more, eats=False, allowed_reject=rejects_blocks)))
OBLIGATIONS.append(("body of if", construct(nodes.IfThen, lambda: Statements(nodes.IfThen, ends=_more, header=0, **BODY), ends_at=_more, eats=False, allowed_reject=rejects_blocks)))
OBLIGATIONS.append(("body of an inner group", construct(nodes.InnerGroup, lambda: Statements(nodes.InnerGroup, **BODY), allowed_reject=rejects_blocks)))

_comment = lambda p: starts(p, "#")  # noqa: E731
_else = lambda p: z3.And(z3.Not(starts(p, "#")), starts(p, "else:"))  # noqa: E731
_option = lambda p: z3.Not(starts(p, "#", "else:"))  # noqa: E731


def second_else(r, inv):
    return hasattr(r.ip, "at_k") and r.ctx.valid(inv.extra[1].broken(inv, r.ip.at_k))


OBLIGATIONS.append(("options of a switch", construct(
    nodes.Switch, lambda: Lines(nodes.Switch, [("#", nodes.Comment), ("else:", nodes.SwitchElse), (None, nodes.SwitchOption)],
                                extra=[Kept("options", nodes.SwitchOption, _option), OnlyOne("else_", nodes.SwitchElse, _else)]), allowed_reject=second_else)))
def route_name(p):
    return z3.Function("name of Route", STR, STR)(LINE(p))


def listed_before(r, inv):
    """rejected because the router has the route already"""
    if not hasattr(r.ip, "at_k"):
        return False
    k, kept, i = r.ip.at_k, inv.extra[0], z3.Int("i!l")
    return r.ctx.valid(z3.Exists([i], z3.And(i >= 0, i < kept.CNT(k), route_name(kept.POS(i)) == route_name(inv.AT(k)))))


OBLIGATIONS.append(("routes of a router", construct(
    nodes.Router, lambda: Lines(nodes.Router, [("#", nodes.Comment), (None, nodes.Route)], extra=[Kept("routes", nodes.Route, lambda p: z3.Not(_comment(p)))]), allowed_reject=listed_before)))
OBLIGATIONS.append(("lines of inline TEAL", construct(nodes.Teal, lambda: Lines(nodes.Teal, [(None, nodes.TealLine)]))))

# inner transactions
def a_group(ip, self, cls):
    if cls is not nodes.InnerGroup:
        raise Refuted(f"an inner transaction looks for {cls.__name__}")
    ip.group = None
    if ip.ctx.branch(z3.Bool("inside a group")):
        n = z3.Int("transactions before")
        ip.ctx.assume(n >= 0)
        ip.group = Opaque("group", attrs={"inners": SeqV([("many", SList("inners", n, lambda i: Opaque(f"inner {i}")))])}, cls=nodes.InnerGroup)
    return ip.group


def in_its_group(ip, n, k, inv):
    if n.group is not ip.group:
        raise Refuted("another group")
    if ip.group is None:
        check(ip, zi(n.group_index) == 0, "the index outside a group")
        return
    m = z3.Int("transactions before")
    check(ip, zi(n.group_index) == m, "the index in the group")
    l = ip.group.attrs["inners"]
    check(ip, ip.length(l) == m + 1, "the transactions of the group")
    if ip.index(l, m) is not n:
        raise Refuted("another transaction joins the group")


OBLIGATIONS.append(("fields of an inner transaction", construct(
    nodes.InnerTxn, lambda: Lines(nodes.InnerTxn, [("#", nodes.Comment), (None, nodes.InnerTxnFieldSetter)]), contracts={"BaseNode.find_parent": a_group}, after=in_its_group)))


# conditionals
def part(cls, begins, ends):
    """contract of the consume of a part of a conditional (body of if, of elif, of else)"""
    def f(ip, self, compiler, parent):
        p = at(ip, compiler)
        if begins is not None:
            if not ip.ctx.branch(p < TOTAL):
                reject(ip, "end of source")
            if not ip.ctx.branch(matches(cls, p)):
                reject(ip, "line")
        ip.calls.append((p, parent))
        if not ip.ctx.branch(OK(p)):
            reject(ip, "nested")
        ip.ctx.assume(z3.And(NEXT(p) >= p + (1 if begins else 0), NEXT(p) < TOTAL, ends(NEXT(p))))
        ip.set_attr(compiler, "line_no", mkint(NEXT(p)))
        return ip.born(Parsed(p, cls))
    return f


class Fact:
    """something that holds before each round"""

    def __init__(self, what, f):
        self.what, self.f = what, f

    def axioms(self, inv, k):
        return []

    def put(self, ip, inv, fr, n, k):
        ip.ctx.assume(self.f(inv, k))

    def chk(self, ip, inv, fr, n, k):
        check(ip, self.f(inv, k), self.what)


class Parts(Statements):
    def axioms(self, ip, k):
        A = self.AT
        return [x for e in self.extra for x in e.axioms(self, k)] + [A(0) == NEXT(START + 1), z3.Implies(k >= 1, z3.And(A(k) == NEXT(A(k - 1)), A(k) > A(k - 1)))]

    def make(self, p):
        return OneOf("part", [(starts(p, "elif "), Parsed(p, nodes.Elif)), (z3.And(z3.Not(starts(p, "elif ")), starts(p, "else:")), Parsed(p, nodes.Else))])

    def accepted(self, p):
        return z3.Or(z3.And(starts(p, "elif "), matches(nodes.Elif, p)), z3.And(starts(p, "else:"), matches(nodes.Else, p)))


def the_if_part(ip, n, k, inv):
    v = n.if_then
    if not isinstance(v, Parsed) or v.cls is not nodes.IfThen:
        raise Refuted(f"the first part is {v!r}")
    check(ip, v.p == START + 1, "the first part starts elsewhere")
    for l in (n.child_nodes, n.nodes):
        if ip.index(ip.resolve(l), z3.IntVal(0 if l is n.child_nodes else ip.header[id(n)])) is not v:
            raise Refuted("the first part is not the first child")


_elif = lambda p: starts(p, "elif ")  # noqa: E731
_elseline = lambda p: starts(p, "else:")  # noqa: E731
OBLIGATIONS.append(("parts of a conditional", construct(
    nodes.IfStatement, lambda: Parts(nodes.IfStatement, fixed=1, extra=[
        Kept("elifs", nodes.Elif, _elif), OnlyOne("else_", nodes.Else, _elseline), Fact("a line is no part", lambda inv, k: _more(inv.AT(k))),
        Fact("something after else", lambda inv, k: z3.Implies(inv.extra[1].HAS(k), is_end(inv.AT(k))))]),
    contracts={"IfThen.consume": part(nodes.IfThen, None, _more), "Elif.consume": part(nodes.Elif, "elif ", _more), "Else.consume": part(nodes.Else, "else:", is_end)},
    after=the_if_part)))


# functions
def func_init(ip, self, line, parent=None, compiler=None):
    """contract of Func.__init__ (proved below)"""
    node_init(ip, self, line, parent, compiler)
    ns = ip.get_attr(self, "nodes")
    ns[:] = [Parsed(v.idx[0], v.cls) if isinstance(v, Hole) and v.cls is nodes.ArgsList else v for v in ns]
    ip.set_attr(self, "returns", Opaque("returns"))
    ip.set_attr(self, "attributes", ip.born({}))
    ip.set_attr(self, "decorators", ip.born([]))


def returns_last(inv, k):
    """z3: the last statement, but for comments, blank lines and functions, is a return"""
    m, i = z3.Ints("m!ret i!ret")
    skip = lambda j: isa(inv.AT(j), nodes.Comment, nodes.Blank, nodes.Func)  # noqa: E731
    return z3.Exists([m], z3.And(m >= 0, m < k, isa(inv.AT(m), nodes.Return), z3.ForAll([i], z3.Implies(z3.And(i > m, i < k), skip(i)), patterns=[inv.AT(i)])), patterns=[inv.AT(m)])


def no_return(r, inv):
    return hasattr(r.ip, "at_k") and (rejects_blocks(r, inv) or r.ctx.valid(z3.Not(returns_last(inv, r.ip.at_k))))


OBLIGATIONS.append(("body of a function", construct(
    nodes.Func, lambda: Statements(nodes.Func, **BODY), contracts={"Func.__init__": func_init}, allowed_reject=no_return,
    after=lambda ip, n, k, inv: check(ip, returns_last(inv, k), "a function without a return at its end"))))


def set_func(ip, self, node):
    """contract of set_func: the function is kept and is the last child (its attributes: C08)"""
    ip.set_attr(self, "func", node)
    ip.call(ip.get_attr(self, "add_child"), [node], {})


def the_func(ip, n, k, inv):
    v = n.func
    if not isinstance(v, Parsed) or v.cls is not nodes.Func:
        raise Refuted(f"the function is {v!r}")
    check(ip, v.p == inv.AT(k), "the function starts elsewhere")
    for l, h in ((n.child_nodes, 0), (n.nodes, ip.header[id(n)])):
        if ip.resolve(ip.index(ip.resolve(l), z3.simplify(k + h))) is not v:
            raise Refuted("the function is not the last child")


def no_func(r, inv):
    return hasattr(r.ip, "at_k") and r.ctx.valid(z3.Not(starts(inv.AT(r.ip.at_k), "@", "func ")))


class Decorators(Lines):
    def accepted(self, p):
        return z3.And(starts(p, "@"), matches(nodes.Decorator, p))


def decorators():
    b = Decorators(nodes.DecoratedFunc, [(None, nodes.Decorator)], header=0, extra=[Kept("decorators", nodes.Decorator, lambda p: z3.BoolVal(True))])
    b.ends = lambda p: starts(p, "func ")
    return b


OBLIGATIONS.append(("decorators and their function", construct(
    nodes.DecoratedFunc, decorators, ends_at=lambda p: starts(p, "func "), tail=1,
    contracts={"Func.consume": statement(nodes.Func), "DecoratedFunc.set_func": set_func}, after=the_func, allowed_reject=no_func)))


# blocks and programs
EXITS = (nodes.Exit, nodes.Switch, nodes.Jump, nodes.Router)
LAST = (nodes.Func, nodes.DecoratedFunc, nodes.Block)


class ExitRule:
    """blocks and functions after an exit statement, and nothing else but comments and blank lines there"""

    def __init__(self):
        self.EX = z3.Function("an exit statement before child", I, B)

    def axioms(self, inv, k):
        return [z3.Not(self.EX(0))] + [z3.Implies(j >= 0, self.EX(j + 1) == z3.Or(self.EX(j), isa(inv.AT(j), *EXITS))) for j in (k - 1, k)]

    def put(self, ip, inv, fr, n, k):
        inv.need(fr, ["exit_statement"])
        fr.loc["exit_statement"] = OneOf("exit statement", [(self.EX(k), Parsed(z3.Function("exit statement before child", I, I)(k))), (z3.Not(self.EX(k)), None)])

    def chk(self, ip, inv, fr, n, k):
        if fr is not None:
            v = ip.resolve(fr.loc["exit_statement"])
            check(ip, z3.BoolVal(v is not None) == self.EX(k), "whether there was an exit statement")

    def broken(self, inv, k):
        p = inv.AT(k)
        return z3.Not(z3.If(self.EX(k), isa(p, *LAST, nodes.Comment, nodes.Blank), z3.Not(isa(p, *LAST))))


class StructRule:
    """structs at the top, after comments, blank lines and the version only"""

    def __init__(self):
        self.TOP = z3.Function("at the top before child", I, B)

    def axioms(self, inv, k):
        return [self.TOP(0)] + [z3.Implies(j >= 0, self.TOP(j + 1) == z3.And(self.TOP(j), isa(inv.AT(j), nodes.TealVersion, nodes.Blank, nodes.Comment, nodes.StructDefinition))) for j in (k - 1, k)]

    def put(self, ip, inv, fr, n, k):
        inv.need(fr, ["expect_struct_definition"])
        fr.loc["expect_struct_definition"] = SBool(self.TOP(k))

    def chk(self, ip, inv, fr, n, k):
        if fr is not None:
            v = ip.resolve(fr.loc["expect_struct_definition"])
            check(ip, (v.e if isinstance(v, SBool) else z3.BoolVal(v)) == self.TOP(k), "whether structs may follow")

    def broken(self, inv, k):
        return z3.And(isa(inv.AT(k), nodes.StructDefinition), z3.Not(self.TOP(k)))


def breaks_rule(r, inv):
    k = getattr(r.ip, "at_k", None)
    if k is None:
        return False
    wrong = [e.broken(inv, k) for e in inv.extra]
    if inv.cls is nodes.Block:
        wrong.append(z3.And(is_end(inv.AT(k)), z3.Not(inv.extra[0].EX(k))))
    return r.ctx.valid(z3.Or(*wrong))


OBLIGATIONS.append(("body of a block", construct(
    nodes.Block, lambda: Statements(nodes.Block, extra=[ExitRule()]), allowed_reject=breaks_rule,
    after=lambda ip, n, k, inv: check(ip, inv.extra[0].EX(k), "a block without an exit statement"))))


def the_source(ip, comp, parent):
    comp.attrs["source_lines"] = SList("source lines", TOTAL, lambda i: Rope([Atom(z3.Function("source line", I, STR)(i), what="source line")]))


OBLIGATIONS.append(("the statements of a program", construct(
    nodes.Program, lambda: Statements(nodes.Program, ends=lambda p: p == TOTAL, header=0, extra=[ExitRule(), StructRule()]), ends_at=lambda p: p == TOTAL, eats=None,
    allowed_reject=breaks_rule, prepare=the_source)))
