"""C12, third part: whatever goes wrong inside, what comes out of the library is a ParseError or a CompileError, its own if it was one."""
from . import entry, lines
from .domain import Event, Opaque, Refuted, runs, text
from .interp import fresh
from .lines import LINE, START
from .maps import Inv, check
from .oc04 import find
from .oc12 import begin, func_init, node_init
from .entry import CompileError, ParseError
from .values import *  # noqa: F401,F403

import z3

from tealish import base, nodes

ASSUMPTIONS = ["find_node, which looks for the node in a traceback, gives a node or None and does not fail",
               "printing a processed program does not fail (C11)"]


def decided(method):
    def f(o):
        def build(ip):
            ip.failing, ip.failed = True, None
            entry.other_programs(ip)
            c = entry.compiler(ip)
            ip.effects.clear()
            return ip.call(ip.get_attr(c, method), [], {})
        rs = runs(o, build, {**entry.CONTRACTS, ("prog", "tealish"): lambda ip, h: Rope([Atom(z3.String("printed"))])}, base=lines.BASE)
        good = bad = 0
        for r in rs:
            if r.kind == "ok":
                if r.ip.failed is not None:
                    raise Refuted(f"{method} returns although {r.ip.last} failed")
                good += 1
                continue
            bad += 1
            if not isinstance(r.value, (ParseError, CompileError)):
                raise Refuted(f"{method} raises {type(r.value).__name__} when {r.ip.last} raises {type(r.ip.failed).__name__}")
            if isinstance(r.ip.failed, (ParseError, CompileError)) and r.value is not r.ip.failed:
                raise Refuted(f"another error than that of {r.ip.last}")
        if not good or not bad:
            raise Refuted("nothing is decided")
        return len(rs)
    return f


OBLIGATIONS = [(f"every failure is a proper error: {m}", decided(m)) for m in ("compile", "reformat")]


# -- the node around --------------------------------------------------------------------
N = z3.Int("number of ancestors")
IS = z3.Function("ancestor is of the class", z3.IntSort(), z3.BoolSort())


class Ancestor:
    """the k-th node around a node (0: its parent), of one of the classes, or not"""

    pyver_symbolic = True

    def __init__(self, k):
        self.k = z3.simplify(k if z3.is_expr(k) else z3.IntVal(k))

    def subst(self, a, b):
        return Ancestor(z3.substitute(self.k, (a, b)))

    def __repr__(self):
        return f"<ancestor {self.k}>"

    def sym_getattr(self, ip, name):
        if name == "parent":
            return around(self.k + 1)
        raise Unsupported(f"{name} of a node around")

    def sym_isinstance(self, ip, cls):
        if cls is not LOOKED[0]:
            raise Unsupported(f"whether a node around is a {cls}")
        return ip.ctx.branch(IS(self.k))

    def sym_truth(self, ip):
        return True

    def sym_eq(self, ip, o):
        return o is self


LOOKED = [nodes.WhileStatement]


def around(k):
    k = z3.simplify(k if z3.is_expr(k) else z3.IntVal(k))
    return OneOf(f"ancestor {k}", [(k < N, Ancestor(k)), (k >= N, None)])


def parent_found(o):
    """find_parent: the innermost node around that is of the class, None if there is none"""
    names = {}
    none = lambda k: z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < k), z3.Not(IS(J))), patterns=[IS(J)])  # noqa: E731
    J = z3.Int("j!around")

    def chk(ip, fr, k):
        if not names:
            names["p"] = find(fr, lambda v: isinstance(v, OneOf) and v.name == "ancestor 0")
        inv.need(fr, names.values())
        v = ip.resolve(fr.loc[names["p"]])
        check(ip, z3.BoolVal(v is None) == (k >= N), "the node reached")
        if v is not None:
            check(ip, v.k == k, "the node reached")
        check(ip, none(k), "a node of the class is passed by")

    def put(ip, fr, k):
        ip.ctx.assume(none(k))
        fr.loc[names["p"]] = around(k)

    inv = Inv(put, chk, bound=N)

    def build(ip):
        n = Opaque("node", attrs={"parent": around(0)}, cls=nodes.Node)
        v = ip.call(base.BaseNode.find_parent, [n, LOOKED[0]], {})
        v = ip.resolve(v)
        if v is None:
            check(ip, none(N), "a node around is not found")
        elif isinstance(v, Ancestor):
            check(ip, z3.And(v.k >= 0, v.k < N, IS(v.k)), "another node is found")
            check(ip, none(v.k), "not the innermost is found")
        else:
            raise Refuted(f"find_parent gives {v!r}")
        return v
    rs = runs(o, build, loops={("BaseNode.find_parent", "while"): inv}, base=[N >= 0])
    if any(r.kind == "raise" for r in rs) or not any(r.kind == "ok" and r.value is None for r in rs) or not any(r.kind == "ok" and r.value is not None for r in rs):
        raise Refuted("find_parent fails")
    return len(rs)


def break_in_loop(o):
    """break: its loop is the innermost while around, rejected if there is none"""
    loop = z3.Bool("inside WhileStatement")

    def build(ip):
        comp, parent = begin(ip)
        n = object.__new__(nodes.Break)
        ip.born(n)
        ip.call(nodes.Break.__init__, [n, lines.line(START), parent, comp], {})
        check(ip, loop, "a break outside a loop is accepted")
        v = ip.get_attr(n, "parent_loop")
        if not isinstance(v, Opaque) or v.cls is not nodes.WhileStatement:
            raise Refuted(f"the loop of a break is {v!r}")
        return n
    rs = runs(o, build, base=lines.BASE)
    for r in rs:
        if r.kind == "raise" and not isinstance(r.value, ParseError):
            raise Refuted(f"fails: {r.value!r}")
        if r.kind == "raise" and r.ip.reason != "line":
            check(r.ip, z3.Not(loop), "a break in a loop is rejected")
    if not any(r.kind == "ok" for r in rs):
        raise Refuted("no break is accepted")
    return len(rs)


def return_in_function(o):
    """return: its function is the innermost around, with as many values as the function returns, each parsed in place"""
    inside = z3.Bool("inside Func")
    m, n = z3.Ints("values returned, declared".split(", "))
    ARG = z3.Function("value written", z3.IntSort(), z3.StringSort())

    def build(ip):
        comp, parent = begin(ip)
        fn = Opaque("function", attrs={"returns": SList("returns", n, lambda i: Opaque(f"type {i}"))}, cls=nodes.Func)

        def find_parent(ip, self, cls):
            if cls is not nodes.Func:
                raise Refuted(f"a return looks for {cls.__name__}")
            return fn if ip.ctx.branch(inside) else None

        def split(ip, s):
            ip.split = s
            return SeqV([("many", SList("values", m, lambda i: Rope([Atom(ARG(i), what="value")])))])

        def parse(ip, cls, line, parent=None, compiler=None):
            if parent is not ip.node or compiler is not comp:
                raise Refuted("a value is parsed for another node")
            if not ip.ctx.branch(z3.Bool("a value is parsed")):
                ip.reason = "value"
                raise PyRaise(ParseError("?"))
            return Parsed_(ip.resolve(line))
        def init(ip, self, *a, **k):
            node_init(ip, self, *a, **k)
            e = z3.Int("kind of the values")
            ip.set_attr(self, "args", OneOf("values written", [(e == 0, None), (e == 1, ""), (z3.And(e != 0, e != 1), Rope([Atom(z3.String("values written"), safe=True)]))]))
        ip.contracts.update({"Node.__init__": init, "BaseNode.find_parent": find_parent, "split_return_args": split, "GenericExpression.parse": parse, "str.strip": lambda ip, t, *a: t})
        ip.node = object.__new__(nodes.Return)
        ip.born(ip.node)
        ip.split = None
        ip.call(nodes.Return.__init__, [ip.node, lines.line(START), parent, comp], {})
        check(ip, inside, "a return outside a function is accepted")
        if ip.get_attr(ip.node, "func") is not fn:
            raise Refuted("another function")
        xs = ip.resolve(ip.get_attr(ip.node, "args_expressions"))
        k = m if ip.split is not None else z3.IntVal(0)
        ln = ip.length(xs)
        check(ip, (ln if z3.is_expr(ln) else zi(ln)) == k, "the number of values")
        check(ip, k == n, "another number of values than declared is accepted")
        if ip.split is not None:
            if repr(ip.resolve(ip.split)) != repr(ip.resolve(ip.get_attr(ip.node, "args"))):
                raise Refuted("another text is split")
            i = fresh("i")
            if ip.ctx.branch(z3.And(i >= 0, i < m)):
                v = ip.resolve(ip.index(xs, i))
                check(ip, zs(v.text) == ARG(i), "another value")
        return ip.node
    rs = runs(o, build, base=lines.BASE + [m >= 1, n >= 0])
    for r in rs:
        if r.kind != "raise":
            continue
        if not isinstance(r.value, ParseError):
            raise Refuted(f"fails: {r.value!r}")
        if r.ip.reason is None:
            k = m if r.ip.split is not None else z3.IntVal(0)
            check(r.ip, z3.Or(z3.Not(inside), k != n), "a right return is rejected")
    if not any(r.kind == "ok" for r in rs):
        raise Refuted("no return is accepted")
    return len(rs)


class Parsed_:
    """the expression parsed from a text"""

    pyver_symbolic = True

    def __init__(self, t):
        self.text = t

    def subst(self, a, b):
        return Parsed_(subst(self.text, a, b))

    def __repr__(self):
        return f"<parsed {self.text!r}>"

    def sym_isinstance(self, ip, cls):
        return True


OBLIGATIONS += [("find_parent", parent_found), ("break is inside a loop", break_in_loop), ("return is inside a function", return_in_function)]
