"""C02: the statements that do nothing at run time, and those that only hold others."""
from tealish import nodes

from .domain import *  # noqa: F401,F403
from .domain import Event
from .interp import ForEach
from .oc02 import BODY, compiler, count, with_children
from .oc03 import must_
from .sem import Emit, Line
from .values import *  # noqa: F401,F403

ASSUMPTIONS = []


def nothing(cls, **fields):
    def f(o):
        """no instruction is written"""
        def build(ip):
            return node(cls, **{k: v() for k, v in fields.items()})

        return means(o, build, lambda m, r: m.end())
    return f


def nothing_below(cls):
    def f(o):
        """no instruction is written, also none of the statements in it"""
        def build(ip):
            return with_children(node(cls, name=text("n"), compiler=compiler()), BODY)

        return means(o, build, lambda m, r: m.end(), base=[count("body") >= 0])
    return f


def each(items, what, n, good):
    """what happens is one thing per child, for all children in order: `good(k, the things for child k)`, whatever the conditions"""
    if len(items) != 1 or not isinstance(items[0], ForEach):
        raise Unsupported(f"{what}: {items}")
    e = items[0]
    if not z3.simplify(e.n).eq(z3.simplify(n)):
        raise Refuted(f"{what}: {e.n} of {n}")
    for guards, things in e.alts:
        if good(e.k, things):
            continue
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(e.k >= 0, e.k < e.n, *guards)
        v = s.check()
        if v == z3.sat:
            raise Refuted(f"{what}: {things} for the one at {s.model().eval(e.k, model_completion=True)}")
        if v != z3.unsat:
            raise Unsupported(f"{what}: {things} if {guards}")


def held(cls, **fields):
    """process: every child is processed, once, in order"""
    def f(o):
        def build(ip):
            n = with_children(node(cls, **{k: v() for k, v in fields.items()}), BODY)
            ip.call(ip.get_attr(n, "process"), [], {})
            return n

        c = 0
        for r in runs(o, build, base=[count("body") >= 1]):
            if r.kind != "ok":
                raise Refuted(f"rejected: {r.value!r}")
            each(r.ip.effects, "processed", count("body"), lambda k, ev: len(ev) == 1 and isinstance(ev[0], Event) and
                 ev[0].what == "process" and repr(ev[0].obj) == repr(BODY(k)))
            c += 1
        return c
    return f


def decorated(o):
    """a function with decorators is written as the function, once"""
    FN = stmt("function")

    def build(ip):
        n = with_children(node(nodes.DecoratedFunc, func=FN(), decorators=many(BODY)), BODY)
        ip.call(ip.get_attr(n, "write_teal"), [SymWriter()], {})
        return n
    c = 0
    for r in runs(o, build, base=[count("body") >= 1]):
        if r.kind != "ok":
            raise Refuted(f"rejected: {r.value!r}")
        if not all(isinstance(x, (Emit, ForEach)) for x in r.ip.out):
            raise Unsupported(f"{r.ip.out}")
        if len(r.ip.out) != 1 or not isinstance(r.ip.out[0], Emit) or repr(r.ip.out[0].hole) != repr(FN()):
            raise Refuted(f"written: {r.ip.out}")
        c += 1
    return c


def inline_teal(o):
    """inline TEAL is its lines, all and in order"""
    def build(ip):
        n = with_children(node(nodes.Teal), BODY)
        ip.call(ip.get_attr(n, "write_teal"), [SymWriter()], {})
        return n
    c = 0
    for r in runs(o, build, base=[count("body") >= 1]):
        if r.kind != "ok":
            raise Refuted(f"rejected: {r.value!r}")
        each(r.ip.out, "written", count("body"), lambda k, out: len(out) == 1 and isinstance(out[0], Emit) and repr(out[0].hole) == repr(BODY(k)))
        c += 1
    return c


def teal_line(o):
    """a line of inline TEAL is written as it is"""
    t = Rope([Atom(z3.String("the line"), what="line")])

    def build(ip):
        n = node(nodes.TealLine, _line=t)
        ip.call(ip.get_attr(n, "write_teal"), [SymWriter()], {})
        return n
    c = 0
    for r in runs(o, build):
        if r.kind != "ok":
            raise Refuted(f"rejected: {r.value!r}")
        if len(r.ip.out) != 1 or not isinstance(r.ip.out[0], Line):
            raise Unsupported(f"{r.ip.out}")
        must_(r, zs(r.ip.out[0].text) == z3.String("the line"), f"written: {r.ip.out}")
        c += 1
    return c


OBLIGATIONS = [("comments", nothing(nodes.Comment, comment=lambda: text("comment", False))), ("blank lines", nothing(nodes.Blank)),
               ("decorators", nothing(nodes.Decorator, name=lambda: text("name"), params=lambda: text("params", False))),
               ("fields of a struct", nothing(nodes.StructFieldDefinition, field_name=lambda: text("field"), data_type=lambda: text("type"))),
               ("structs", nothing_below(nodes.StructDefinition)),
               ("inner group: all is processed", held(nodes.InnerGroup)), ("decorated function: all is processed", held(nodes.DecoratedFunc)),
               ("struct: all is processed", held(nodes.StructDefinition)), ("decorated function", decorated), ("inline TEAL", inline_teal), ("a line of inline TEAL", teal_line)]
