"""The entry points of the library, over contracts of the program node: its parsing, processing, writing and printing
are proved class by class elsewhere; here they may fail with any exception, and read and change the table of structs."""
import z3

import tealish
from tealish import nodes
from tealish import types as T
from tealish.errors import CompileError, ParseError

from . import lines
from .domain import Event, Family, Refuted, runs
from .interp import fresh
from .lines import LINE, TOTAL
from .maps import MapV, check
from .values import *  # noqa: F401,F403

I, B, STR = z3.IntSort(), z3.BoolSort(), z3.StringSort()
SRC = z3.Function("source line", I, STR)
PROGRAM = Family("program", "prog", cls=nodes.Program)


class Other(Exception):
    """any exception that the code does not name"""


ERRORS = (CompileError, ParseError, KeyError, ValueError, IndexError, TypeError, AttributeError, RecursionError, AssertionError, Other)


def maybe_fails(ip, what):
    """the contract of what may raise anything"""
    i = ip.ctx.decide(1 + len(ERRORS) if ip.failing else 1, f"{what} fails")
    ip.last = what
    if i:
        ip.failed = ERRORS[i - 1](what)
        raise PyRaise(ip.failed)


def table(name):
    return MapV(name, z3.Function(f"{name}: has", STR, B), lambda x: Opaque(f"struct {x} of {name}"))


def structs_now(ip):
    """what _structs is, as a map"""
    m = ip.grown.get(id(T._structs))
    return m[1]


def same_table(ip, a, b, what):
    x = fresh("x", STR)
    fa, va = a.look(ip, x)
    fb, vb = b.look(ip, x)
    if bool(fa) != bool(fb):
        raise Refuted(f"{what}: a struct is in one only")
    if fa and repr(va) != repr(vb):
        raise Refuted(f"{what}: another struct")


def none_in(ip, m, what):
    f, v = m.look(ip, fresh("x", STR))
    if f:
        raise Refuted(f"{what}: {v!r}")


def other_programs(ip):
    """other programs are compiled here: the table of structs is left in any state"""
    ip.others = getattr(ip, "others", 0) + 1
    m = table(f"structs of others {ip.others}")
    ip.grown[id(T._structs)] = (T._structs, m)


def consume(ip, cls, compiler, parent=None):
    """Program.consume: reads the lines of this compiler from the first on; defines the structs of the program"""
    ip.effects.append(Event("parse", compiler))
    if parent is not None:
        raise Refuted("the program has a parent")
    check(ip, zi(ip.resolve(ip.get_attr(compiler, "line_no"))) == 0, "parsing does not start at the first line")
    none_in(ip, structs_now(ip), "a program is parsed with structs of others")
    maybe_fails(ip, "parse")
    ip.compiler = compiler
    structs_now(ip).push(ip, ("map", table("own structs")))
    return PROGRAM()


def step(what, value=None):
    def f(ip, h, *args):
        maybe_fails(ip, what)
        if what == "process":
            same_table(ip, structs_now(ip), table("own structs"), "a program is processed with structs of others")
        ip.effects.append(Event(what, h, *args))
        if what == "write":
            w = args[0]
            for a, v in (("output", []), ("source_map", {}), ("current_output_line", 1), ("level", 0)):
                if ip.resolve(ip.get_attr(w, a)) != v:
                    raise Refuted(f"the writer is not new: {a}")
            n = z3.Int("lines written")
            ip.set_attr(w, "output", SeqV([("many", SList("output", n, lambda i: Rope([Atom(z3.Function("line written", I, STR)(i))])))]))
            ip.set_attr(w, "source_map", MapV("source map", z3.Function("mapped", I, B), lambda k: SInt(z3.Function("mapped to", I, I)(k)), sort=I))
            return None
        return value
    return f


CONTRACTS = {"Program.consume": consume, ("prog", "process"): step("process"), ("prog", "write_teal"): step("write"),
             ("prog", "tealish"): step("print", Rope([Atom(z3.String("printed"))])), "find_node": lambda ip, e: None}


def compiler(ip):
    return ip.call(tealish.TealishCompiler, [SList("source lines", TOTAL, lambda i: Rope([Atom(SRC(i), what="source line")]))], {})


def events(ip):
    return [e.what for e in ip.effects if isinstance(e, Event)]
