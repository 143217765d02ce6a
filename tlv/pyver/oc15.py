"""C15: the result depends only on the source text."""

import z3

import tealish
from tealish import types as T

from . import entry, lines
from .domain import Event, Refuted, runs
from .entry import compiler, other_programs, same_table, structs_now, table
from .maps import check
from .values import *  # noqa: F401,F403

ASSUMPTIONS = [
    "the program node's parsing, processing and writing are functions of the lines, of the compiler's counters and of the table of structs (closed world of state below)",
    "writing a program twice writes the same (obligations below for every statement and expression); printing changes nothing",
]


def _messages():
    from .maps import MapV

    return MapV("messages", z3.Function("line has a message", z3.IntSort(), z3.BoolSort()), lambda k: Rope([Atom(z3.Function("message of", z3.IntSort(), z3.StringSort())(k))]), sort=z3.IntSort())


MESSAGES = _messages()


# -- the compiler object, whatever was compiled before and between -------------------------
COUNTERS = {"line_no": 0, "conditional_count": 0, "router_count": 0, "max_slot": 0, "use_inner_txns_macro": None}


FAILS = (None, "parse", "process", "write")


def history(o, ops):
    """the methods ops = [(method, what fails in it)] on one compiler, other programs compiled before each; -> the state it is in afterwards.
    Every parse starts anew with no structs and fresh counters, processing is of nodes just parsed and with the program's own structs,
    each result is of nodes parsed and processed once"""
    def build(ip):
        ip.failing, ip.failed = True, None
        other_programs(ip)
        c = compiler(ip)
        ip.effects.clear()
        ip.state = "none"  # what was done to the nodes

        def fails(ip, what):
            ip.last = what
            if what == ip.script:
                ip.failed = entry.Other(what)
                raise PyRaise(ip.failed)

        def consume(ip, cls, comp, parent=None):
            for a, v in COUNTERS.items():
                x = ip.resolve(ip.get_attr(comp, a))
                if is_int(x) and v is not None:
                    check(ip, zi(x) == v, f"parsing with another {a}")
                elif x is not v:
                    raise Refuted(f"parsing with another {a}: {x!r}")
            for a in ("error_messages", "line_nodes"):
                if ip.resolve(ip.get_attr(comp, a)) != {}:
                    raise Refuted(f"parsing with another {a}")
            if comp is not c or parent is not None:
                raise Refuted("another program is parsed")
            entry.none_in(ip, structs_now(ip), "a program is parsed with structs of others")
            ip.state = "half parsed"
            for a in COUNTERS:  # parsing leaves any values
                if a != "use_inner_txns_macro":
                    ip.set_attr(comp, a, SInt(z3.Int(f"{a} after parsing")))
            ip.set_attr(comp, "line_nodes", Opaque("nodes of lines"))
            structs_now(ip).push(ip, ("map", table("own structs")))
            fails(ip, "parse")
            ip.state = "parsed"
            return entry.PROGRAM()

        def process(ip, h):
            if ip.state != "parsed":
                raise Refuted(f"nodes that are {ip.state} are processed")
            ip.state = "half processed"
            for a in ("max_slot", "use_inner_txns_macro"):
                ip.set_attr(c, a, Opaque("any"))
            ip.set_attr(c, "error_messages", MESSAGES)
            same_table(ip, structs_now(ip), table("own structs"), "a program is processed with structs of others")
            fails(ip, "process")
            ip.state = "processed"

        def write(ip, h, w):
            if ip.state != "processed":
                raise Refuted(f"nodes that are {ip.state} are written")
            fails(ip, "write")
            entry.step("write")(ip, h, w)  # writing changes no nodes: frame of writing

        def show(ip, h):
            if ip.state != "processed":
                raise Refuted(f"nodes that are {ip.state} are printed")
            return PRINTED
        ip.contracts.update({"Program.consume": consume, ("prog", "process"): process, ("prog", "write_teal"): write, ("prog", "tealish"): show})
        ip.failing = False
        for op, ip.script in ops:
            other_programs(ip)
            before, ip.failed = len(ip.effects), None
            told = " then ".join(x for x, _ in ops)
            try:
                v = ip.resolve(ip.call(ip.get_attr(c, op), [], {}))
            except PyRaise as e:
                if ip.failed is None:
                    raise Refuted(f"{op} fails by itself in {told}: {e.exc!r}")
                continue
            if ip.failed is not None:
                raise Refuted(f"{op} returns although {ip.last} failed")
            if op == "compile":
                ws = [e.info[0] for e in ip.effects[before:] if isinstance(e, Event) and e.what == "write"]
                if len(ws) != 1 or v is not ip.resolve(ip.get_attr(ws[0], "output")):
                    raise Refuted("compile does not give what is written now")
                m = ip.call(ip.get_attr(c, "get_map"), [], {})
                e = ip.resolve(ip.get_attr(m, "errors"))
                f1, v1 = as_table(e).look(ip, KEY)
                f2, v2 = MESSAGES.look(ip, KEY)
                if f1 != f2 or repr(v1) != repr(v2):
                    raise Refuted("another map of messages")
                t = ip.resolve(ip.get_attr(m, "teal_tealish"))
                f1, v1 = as_table(t).look(ip, KEY)
                f2, v2 = ip.resolve(ip.get_attr(ws[0], "source_map")).look(ip, KEY)
                if f1 != f2 or repr(v1) != repr(v2):
                    raise Refuted("another source map")
            elif op == "reformat":
                if ip.state != "processed" or repr(v) != repr(PRINTED):
                    raise Refuted(f"reformat gives {v!r}")
            elif op == "get_structs" and ip.state in ("parsed", "half processed", "processed"):
                same_table(ip, as_table(v), table("own structs"), "the structs of the program")
        return c, ip.state, ip.state if not ip.failed else f"failed: {ip.failed}"

    rs = runs(o, build, entry.CONTRACTS, base=lines.BASE, limit=6000)
    out = set()
    for r in rs:
        if r.kind != "ok":
            raise Refuted(f"{r.value!r}")
        c, st, _ = r.value
        out.add((st, sign({k: r.ip.resolve(v) for k, v in c.__dict__.items()})))
    return out


def sign(v):
    """what a value is, for telling states of the compiler apart"""
    from .maps import MapV

    if isinstance(v, dict):
        return "{" + ", ".join(f"{k}: {sign(x)}" for k, x in sorted(v.items())) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(map(sign, v)) + "]"
    if isinstance(v, MapV):
        ls = list(v.layers)
        while ls and any(x[0] == "clear" for x in ls):
            ls = ls[[x[0] for x in ls].index("clear") + 1:]
            return "cleared map" + "".join(f"+{x[0]}{sign(x[1]) if x[0] == 'map' else ''}" for x in ls)
        return f"map {v.name}" + "".join(f"+{x[0]}{sign(x[1]) if x[0] == 'map' else ''}" for x in ls)
    if hasattr(v, "__dict__") and type(v).__module__.startswith("tealish"):
        return f"{type(v).__name__}{sign(v.__dict__)}"
    return repr(v)


def any_history(o):
    """every sequence of methods, each failing anywhere or not: the states a compiler can be in are finitely many (compared by their attributes),
    and all methods are checked in each of them"""
    seen, todo, n = {}, [()], 0
    first = next(iter(history(o, ())))
    seen[first] = ()
    while todo:
        ops = todo.pop(0)
        for m in METHODS:
            for x in FAILS:
                if x is not None and m == "get_structs" or (m == "parse" and x in ("process", "write")) or (m in ("process", "reformat") and x == "write"):
                    continue
                for s in history(o, ops + ((m, x),)):
                    n += 1
                    if s not in seen:
                        seen[s] = ops + ((m, x),)
                        todo.append(seen[s])
                        if len(seen) > 60:
                            raise Unsupported(f"too many states of a compiler: {sorted(x for x, _ in seen)[:5]}")
    if len(seen) < 5 or not any(s == "processed" for s, _ in seen):
        raise Refuted("the states are not reached")
    return n


I, STR = z3.IntSort(), z3.StringSort()
KEY = z3.Int("a line")
PRINTED = Rope([Atom(z3.String("printed"))])


def as_table(v):
    from .maps import MapV

    if isinstance(v, MapV):
        return v
    if isinstance(v, dict):
        return MapV.of(v)
    raise Unsupported(f"{v!r} is no table")


# -- the functions of the module ---------------------------------------------------------------
SOURCE = Rope([Atom(z3.String("source"), what="line")])
SPLIT = SList("lines of the source", lines.TOTAL, lambda i: Rope([Atom(entry.SRC(i), what="source line")]))


def library(name, want):
    def f(o):
        def build(ip):
            from .maps import MapV

            calls = []

            def split(ip, s, sep=None, *more):
                if repr(ip.resolve(s)) != repr(SOURCE) or ip.resolve(sep) != "\n" or more:
                    raise Unsupported("the source is split otherwise")
                return SPLIT

            def method(m, value):
                def g(ip, self):
                    if repr(ip.resolve(ip.get_attr(self, "source_lines"))) != repr(SPLIT):
                        raise Unsupported("another source is compiled")
                    calls.append((self, m))
                    if m in ("compile", "reformat") and ip.ctx.decide(2, f"{m} fails"):
                        raise PyRaise(entry.Other(m))
                    return value
                return g
            structs = {"A": mk_struct("A", 2), "B": mk_struct("B", 0)}
            values = {"compile": Opaque("the TEAL"), "get_map": Opaque("the map"), "reformat": Rope([Atom(z3.String("printed"), what="line")]), "get_structs": structs}
            ip.contracts.update({"str.split": split, "str.strip": lambda ip, s, *a: Rope([Atom(z3.String("stripped"), what="line")]) if repr(ip.resolve(s)) == repr(values["reformat"]) and not a else (_ for _ in ()).throw(Unsupported("strip")),
                                 **{f"TealishCompiler.{m}": method(m, v) for m, v in values.items()}})
            try:
                v = ip.resolve(ip.call(getattr(tealish, name), [SOURCE], {}))
            except PyRaise as e:
                if type(e.exc) is not entry.Other:
                    raise
                return None
            if len({id(c) for c, _ in calls}) != 1:
                raise Unsupported(f"{name} uses {len({id(c) for c, _ in calls})} compilers")
            done = [m for _, m in calls]
            if done.count("compile") + done.count("reformat") != 1 or done[0] not in ("compile", "reformat"):
                raise Unsupported(f"{name} does {done}")
            return want(ip, v, values)
        rs = runs(o, build, {})
        for r in rs:
            if r.kind != "ok":
                raise Refuted(f"{name} fails by itself: {r.value!r}")
        return len(rs)
    f.__doc__ = f"{name}: what a new compiler of the source's lines gives, or its error as it is"
    return f


def mk_struct(name, n):
    from .domain import mk

    fields = {f"f{i}": mk(T.StructField, tealish_type=T.BytesType(i + 3), offset=SInt(z3.Int(f"offset {i}")), size=SInt(z3.Int(f"size {i}"))) for i in range(n)}
    return mk(T.StructType, name=name, fields=fields, size=SInt(z3.Int(f"size of {name}")))


def compiled(ip, v, values):
    if not isinstance(v, tuple) or [ip.resolve(x) for x in v] != [values["compile"], values["get_map"]]:
        raise Unsupported(f"compile_program gives {v!r}")


def reformatted(ip, v, values):
    if repr(v) != repr(Rope([Atom(z3.String("stripped"), what="line"), "\n"])):
        raise Unsupported(f"reformat_program gives {v!r}")


def inspected(ip, v, values):
    """(bounded: structs of two fields and of none)"""
    want = {"structs": {n: {"size": s.size, "fields": {f: {"type": str(x.tealish_type), "size": x.size, "offset": x.offset} for f, x in s.fields.items()}} for n, s in values["get_structs"].items()}}
    if repr(deep(ip, v)) != repr(deep(ip, want)):
        raise Unsupported(f"inspect_program gives {v!r}")


def deep(ip, v):
    v = ip.resolve(v)
    if isinstance(v, dict):
        return {k: deep(ip, x) for k, x in v.items()}
    return v


METHODS = ("parse", "process", "compile", "reformat", "get_structs")
OBLIGATIONS = [("one compiler object, whatever it was used for", any_history, 240),
               ("compile_program", library("compile_program", compiled)), ("reformat_program", library("reformat_program", reformatted)), ("inspect_program (bounded: two structs)", library("inspect_program", inspected))]
