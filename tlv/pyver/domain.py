"""The contracts shared by the obligations: types, unknown children, the writer, lookups.

An obligation builds a real node object of the repository (its class comes from the imported
module, its attributes are what the parser's contract promises), evaluates the real `process`
and `write_teal` of that class symbolically, and simulates what was written against the
reference.  Children are unknown nodes taken by contract (the induction hypothesis).
"""
import importlib
import signal
import time

import z3

from . import maps, sem
from .interp import Interp, PathEnd, SymMethod, concrete, fresh, _hashable
from .sem import Emit, Line, OneLine, Refuted, simulate
from .values import *  # noqa: F401,F403
from .values import ANSWERS, STATS, TEXTS

import tealish
from tealish import base, expression_nodes as en, langspec, nodes, scope as scope_mod, stdlib, tealish_builtins, types as T, utils
from tealish.errors import CompileError, ParseError


# -- types -----------------------------------------------------------------------
TY = z3.DeclareSort("Ty")
KIND = z3.Function("kind", TY, z3.IntSort())
SIZE = z3.Function("size", TY, z3.IntSort())


def type_classes():
    out, todo = [], [T.TealishType]
    while todo:
        c = todo.pop()
        if c not in out:
            out.append(c)
            todo += c.__subclasses__()
    return sorted(out, key=lambda c: c.__qualname__)


TYPES = type_classes()


def kind_no(cls):
    return TYPES.index(cls)


def isa(kind, cls):
    """z3: the kind is cls or a subclass"""
    ks = [i for i, c in enumerate(TYPES) if issubclass(c, cls)]
    if len(ks) == len(TYPES):
        return z3.BoolVal(True)
    return z3.Or(*[kind == i for i in ks]) if ks else z3.BoolVal(False)


class SymClass:
    pyver_symbolic = True

    def __init__(self, kind):
        self.kind = kind

    def sym_eq(self, ip, o):
        if isinstance(o, SymClass):
            return mkbool(self.kind == o.kind)
        if isinstance(o, type):
            return mkbool(self.kind == kind_no(o)) if o in TYPES else False
        return False

    def sym_getattr(self, ip, name):
        if name == "__name__":
            return Rope([Atom(z3.String(f"classname({self.kind})"), safe=True)])
        raise Unsupported(f"{name} of an unknown class")


class SymType:
    """a TealishType of unknown class and size"""

    pyver_symbolic = True

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return f"<type {self.term}>"

    kind = property(lambda self: KIND(self.term))
    size = property(lambda self: SIZE(self.term))

    def facts(self):
        k, s = self.kind, self.size
        return z3.And(k >= 0, k < len(TYPES), s >= 0)

    def sym_isinstance(self, ip, cls):
        if not issubclass(cls, T.TealishType):
            return cls is object
        ip.ctx.assume(self.facts())
        return mkbool(isa(self.kind, cls))

    def sym_type(self, ip):
        ip.ctx.assume(self.facts())
        return SymClass(self.kind)

    def sym_truth(self, ip):
        return True

    def sym_str(self, ip):
        return Rope([Atom(z3.Function("str of type", TY, z3.StringSort())(self.term), what="type")])

    def sym_eq(self, ip, o):
        if isinstance(o, SymType):
            if self.term.eq(o.term):
                return True
            raise Unsupported("comparison of types")
        if isinstance(o, (str, T.AVMType)) or o is None:
            return False
        raise Unsupported("comparison of types")

    def sym_getattr(self, ip, name):
        ip.ctx.assume(self.facts())
        if name == "size":
            return SInt(self.size)
        if name in ("can_hold", "can_hold_with_cast"):
            return TypeMethod(self, name)
        if name == "name":
            return Rope([Atom(z3.Function("name of type", TY, z3.StringSort())(self.term), what="type")])
        if name == "avm_type":
            return Opaque(f"avm type of {self.term}")
        if name == "__class__":
            return SymClass(self.kind)
        raise Unsupported(f"attribute {name} of a type")

    def subst(self, k, t):
        return SymType(z3.simplify(z3.substitute(self.term, (k, t))))


class TypeMethod:
    pyver_symbolic = True

    def __init__(self, t, name):
        self.t, self.name = t, name

    def sym_call(self, ip, args, kwargs):
        if self.name == "can_hold":
            return can_hold(ip, self.t, *args)
        return SBool(fresh("can_hold_with_cast", z3.BoolSort()))


def type_facts(ip, t):
    """(kind, size) of a type value as z3 terms"""
    if isinstance(t, SymType):
        ip.ctx.assume(t.facts())
        return t.kind, t.size
    if isinstance(t, T.TealishType):
        return z3.IntVal(kind_no(type(t))), zi(t.size)
    return None


def holds(ek, es, ak, as_):
    """the specification of 'a value of type a may be held by a target of type e' (C05)"""
    any_a = isa(ak, T.AnyType)
    int_ = z3.And(isa(ek, T.IntType), z3.Or(z3.And(isa(ak, T.IntType), as_ <= es), z3.And(any_a, es == 8)))
    struct = z3.And(isa(ek, T.StructType), isa(ak, T.BytesType), as_ == es, as_ > 0)
    byts = z3.And(isa(ek, T.BytesType), z3.Not(isa(ek, T.StructType)),
                  z3.Or(z3.And(isa(ak, T.BytesType), z3.Or(es == 0, as_ == es)), z3.And(any_a, es == 0)))
    return z3.Or(isa(ek, T.AnyType), int_, struct, byts)


def can_hold(ip, self, other):
    """contract of TealishType.can_hold and its overrides (proved in C05)"""
    other = ip.resolve(other)
    o = type_facts(ip, other)
    if o is None:
        return False
    s = type_facts(ip, self)
    ip.by_contract.add("can_hold")
    return mkbool(holds(*s, *o))


# -- unknown children --------------------------------------------------------------
SHAPES = {"none": 0, "single": 1, "list": 2}


def shape(name, *idx):
    return uf(f"shape_{name}", [z3.IntSort()] * len(idx), z3.IntSort())(*idx) if idx else z3.Int(f"shape_{name}")


def nvals(name, *idx):
    return uf(f"nvals_{name}", [z3.IntSort()] * len(idx), z3.IntSort())(*idx) if idx else z3.Int(f"nvals_{name}")


def uf(name, dom, rng):
    return z3.Function(name, *dom, rng)


def type_term(name, *idx):
    return uf(f"type_{name}", [z3.IntSort()] * len(idx), TY)(*idx) if idx else z3.Const(f"type_{name}", TY)


def type_terms(name, j, *idx):
    return uf(f"types_{name}", [z3.IntSort()] * (len(idx) + 1), TY)(*idx, j)


def expr_type(name, idx, shapes):
    n = nvals(name, *idx)
    sh = shape(name, *idx)
    alts = []
    if "single" in shapes:
        alts.append((sh == 1, SymType(type_term(name, *idx))))
    if "none" in shapes:
        alts.append((z3.And(sh == 0, n == 0), T.AVMType.none))
    if "list" in shapes:
        alts.append((z3.And(sh == 2, n >= 0, n != 1), SList(f"types of {name}", n, lambda j: SymType(type_terms(name, j, *idx)))))
    return OneOf(f"type of {name}", alts)


def expr(name, shapes=("single", "none", "list"), exclude=None, **fields):
    """a family of unknown expressions: their class is none of those excluded, which the obligation takes apart"""
    ex = () if exclude is None else exclude
    fields.setdefault("type", lambda *idx: expr_type(name, idx, shapes))
    # expressions have no line of their own, theirs is that of the statement
    fields.setdefault("line_no", lambda *idx: SInt(z3.Int("line_no")))
    fields.setdefault("line", lambda *idx: text("line", False, "line"))
    f = Family(name, "expr", cls=base.BaseNode, exclude=ex, fields=fields)
    f.fields.setdefault("arity", lambda *idx: ("shape", shape(name, *idx), nvals(name, *idx)))
    f.cls_known = False
    return f


def stmt(name, cls=None, exclude=(), **fields):
    return Family(name, "stmt", cls=cls or base.BaseNode, exclude=exclude, fields=fields)


def many(fam, n=None, name=None):
    """the list fam(0..n-1)"""
    n = n if n is not None else z3.Int(f"n_{fam.name}")
    return SList(name or fam.name, n, lambda i: fam(i))


# -- nodes, writer -------------------------------------------------------------------
def mk(cls, **attrs):
    o = object.__new__(cls)
    o.__dict__.update(attrs)
    return o


def text(name, safe=True, what="token"):
    return Rope([Atom(z3.String(name), safe=safe, what=what)])


def parent():
    return Opaque("parent", attrs={"line_no": SInt(z3.Int("line_no")), "_line_no": SInt(z3.Int("line_no")),
                                   "line": text("line", False, "line"), "_line": text("line", False, "line")})


def node(cls, **attrs):
    """a statement node with its line"""
    attrs.setdefault("parent", parent())
    attrs.setdefault("_line_no", SInt(z3.Int("line_no")))
    attrs.setdefault("_line", text("line", False, "line"))
    return mk(cls, **attrs)


class SymWriter:
    """stands for TealWriter: its write is taken by contract (proved in C10/C14)"""

    def __init__(self):
        self.level = 0

    def write(self, parent, node_or_teal, one_line=False):
        raise NotImplementedError


MODE = {"lines": None}  # C10: what is written with the lines it is mapped to, nothing else


def line_of(ip, owner):
    """the line TealWriter.write maps a line to: the owner's, or that of the line before (None)"""
    if MODE["lines"] is None:
        return None
    try:
        return ip.resolve(ip.get_attr(owner, "line_no"))
    except PyRaise as r:
        if issubclass(r.cls, AttributeError):
            return "before"
        raise


def writer_write(ip, self, parent, x, one_line=False):
    x = ip.resolve(x)
    if ip.truth(one_line):
        save, ip.out = ip.out, []
        ip.call(ip.get_attr(x, "write_teal"), [self], {})
        save.append(OneLine(ip.out, parent, line_of(ip, parent)))
        ip.out = save
        return None
    if is_str(x):
        ip.out.append(Line(x, parent, line_of(ip, parent)))
    elif isinstance(x, (list, tuple)):
        x = [ip.resolve(t) for t in x]
        last = x[-1]
        head = last if isinstance(last, str) else last.parts[0]
        sep = "; "
        parts = []
        comment = isinstance(head, str) and head.strip().startswith("//")
        for i, t in enumerate(x):
            if i and not (comment and i == len(x) - 1):
                parts.append(sep)
            parts.append(t)
        ip.out.append(Line(mkstr(Rope(parts)), parent, line_of(ip, parent)))
    else:
        ip.call(ip.get_attr(x, "write_teal"), [self], {})
    return None


# -- contracts of children -------------------------------------------------------------
def expr_process(ip, h):
    ip.effects.append(Event("process", h))
    return None


def expr_write(ip, h, writer):
    ip.out.append(Emit(h))
    return None


def node_text(ip, h):
    return Rope([Atom(uf(f"tealish_{h.name}", [z3.IntSort()] * len(h.idx), z3.StringSort())(*h.idx) if h.idx else z3.String(f"tealish_{h.name}"), what="tealish")])


class Event:
    def __init__(self, what, obj, *info):
        self.what, self.obj, self.info = what, obj, info

    def __repr__(self):
        return f"{self.what}({self.obj!r}{', ' if self.info else ''}{', '.join(map(repr, self.info))})"

    def subst(self, k, t):
        return Event(self.what, subst(self.obj, k, t), *[subst(x, k, t) for x in self.info])


def lookup(kind, make, err=KeyError):
    """contract of the scope lookups: the declaration of that name, or KeyError if there is none"""
    def f(ip, self, name):
        name = ip.resolve(name)
        key = (kind, repr(name))
        memo = ip.__dict__.setdefault("lookups", {})
        if key not in memo:
            memo[key] = make(name) if ip.ctx.decide(2, f"{kind} {name!r} declared") == 0 else None
        if memo[key] is None:
            if err is None:
                return None
            raise PyRaise(err(f"{kind} not declared"))
        return memo[key]
    return f


def nm(name):
    return name if isinstance(name, str) else repr(name)


def slot_of(name):
    return z3.Int(f"slot({nm(name)})")


def var_of(name, ty=None):
    return mk(tealish_builtins.Var, name=name, tealish_type=ty if ty is not None else SymType(z3.Const(f"vartype({nm(name)})", TY)),
              avm_type=Opaque("avm type"), slot_type="scratch", scratch_slot=SInt(slot_of(name)))


def block_of(name):
    return Opaque(f"block {nm(name)}", attrs={"label": Rope([Atom(z3.String(f"label({nm(name)})"), safe=True)])}, cls=nodes.Block)


CONTRACTS = {
    ("expr", "process"): expr_process,
    ("expr", "write_teal"): expr_write,
    ("expr", "tealish"): node_text,
    ("expr", "_tealish"): node_text,
    ("stmt", "process"): expr_process,
    ("stmt", "write_teal"): expr_write,
    ("stmt", "tealish"): node_text,
    ("stmt", "_tealish"): node_text,
    "SymWriter.write": writer_write,
    "BaseNode.lookup_var": lookup("var", var_of),
    "BaseNode.get_var": lookup("var", var_of, None),
    "BaseNode.get_block": lookup("block", block_of),
    "Node.restore_consts": lambda ip, self, writer: None,  # writes #define lines only: oc14
}
for _c in TYPES:
    if "can_hold" in _c.__dict__:
        CONTRACTS[f"{_c.__qualname__}.can_hold"] = can_hold


# -- running -----------------------------------------------------------------------------
CONFUSED = (AttributeError, NameError, TypeError, NotImplementedError, UnboundLocalError)


class Run:
    def __init__(self, kind, ctx, ip, value):
        self.kind, self.ctx, self.ip, self.value = kind, ctx, ip, value

    def facts(self):
        out = list(self.ctx.constraints())
        for k, n, c in self.ip.facts:
            out.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), c)))
        return out


def runs(o, build, contracts=None, loops=None, base=(), limit=600, rejections=(Exception,)):
    """every path of build(ip): Runs of kind ok | raise"""
    def path(ctx):
        ip = Interp(ctx, {**CONTRACTS, **(contracts or {})}, loops=loops)
        try:
            v = build(ip)
        except PyRaise as r:
            if issubclass(r.cls, CONFUSED):
                raise Unsupported(f"{r.cls.__name__}: {r.exc} (in the evaluation of the real code)")
            o.take(ip)
            return Run("raise", ctx, ip, r.exc)
        except PathEnd:
            o.take(ip)
            return Run("cut", ctx, ip, None)
        o.take(ip)
        return Run("ok", ctx, ip, v)

    out = []
    for ctx, r in explore(path, limit, base):
        if ctx.feasible():
            out.append(r)
            if MODE["lines"] is not None and r.kind == "ok":
                MODE["lines"](r)
    if not out:
        raise Refuted("no path of the function is feasible")
    return out


def compile_node(ip, n):
    """process, then write_teal"""
    ip.call(ip.get_attr(n, "process"), [], {})
    ip.call(ip.get_attr(n, "write_teal"), [SymWriter()], {})
    return n


class Obligation:
    def __init__(self, name, fn, timeout=60):
        self.name, self.fn, self.timeout = name, fn, timeout
        self.functions, self.by_contract, self.paths = set(), set(), 0

    def take(self, ip):
        self.functions |= ip.used
        self.by_contract |= {str(x) for x in ip.by_contract}


class TooLong(BaseException):
    """not an Exception: no handler of the code under evaluation, nor of a library, may take it"""


def excused(ob):
    """why a refutation may say more of the proof than of the code; None if it stands"""
    split = sem.split_differently()
    if split:
        return f"the code runs the first or last of {split} by themselves, which the proof does not follow"
    if maps.UNROLL["used"]:
        # an invariant may fit one way of writing a loop only: is the first iterations' result wrong too?
        maps.UNROLL.update(on=True, limit=getattr(ob, "unroll", 3))
        try:
            n = ob.fn(ob)
        except TooLong:
            raise
        except Exception:
            return None
        finally:
            maps.UNROLL["on"] = False
        if n:
            return f"the invariant of the proof does not fit the loop, but what the first {maps.UNROLL['limit']} iterations do is right"
    return None


def discharge(ob):
    """-> the record of the obligation"""
    t = time.time()
    q0 = STATS["queries"]
    maps.UNROLL.update(on=False, used=False, limit=3)
    ANSWERS.clear()
    TEXTS.clear()
    for x in sem.SHAPES.values():
        x.clear()

    rang = []

    def alarm(*a):
        rang.append(1)
        raise TooLong()

    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, ob.timeout, 5)  # again, if the first is lost in a destructor
    status, detail = "proved", ""
    try:
        n = ob.fn(ob)
        ob.paths += n or 0
        if not n:
            status, detail = "undischarged", "vacuous: nothing was compared"
    except Refuted as e:
        status, detail = "failed", str(e)
        late = bool(rang)
        signal.setitimer(signal.ITIMER_REAL, 60, 5)
        try:
            why = "out of time" if late else excused(ob)
        except TooLong:
            why = "not settled in time with the first iterations written out"
        if why:
            status, detail = "undischarged", f"{why} ({detail})"
    except (Unsupported, Infeasible) as e:
        status, detail = "undischarged", str(e) or type(e).__name__
    except TooLong:
        status, detail = "undischarged", f"gave up after {ob.timeout} s"
    except z3.Z3Exception as e:
        status, detail = "undischarged", f"z3: {e}"
    except RecursionError:
        status, detail = "undischarged", "recursion"
    except PyRaise as e:
        status, detail = "undischarged", f"raise outside a path: {e}"
    except Exception as e:  # an unforeseen shape of the code: no verdict
        import traceback

        status, detail = "undischarged", "internal: " + traceback.format_exc()[-600:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if rang and status == "proved":
        status, detail = "undischarged", f"out of time after {ob.timeout} s"
    return dict(name=ob.name, status=status, backend="z3 " + z3.get_version_string(), seconds=round(time.time() - t, 3),
                detail=detail[:1500], functions=sorted(ob.functions), contracts=sorted(ob.by_contract), paths=ob.paths,
                queries=STATS["queries"] - q0)


def means(o, build, ref, locs=None, env=None, contracts=None, loops=None, base=(), entry=None, prepare=compile_node, max_raise=None,
          post=None):
    """every accepted path of build's node emits code that means ref(r)(machine); at least one path is accepted"""
    total = ok = 0
    for r in runs(o, lambda ip: prepare(ip, build(ip)), contracts, loops, base):
        if r.kind == "raise":
            continue
        if r.kind == "cut":
            continue
        ok += 1
        if post is not None:
            post(r)
        total += simulate(r.ip.out, (lambda m, r=r: ref(m, r)), locs(r) if callable(locs) else locs,
                          env(r) if callable(env) else env, r.facts(), entry)
    if not ok:
        raise Refuted("the construct is never accepted")
    return total
