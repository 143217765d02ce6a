"""Symbolic evaluation of the real functions of tealish, from their current source.

Functions are located by their code object, their syntax trees are read from the repository's
files on every run, and are evaluated on values that may be symbolic.  A call is replaced by
the callee's contract if it has one, otherwise the callee is evaluated in place (if it is part
of tealish) or called natively (if it is not and all its arguments are concrete).
Whatever is not understood raises Unsupported, which leaves the obligation undischarged.
"""
import ast
import builtins
import importlib
import inspect
import operator
import types

import z3

from .values import *  # noqa: F401,F403
from .values import _NONE  # noqa: F401

_files = {}
TRACE = False


def tree_of(code):
    fn = code.co_filename
    if fn not in _files:
        with open(fn) as fh:
            t = ast.parse(fh.read())
        ix = {}
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                first = n.lineno
                if isinstance(n, ast.FunctionDef):
                    first = min([n.lineno] + [d.lineno for d in n.decorator_list])
                ix.setdefault((first, getattr(n, "name", "<lambda>")), []).append(n)
        _files[fn] = ix
    ns = _files[fn].get((code.co_firstlineno, code.co_name), [])
    if len(ns) != 1:
        raise Unsupported(f"no source of {code.co_name}")
    return ns[0]


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PathEnd(Exception):
    """the path ends here: it was only there to check a loop invariant"""


class Method:
    """a function bound to a (possibly symbolic) object"""

    def __init__(self, func, obj):
        self.func, self.obj = func, obj


class SymMethod:
    """a method of a symbolic value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Closure:
    """a function defined inside an interpreted function"""

    def __init__(self, node, env, frame):
        self.node, self.env, self.frame = node, env, frame


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Frame:
    def __init__(self, func, name, loc, globs, closure, parent=None):
        self.func, self.name, self.loc, self.globs, self.closure, self.parent = func, name, loc, globs, closure, parent


class Acc:
    """the value a variable had at the start of a loop iteration"""

    def __init__(self, name):
        self.name = name

    safe = False

    def __repr__(self):
        return f"<before {self.name}>"


class ForEach:
    """items produced once for each k in 0..n-1, by the alternative whose guard holds"""

    def __init__(self, k, n, alts):
        self.k, self.n, self.alts = k, n, alts

    def __repr__(self):
        return f"ForEach({self.k}<{self.n}: {self.alts})"

    def subst(self, k, t):
        def it(x):
            return x.subst(k, t) if hasattr(x, "subst") else subst(x, k, t)

        return ForEach(self.k, z3.simplify(z3.substitute(self.n, (k, t))),
                       [([z3.substitute(g, (k, t)) for g in gs], [it(x) for x in items]) for gs, items in self.alts])


_fresh = [0]


def fresh(name, sort=None):
    _fresh[0] += 1
    if sort is None or sort == z3.IntSort():
        return z3.Int(f"{name}!{_fresh[0]}")
    return z3.Const(f"{name}:{sort}!{_fresh[0]}", sort)


_MISSING = object()
BIN = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
    ast.Mod: operator.mod, ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.Div: operator.truediv,
    ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.Pow: operator.pow, ast.BitXor: operator.xor,
}
def subclasses(cls, seen=None):
    seen = set() if seen is None else seen
    for c in type.__subclasses__(cls):
        if c not in seen:
            seen.add(c)
            subclasses(c, seen)
    return seen


SYMBOLIC = (SInt, SBool, Rope, SElem, SList, SeqV, SMap, Hole, Opaque, OneOf, Poison)


def concrete(v, depth=0, seen=None):
    """no symbolic value anywhere inside"""
    if isinstance(v, SYMBOLIC) or isinstance(v, (Method, SymMethod, Closure, Acc)):
        return False
    if hasattr(v, "pyver_symbolic"):
        return False
    if isinstance(v, (str, int, bytes, float, type(None), type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)):
        return True
    if depth > 8:
        return False
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(concrete(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return all(concrete(x, depth + 1) for x in v.keys()) and all(concrete(x, depth + 1) for x in v.values())
    seen = seen or set()
    if id(v) in seen:
        return True
    d = getattr(v, "__dict__", None)
    if d is None:
        return True
    return all(concrete(x, depth + 1, seen | {id(v)}) for x in d.values())


class Interp:
    max_steps = 60000

    def __init__(self, ctx, contracts=None, package="tealish", loops=None):
        self.ctx = ctx
        self.contracts = contracts or {}
        self.loops = loops or {}
        self.package = package
        self.journal = []
        self.out = []
        self.depth = 0
        self.reads = []  # stack of sets, one for each loop being summarised
        self.used = set()  # qualified names of the functions evaluated
        self.by_contract = set()
        self.effects = []  # ghost effect log, for the contracts of the outside world
        self.steps = 0
        self.facts = []  # (k, n, condition): holds for all 0 <= k < n
        self.instance_of = {}
        self.unknown_lists = {}
        self.grown = {}
        self.fresh_objects = {}  # id -> object made by the code itself

    # -- heap ----------------------------------------------------------------
    def born(self, v):
        """v is a new object: no loop around can have written it before"""
        if isinstance(v, (list, dict, set)) or hasattr(v, "segs"):
            self.fresh_objects[id(v)] = v
        d = v.attrs if isinstance(v, Opaque) else getattr(v, "__dict__", None)
        if d is not None and not isinstance(v, type):
            self.fresh_objects[id(d)] = d
            self.fresh_objects[id(v)] = v
        return v

    def note_read(self, obj, attr):
        for r, w in self.reads:
            key = (id(obj), attr)
            if key not in w:
                r[key] = obj

    def note_write(self, obj, attr):
        for r, w in self.reads:
            w[(id(obj), attr)] = obj

    def set_attr(self, obj, name, value):
        if isinstance(obj, SElem):
            st = obj.store
            old = list(st.updates.get(name, ()))
            self.journal.append(("upd", st, name, old))
            self.note_write(st, name)
            st.updates.setdefault(name, [])
            st.updates[name] = old + [("one", obj.idx, value)]
            return
        if isinstance(obj, Hole):
            d = obj.family.sets
            key = (name,) + obj.key()
            self.journal.append(("dict", d, key, d.get(key, _MISSING)))
            self.note_write(d, key)
            d[key] = value
            return
        if isinstance(obj, Opaque):
            old = obj.attrs.get(name, _MISSING)
            self.journal.append(("dict", obj.attrs, name, old))
            self.note_write(obj.attrs, name)
            obj.attrs[name] = value
            return
        if isinstance(obj, SYMBOLIC):
            raise Unsupported(f"attribute {name} of {obj!r} set")
        if hasattr(obj, "sym_setattr"):
            return obj.sym_setattr(self, name, value)
        cls = type(obj)
        a = inspect.getattr_static(cls, name, None)
        if isinstance(a, property):
            return self.call(Method(a.fset, obj), [value], {})
        if not hasattr(obj, "__dict__"):
            raise Unsupported(f"attribute {name} of {cls.__name__} set")
        d = obj.__dict__
        self.journal.append(("dict", d, name, d.get(name, _MISSING)))
        self.note_write(d, name)
        d[name] = value

    def set_item(self, obj, key, value):
        obj = self.resolve(obj)
        key = self.resolve(key)
        if isinstance(obj, dict) and isinstance(key, (Rope, SInt)) and all(isinstance(x, str if isinstance(key, Rope) else int) for x in obj):
            obj = self.grow_dict(obj)
        if isinstance(obj, dict):
            if not isinstance(key, (str, int, tuple, type(None), type)):
                raise Unsupported(f"dictionary key {key!r}")
            self.journal.append(("dict", obj, key, obj.get(key, _MISSING)))
            self.note_write(obj, "[]")
            dict.__setitem__(obj, key, value)
            return
        if isinstance(obj, list) and isinstance(key, int):
            self.list_change(obj)
            obj[key] = value
            return
        if hasattr(obj, "sym_setitem"):
            return obj.sym_setitem(self, key, value)
        raise Unsupported(f"item of {obj!r} set")

    def list_change(self, obj, appends=False):
        self.journal.append(("list", obj, list(obj)))
        if not appends:
            self.journal.append(("not appended", obj))
        self.note_write(obj, "[]")

    def undo(self, mark):
        while len(self.journal) > mark:
            e = self.journal.pop()
            if e[0] == "dict":
                _, d, k, old = e
                if old is _MISSING:
                    d.pop(k, None)
                else:
                    d[k] = old
            elif e[0] == "list":
                e[1][:] = e[2]
            elif e[0] == "upd":
                e[1].updates[e[2]] = e[3]
            elif e[0] == "segs":
                e[1].segs = e[2]
            elif e[0] == "call":
                e[1]()

    # -- values --------------------------------------------------------------
    def resolve(self, v):
        """decide which alternative a OneOf is"""
        while isinstance(v, OneOf):
            key = id(v)
            memo = getattr(self.ctx, "oneof", None)
            if memo is None:
                memo = self.ctx.oneof = {}
            if key in memo:
                v = memo[key]
                continue
            p = self.lookup_oneof(key)
            if p is not _MISSING:
                v = p
                continue
            alts = v.alts(self) if callable(v.alts) else v.alts
            i = self.ctx.decide(len(alts), f"{v.name}") if len(alts) > 1 else 0
            a = alts[i]
            if isinstance(a, tuple) and len(a) == 2 and z3.is_expr(a[0]):
                if not self.ctx.feasible(a[0]):
                    raise Infeasible()
                self.ctx.assume(a[0])
                a = a[1]
            memo[key] = a
            self.ctx.keep = getattr(self.ctx, "keep", [])
            self.ctx.keep.append(v)
            v = a
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if type(v) is list:
            if id(v) in self.unknown_lists:
                raise Unsupported("a list that grows in some iterations")
            if id(v) in self.grown:
                return self.grown[id(v)][1]
        elif type(v) is dict and id(v) in self.grown:
            return self.grown[id(v)][1]
        return v

    def grow_dict(self, d):
        """a concrete dictionary becomes one with unknown keys"""
        from .maps import MapV

        m = MapV.of(d)
        self.grown[id(d)] = (d, m)
        self.journal.append(("call", lambda: self.grown.pop(id(d), None), d))
        self.note_write(d, "[]")
        return m

    def lookup_oneof(self, key):
        c = getattr(self.ctx, "outer", None)
        while c is not None:
            m = getattr(c, "oneof", None)
            if m and key in m:
                return m[key]
            c = getattr(c, "outer", None)
        return _MISSING

    def truth(self, v):
        v = self.resolve(v)
        if isinstance(v, SBool):
            return self.ctx.branch(v.e)
        if isinstance(v, SInt):
            return self.ctx.branch(v.e != 0)
        if isinstance(v, Rope):
            for p in v.parts:
                if some_text(p):
                    return True
            ms = [p for p in v.parts if isinstance(p, Many)]
            if len(ms) == len(v.parts) and all(all(any(some_text(q) for q in t.parts) for t in ([m.rope] if m.rope is not None else [t for _, t in m.alts])) for m in ms):
                return self.ctx.branch(z3.Or(*[m.n > 0 for m in ms]))
            return self.ctx.branch(z3.Length(v.z()) > 0)
        if isinstance(v, SList):
            return self.ctx.branch(v.n > 0)
        if isinstance(v, SeqV):
            return self.ctx.branch(self.length(v) > 0)
        if isinstance(v, (Hole, SElem)):
            return True
        if hasattr(v, "sym_truth"):
            return v.sym_truth(self)
        if isinstance(v, Opaque):
            if "__bool__" in v.attrs:
                return self.truth(v.attrs["__bool__"])
            if v.cls is not None:
                return True
            raise Unsupported(f"truth of {v!r}")
        if isinstance(v, SMap):
            raise Unsupported("truth of a map")
        return bool(v)

    def length(self, v):
        """z3 int"""
        v = self.resolve(v)
        if isinstance(v, (SeqV, list, dict)):
            self.note_read(v, "[]")
        if isinstance(v, SList):
            return v.n
        if isinstance(v, SeqV):
            return z3.simplify(z3.Sum([z3.IntVal(0)] + [z3.IntVal(1) if k == "one" else x.n for k, x in v.segs]))
        if isinstance(v, Rope):
            return z3.Length(v.z())
        if isinstance(v, (list, tuple, str, dict, set, bytes)):
            return z3.IntVal(len(v))
        if hasattr(v, "sym_len"):
            n = v.sym_len(self)
            return n if isinstance(n, z3.ExprRef) else zi(n)
        raise Unsupported(f"len of {v!r}")

    def index(self, v, i):
        """element i (z3 int) of a list made of segments"""
        if isinstance(v, SList):
            if not self.ctx.valid(z3.And(i >= 0, i < v.n)):
                if not self.ctx.branch(z3.And(i >= 0, i < v.n)):
                    raise PyRaise(IndexError("list index out of range"))
            return v.at(i)
        if isinstance(v, SeqV):
            off = z3.IntVal(0)
            for kind, x in v.segs:
                ln = z3.IntVal(1) if kind == "one" else x.n
                if self.ctx.branch(z3.And(i >= off, i < off + ln)):
                    return x if kind == "one" else x.at(z3.simplify(i - off))
                off = z3.simplify(off + ln)
            raise PyRaise(IndexError("list index out of range"))
        if isinstance(v, (list, tuple)):
            for j, x in enumerate(v):
                if self.ctx.branch(i == j):
                    return x
            raise PyRaise(IndexError("list index out of range"))
        raise Unsupported(f"element of {v!r}")

    def segs(self, v):
        if isinstance(v, (SeqV, list)):
            self.note_read(v, "[]")
        if isinstance(v, SList):
            return [("many", v)]
        if isinstance(v, SeqV):
            return list(v.segs)
        if isinstance(v, (list, tuple)):
            return [("one", x) for x in v]
        raise Unsupported(f"a list is needed, not {v!r}")

    def pyclass(self, v):
        """the class of a value, or None when it is not known"""
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, Rope):
            return str
        if isinstance(v, (SList, SeqV)):
            return getattr(v, "pytype", list)
        if isinstance(v, SMap):
            return dict
        if isinstance(v, SElem):
            return v.store.cls
        if isinstance(v, Opaque):
            return v.cls
        if hasattr(v, "pyver_class"):
            return v.pyver_class
        return type(v)

    def isinstance_(self, v, cls):
        v = self.resolve(v)
        if isinstance(cls, (tuple, list)):
            r = False
            for c in cls:
                x = self.isinstance_(v, c)
                if x is True:
                    return True
                if isinstance(x, SBool):
                    r = x if r is False else SBool(z3.Or(r.e, x.e))
            return r
        cls = self.resolve(cls)
        if not isinstance(cls, type):
            if isinstance(cls, types.GenericAlias) or True:
                raise Unsupported(f"isinstance with {cls!r}")
        if hasattr(v, "sym_isinstance"):
            return v.sym_isinstance(self, cls)
        if isinstance(v, Hole):
            if v.cls is not None and issubclass(v.cls, cls):
                return True
            if any(issubclass(cls, e) for e in v.exclude):
                return False
            if v.cls is not None and not issubclass(cls, v.cls) and not issubclass(v.cls, cls) and not _related(v.cls, cls):
                return False
            if v.cls is not None and not issubclass(cls, v.cls) and not _related(v.cls, cls):
                return False
            known = v.family.fields.get("isa")
            x = known(cls, *v.idx) if known is not None else None
            if x is not None:
                return mkbool(x)
            raise Unsupported(f"is {v!r} a {cls.__name__}?")
        c = self.pyclass(v)
        if c is None:
            raise Unsupported(f"is {v!r} a {cls.__name__}?")
        return issubclass(c, cls)

    def same(self, a, b):
        """a == b as bool or SBool"""
        a, b = self.resolve(a), self.resolve(b)
        if hasattr(a, "sym_eq"):
            return a.sym_eq(self, b)
        if hasattr(b, "sym_eq"):
            return b.sym_eq(self, a)
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            if is_int(a) and is_int(b):
                return mkbool(zi(a) == zi(b))
            if isinstance(a, SYMBOLIC) and isinstance(b, SYMBOLIC) and not (is_int(a) or is_int(b)):
                raise Unsupported(f"{a!r} == {b!r}")
            return False
        if isinstance(a, Rope) or isinstance(b, Rope):
            if is_str(a) and is_str(b):
                if repr(a) == repr(b):
                    return True
                return mkbool(zs(a) == zs(b))
            if isinstance(a, (Opaque,)) or isinstance(b, (Opaque,)):
                raise Unsupported(f"{a!r} == {b!r}")
            return False
        if isinstance(a, (Hole, SElem)) and isinstance(b, (Hole, SElem)):
            if isinstance(a, Hole) and isinstance(b, Hole) and a.key() == b.key():
                return True
            if isinstance(a, SElem) and isinstance(b, SElem) and a.store is b.store:
                return mkbool(a.idx == b.idx)
            if isinstance(a, Hole) and isinstance(b, Hole) and a.cls is not None and b.cls is not None and a.cls.__eq__ is object.__eq__ and b.cls.__eq__ is object.__eq__:
                # the nodes of a tree are distinct objects
                if a.name != b.name or len(a.idx) != len(b.idx):
                    return False
                return mkbool(z3.And(*[x == y for x, y in zip(a.idx, b.idx)]))
            raise Unsupported(f"{a!r} == {b!r}")
        if isinstance(a, SYMBOLIC) or isinstance(b, SYMBOLIC):
            if a is b:
                return True
            if a is None or b is None:
                return False
            if isinstance(a, (Hole, SElem)) or isinstance(b, (Hole, SElem)):
                return False
            raise Unsupported(f"{a!r} == {b!r}")
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and not (concrete(a) and concrete(b)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                e = self.same(x, y)
                if e is False:
                    return False
                if isinstance(e, SBool):
                    r = e if r is True else SBool(z3.And(r.e, e.e))
            return r
        return a == b

    def is_(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool) or isinstance(a, type) or isinstance(b, type):
            if isinstance(a, SBool) or isinstance(b, SBool):
                return self.same(a, b)
            return a is b
        if isinstance(a, SElem) and isinstance(b, SElem):
            return self.same(a, b)
        if isinstance(a, Hole) and isinstance(b, Hole):
            return self.same(a, b)
        return a is b

    # -- attributes ----------------------------------------------------------
    def get_attr(self, v, name, default=_MISSING):
        v = self.resolve(v)
        try:
            return self._get_attr(v, name)
        except PyRaise as e:
            if default is not _MISSING and issubclass(e.cls, AttributeError):
                return default
            raise

    def no_attr(self, v, name):
        c = self.pyclass(v)
        raise PyRaise(AttributeError(f"'{c.__name__ if c else v}' object has no attribute '{name}'"))

    def _get_attr(self, v, name):
        if hasattr(v, "sym_getattr"):
            return v.sym_getattr(self, name)
        if isinstance(v, Super):
            mro = self.pyclass(v.obj).__mro__ if not isinstance(v.obj, type) else v.obj.__mro__
            for c in mro[mro.index(v.cls) + 1:]:
                if name in c.__dict__:
                    return self.bind(c.__dict__[name], v.obj, c)
            self.no_attr(v.obj, name)
        if isinstance(v, (Rope, SList, SeqV, SMap, SInt)):
            return SymMethod(v, name)
        if isinstance(v, SElem):
            st = v.store
            self.note_read(st, name)
            base = _MISSING
            ups = st.updates.get(name, ())
            for u in reversed(ups):
                if u[0] == "one":
                    if self.ctx.branch(v.idx == u[1]):
                        return u[2]
                else:  # for all k in range with guard
                    _, k, n, guards, val = u
                    g = [z3.substitute(x, (k, v.idx)) for x in guards]
                    if self.ctx.branch(z3.And(v.idx >= 0, v.idx < n, *g)):
                        return subst(val, k, v.idx)
            if name in st.fields:
                key = (name, z3.simplify(v.idx).sexpr())
                if key not in st.cache:
                    st.cache[key] = st.fields[name](v.idx)
                base = st.cache[key]
            if base is not _MISSING:
                return base
            return self.class_attr(v, name, st.cls)
        if isinstance(v, Hole):
            key = (name,) + v.key()
            if key in v.family.sets:
                self.note_read(v.family.sets, key)
                return v.family.sets[key]
            a = v.family.get(name, v)
            if a is not _NONE:
                return a
            if v.cls is not None:
                return self.upper_attr(v, name)
            raise Unsupported(f"attribute {name} of {v!r}")
        if isinstance(v, Opaque):
            self.note_read(v.attrs, name)
            if name in v.attrs:
                return v.attrs[name]
            if v.cls is not None:
                return self.upper_attr(v, name)
            raise Unsupported(f"attribute {name} of {v!r}")
        if isinstance(v, (types.ModuleType, type)):
            if isinstance(v, type):
                a = inspect.getattr_static(v, name, _MISSING)
                if isinstance(a, (classmethod, staticmethod)):
                    return self.bind(a, v, v)
            try:
                return getattr(v, name)
            except AttributeError as e:
                raise PyRaise(e)
        if isinstance(v, (Method, Closure, SymMethod)):
            raise Unsupported(f"attribute {name} of a method")
        d = getattr(v, "__dict__", None)
        if d is not None and not isinstance(v, (types.FunctionType,)):
            if name == "__class__":
                return type(v)
            if name in d and not isinstance(inspect.getattr_static(type(v), name, None), property):
                self.note_read(d, name)
                return d[name]
            self.note_read(d, name)
            return self.class_attr(v, name, type(v))
        if isinstance(v, (list, dict, set)) and name in ("append", "extend", "insert", "pop", "remove", "sort", "update", "items",
                                                         "values", "keys", "get", "setdefault", "add", "index", "clear", "reverse"):
            return SymMethod(v, name)
        if isinstance(v, str):
            return SymMethod(v, name)
        try:
            return getattr(v, name)
        except AttributeError as e:
            raise PyRaise(e)

    def upper_attr(self, v, name):
        """an attribute of an object of which only a base class is known"""
        if name == "__class__":
            raise Unsupported(f"class of {v!r}")
        if inspect.getattr_static(v.cls, name, _MISSING) is _MISSING:
            raise Unsupported(f"attribute {name} of {v!r}")
        if not (isinstance(v, Hole) and (v.kind, name) in self.contracts):
            for c in subclasses(v.cls):
                if name in c.__dict__:
                    raise Unsupported(f"attribute {name} of {v!r}, which may be a {c.__name__}")
        return self.class_attr(v, name, v.cls)

    def class_attr(self, v, name, cls):
        if name == "__class__":
            return cls
        a = inspect.getattr_static(cls, name, _MISSING)
        if a is _MISSING:
            self.no_attr(v, name)
        return self.bind(a, v, cls)

    def bind(self, a, v, cls):
        if isinstance(a, types.FunctionType):
            return Method(a, v)
        if isinstance(a, property):
            return self.call(Method(a.fget, v), [], {})
        if isinstance(a, staticmethod):
            return a.__func__
        if isinstance(a, classmethod):
            c = v if isinstance(v, type) else self.pyclass(v)
            return Method(a.__func__, c)
        if isinstance(a, (types.GetSetDescriptorType, types.MemberDescriptorType, types.WrapperDescriptorType, types.MethodDescriptorType, types.ClassMethodDescriptorType)):
            if not isinstance(v, SYMBOLIC):
                return a.__get__(v, cls)
            raise Unsupported(f"attribute {a!r} of {v!r}")
        return a

    # -- calls ---------------------------------------------------------------
    def call(self, f, args, kwargs):
        f = self.resolve(f)
        if hasattr(f, "sym_call"):
            return f.sym_call(self, args, kwargs)
        if isinstance(f, SymMethod):
            return self.sym_method(f.obj, f.name, args, kwargs)
        if isinstance(f, Closure):
            return self.run_closure(f, args, kwargs)
        if isinstance(f, types.MethodType):
            f = Method(f.__func__, f.__self__)
        if isinstance(f, Method):
            fn, args = f.func, [f.obj] + list(args)
            if isinstance(fn, types.FunctionType):
                return self.call_function(fn, args, kwargs)
            f = fn
        h = BUILTINS.get(f) if isinstance(f, types.FunctionType) else None
        if h is not None:
            return h(self, *args, **kwargs)
        if isinstance(f, types.FunctionType):
            return self.call_function(f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        h = BUILTINS.get(f) if _hashable(f) else None
        if h is not None:
            return h(self, *args, **kwargs)
        if isinstance(f, Opaque):
            raise Unsupported(f"call of {f!r}")
        return self.native(f, args, kwargs)

    def native(self, f, args, kwargs):
        name = getattr(f, "__qualname__", repr(f))
        mod = getattr(f, "__module__", None)
        c = self.contracts.get(f"{mod}.{name}") or self.contracts.get(name)
        if c is not None:
            self.by_contract.add(name)
            return c(self, *args, **kwargs)
        args = [self.resolve(a) for a in args]
        if not all(concrete(a) for a in args) or not all(concrete(a) for a in kwargs.values()):
            raise Unsupported(f"call of {name} with symbolic arguments")
        if not _pure_native(f):
            raise Unsupported(f"call of {name}, whose effects are unknown")
        try:
            return f(*args, **kwargs)
        except Exception as e:
            raise PyRaise(e)

    def call_function(self, fn, args, kwargs):
        mod = fn.__module__ or ""
        q = fn.__qualname__
        args = list(args)
        recv = args[0] if args else None
        if isinstance(recv, (Hole,)) and (recv.kind, fn.__name__) in self.contracts:
            self.by_contract.add(f"{recv.kind}.{fn.__name__}")
            return self.contracts[(recv.kind, fn.__name__)](self, *args, **kwargs)
        c = self.contracts.get(q) or self.contracts.get(f"{mod}.{q}")
        if c is not None:
            self.by_contract.add(q)
            return c(self, *args, **kwargs)
        if mod.split(".")[0] != self.package and not getattr(fn, "pyver_inline", False):
            return self.native(fn, args, kwargs)
        return self.inline(fn, args, kwargs)

    def inline(self, fn, args, kwargs):
        node = tree_of(fn.__code__)
        self.used.add(fn.__qualname__)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("too deep")
        closure = {}
        if fn.__closure__:
            for n, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    closure[n] = cell.cell_contents
                except ValueError:
                    pass
        fr = Frame(fn, fn.__qualname__, {}, fn.__globals__, closure)
        self.bind_args(node.args, fn.__defaults__ or (), fn.__kwdefaults__ or {}, args, kwargs, fr.loc, fn.__qualname__)
        try:
            return self.run_body(node, fr)
        finally:
            self.depth -= 1

    def run_closure(self, c, args, kwargs):
        fr = Frame(None, c.frame.name + ".<inner>", {}, c.frame.globs, c.env, c.frame)
        defaults = [self.eval(d, c.frame) for d in c.node.args.defaults]
        self.bind_args(c.node.args, defaults, {}, args, kwargs, fr.loc, "inner")
        self.depth += 1
        try:
            return self.run_body(c.node, fr)
        finally:
            self.depth -= 1

    def run_body(self, node, fr):
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, fr)
        for n in ast.walk(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global)):
                raise Unsupported("generators")
        try:
            self.block(node.body, fr)
        except ReturnEx as r:
            return r.value
        return None

    def bind_args(self, a, defaults, kwdefaults, args, kwargs, loc, name):
        params = [p.arg for p in a.posonlyargs + a.args]
        args, kwargs = list(args), dict(kwargs)
        if len(args) > len(params) and not a.vararg:
            raise PyRaise(TypeError(f"{name}() takes {len(params)} arguments but {len(args)} were given"))
        for p, v in zip(params, args):
            if p in kwargs:
                raise PyRaise(TypeError(f"{name}() got multiple values for argument '{p}'"))
            loc[p] = v
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(params):])
        for i, p in enumerate(params):
            if p not in loc:
                if p in kwargs:
                    loc[p] = kwargs.pop(p)
                else:
                    j = i - (len(params) - len(defaults))
                    if j < 0:
                        raise PyRaise(TypeError(f"{name}() missing argument '{p}'"))
                    loc[p] = defaults[j]
        for i, p in enumerate(a.kwonlyargs):
            if p.arg in kwargs:
                loc[p.arg] = kwargs.pop(p.arg)
            elif p.arg in kwdefaults:
                loc[p.arg] = kwdefaults[p.arg]
            else:
                raise PyRaise(TypeError(f"{name}() missing argument '{p.arg}'"))
        if a.kwarg:
            loc[a.kwarg.arg] = kwargs
        elif kwargs:
            raise PyRaise(TypeError(f"{name}() got an unexpected keyword argument '{list(kwargs)[0]}'"))

    def instantiate(self, cls, args, kwargs):
        h = BUILTINS.get(cls)
        if h is not None:
            return h(self, *args, **kwargs)
        q = cls.__qualname__
        c = self.contracts.get(q)
        if c is not None:
            self.by_contract.add(q)
            return c(self, *args, **kwargs)
        if issubclass(cls, BaseException):
            init = inspect.getattr_static(cls, "__init__", None)
            obj = cls.__new__(cls)
            if isinstance(init, types.FunctionType) and init.__module__.split(".")[0] == self.package:
                try:
                    self.inline(init, [obj] + list(args), kwargs)
                except Unsupported:
                    obj.args = ("?",)
            else:
                obj.args = tuple(args)
            return obj
        if cls.__module__.split(".")[0] != self.package and not getattr(cls, "pyver_inline", False):
            return self.native(cls, args, kwargs)
        if isinstance(cls, type) and cls.__new__ is not object.__new__:
            return self.native(cls, args, kwargs)
        obj = self.born(object.__new__(cls))
        init = inspect.getattr_static(cls, "__init__", None)
        if isinstance(init, types.FunctionType):
            self.call_function(init, [obj] + list(args), kwargs)
        elif args or kwargs:
            raise PyRaise(TypeError(f"{cls.__name__}() takes no arguments"))
        return obj

    # -- statements ----------------------------------------------------------
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("too many steps")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, fr)

    def s_Expr(self, s, fr):
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value else None)

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise PyRaise(AssertionError())

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            fr.loc[t.id] = self.aug(s.op, cur, self.eval(s.value, fr))
        elif isinstance(t, ast.Attribute):
            o = self.resolve(self.eval(t.value, fr))
            cur = self.get_attr(o, t.attr)
            self.set_attr(o, t.attr, self.aug(s.op, cur, self.eval(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.resolve(self.eval(t.value, fr))
            i = self.eval(t.slice, fr)
            self.set_item(o, i, self.aug(s.op, self.subscript(o, i), self.eval(s.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def aug(self, op, cur, v):
        cur = self.resolve(cur)
        if isinstance(op, ast.Add) and isinstance(cur, (list, SeqV, SList)):
            v = self.resolve(v)
            if isinstance(cur, list) and isinstance(v, (list, tuple)):
                self.list_change(cur, appends=True)
                cur.extend(v)
                return cur
            if isinstance(cur, SeqV):
                self.journal.append(("segs", cur, list(cur.segs)))
                self.note_write(cur, "[]")
                cur.segs = list(cur.segs) + self.segs(v)
                return cur
            if isinstance(cur, SList):
                raise Unsupported("list changed in place")
            if isinstance(cur, list) and isinstance(v, (SList, SeqV)) and not self.reads:
                # from here on it is a list of unknown length
                new = SeqV([("one", x) for x in cur] + self.segs(v))
                self.grown[id(cur)] = (cur, new)
                self.journal.append(("call", lambda: self.grown.pop(id(cur), None), cur))
                self.note_write(cur, "[]")
                return cur
            raise Unsupported("list += list of unknown length")
        return self.binop(op, cur, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.loc[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.resolve(self.eval(t.value, fr)), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.set_item(self.resolve(self.eval(t.value, fr)), self.resolve(self.eval(t.slice, fr)), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.resolve(v)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred target")
            if isinstance(v, (SList, SeqV)):
                n = self.length(v)
                if not self.ctx.branch(n == len(t.elts)):
                    raise PyRaise(ValueError("wrong number of values to unpack"))
                v = [self.index(v, z3.IntVal(i)) for i in range(len(t.elts))]
            if not isinstance(v, (tuple, list, str)):
                raise Unsupported(f"unpacking of {v!r}")
            if len(v) != len(t.elts):
                raise PyRaise(ValueError("wrong number of values to unpack"))
            for x, y in zip(t.elts, v):
                self.assign(x, y, fr)
        else:
            raise Unsupported("assignment target")

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.resolve(self.eval(t.value, fr))
                i = self.resolve(self.eval(t.slice, fr))
                if isinstance(o, dict):
                    if i not in o:
                        raise PyRaise(KeyError(i))
                    self.journal.append(("dict", o, i, o[i]))
                    self.note_write(o, "[]")
                    del o[i]
                elif hasattr(o, "sym_delitem"):
                    o.sym_delitem(self, i)
                else:
                    raise Unsupported("del")
            elif isinstance(t, ast.Name):
                fr.loc.pop(t.id, None)
            else:
                raise Unsupported("del")

    def s_If(self, s, fr):
        self.block(s.body if self.truth(self.eval(s.test, fr)) else s.orelse, fr)

    def s_Raise(self, s, fr):
        if s.exc is None:
            e = getattr(self, "handling", None)
            if e is None:
                raise Unsupported("re-raise")
            raise PyRaise(e)
        e = self.resolve(self.eval(s.exc, fr))
        if s.cause:
            self.eval(s.cause, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.instantiate(e, [], {})
        if not isinstance(e, BaseException):
            raise Unsupported(f"raise {e!r}")
        raise PyRaise(e)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as r:
                for h in s.handlers:
                    cls = self.eval(h.type, fr) if h.type else BaseException
                    cls = tuple(cls) if isinstance(cls, (tuple, list)) else (cls,)
                    if issubclass(r.cls, cls):
                        if h.name:
                            fr.loc[h.name] = r.exc
                        old = getattr(self, "handling", None)
                        self.handling = r.exc
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.handling = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.block(s.finalbody, fr)
            raise
        self.block(s.finalbody, fr)

    def s_Import(self, s, fr):
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                fr.loc[a.asname] = m
            else:
                fr.loc[a.name.split(".")[0]] = importlib.import_module(a.name.split(".")[0])

    def s_ImportFrom(self, s, fr):
        base = importlib.import_module("." * s.level + (s.module or ""), fr.globs.get("__package__")) if s.level else importlib.import_module(s.module)
        for a in s.names:
            try:
                v = getattr(base, a.name)
            except AttributeError:
                v = importlib.import_module(base.__name__ + "." + a.name)
            fr.loc[a.asname or a.name] = v

    def s_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported("decorated inner function")
        env = dict(fr.closure)
        fr.loc[s.name] = Closure(s, _Env(fr), fr)

    def s_With(self, s, fr):
        exits = []
        for it in s.items:
            v = self.resolve(self.eval(it.context_expr, fr))
            enter = self.get_attr(v, "__enter__")
            exits.append(v)
            r = self.call(enter, [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, fr)
        try:
            self.block(s.body, fr)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            for v in reversed(exits):
                self.call(self.get_attr(v, "__exit__"), [None, None, None], {})
            raise
        for v in reversed(exits):
            self.call(self.get_attr(v, "__exit__"), [None, None, None], {})

    # -- loops ---------------------------------------------------------------
    def loop_no(self, s, fr):
        if fr.func is None:
            return None
        node = tree_of(fr.func.__code__)
        loops = [n for n in ast.walk(node) if isinstance(n, (ast.While, ast.For))]
        loops.sort(key=lambda n: (n.lineno, n.col_offset))
        return loops.index(s)

    def s_While(self, s, fr):
        i = self.loop_no(s, fr)
        lc = self.loops.get((fr.name, "while", i)) or self.loops.get((fr.name, "while")) or self.loops.get(("*", "while"))
        from .maps import UNROLL
        if lc is not None and UNROLL["on"]:
            for k in range(UNROLL["limit"] + 1):
                lc.ghost(self, z3.IntVal(k))
                if not self.truth(self.eval(s.test, fr)):
                    self.block(s.orelse, fr)
                    return
                try:
                    self.block(s.body, fr)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            raise PathEnd()
        if lc is None:
            # concrete unrolling
            for _ in range(200):
                n = len(self.ctx.taken)
                t = self.truth(self.eval(s.test, fr))
                if len(self.ctx.taken) != n and _ > 12:
                    raise Unsupported(f"loop of {fr.name} without an invariant")
                if not t:
                    self.block(s.orelse, fr)
                    return
                try:
                    self.block(s.body, fr)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            raise Unsupported(f"loop of {fr.name} without an invariant")
        lc.stmt = s
        lc.enter(self, fr)
        lc.havoc(self, fr)
        if not self.truth(self.eval(s.test, fr)):
            self.block(s.orelse, fr)
            return
        lc.begin(self, fr)
        try:
            self.block(s.body, fr)
        except BreakEx:
            return
        except ContinueEx:
            pass
        lc.end(self, fr)
        raise PathEnd()

    def s_For(self, s, fr):
        it = self.resolve(self.eval(s.iter, fr))
        lc = (self.loops.get((fr.name, "for", self.loop_no(s, fr))) or self.loops.get((fr.name, "for"))) if fr.func else None
        if lc is not None:
            return lc.run(self, s, fr, it)
        self.for_each(s, fr, it)

    def for_each(self, s, fr, it):
        vals = self.iterate(it)
        for kind, x in vals:
            if kind == "one":
                self.assign(s.target, x, fr)
                try:
                    self.block(s.body, fr)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            else:
                if self.symbolic_loop(s, fr, x) == "break":
                    return
        self.block(s.orelse, fr)

    def iterate(self, it):
        """the elements of an iterable: [("one", v) | ("many", SList)]"""
        it = self.resolve(it)
        if isinstance(it, (SList, SeqV)):
            return self.segs(it)
        if isinstance(it, Rope):
            raise Unsupported("iteration over a symbolic text")
        if hasattr(it, "sym_iter"):
            return it.sym_iter(self)
        if isinstance(it, (Opaque, Hole, SElem, SMap)):
            raise Unsupported(f"iteration over {it!r}")
        if isinstance(it, dict):
            return [("one", x) for x in list(it)]
        try:
            return [("one", x) for x in it]
        except TypeError as e:
            raise PyRaise(e)

    def symbolic_loop(self, s, fr, lst):
        """summarise 'for target in lst: body' for a list of unknown length"""
        k = fresh("k")
        n = lst.n
        names = sorted({x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                       | {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)})
        before = {v: fr.loc[v] for v in names if v in fr.loc}
        entry = dict(fr.loc)
        summary_key = len(self.journal)

        def body():
            for v in names:
                if v in before:
                    b = before[v]
                    fr.loc[v] = Rope([Acc(v)]) if is_str(b) else Poison(f"{v} carried over from one iteration to the next")
                else:
                    fr.loc.pop(v, None)
            out, self.out = self.out, []
            eff, self.effects = self.effects, []
            mark = len(self.journal)
            try:
                self.assign(s.target, lst.at(k), fr)
                kind, val = "next", None
                try:
                    self.block(s.body, fr)
                except ContinueEx:
                    pass
                except BreakEx:
                    kind = "break"
                except ReturnEx as r:
                    kind, val = "return", r.value
                except PyRaise as r:
                    kind, val = "raise", r.exc
                loc = {v: fr.loc.get(v, _MISSING) for v in names}
                changed = self.effects_since(mark)
                return kind, val, loc, self.out, changed, self.effects
            finally:
                self.out, self.effects = out, eff
                fr.loc.clear()
                fr.loc.update(entry)

        inst = [z3.And(k >= 0, k < n)]
        for fk, fn, cond in self.facts:
            inst.append(z3.Implies(z3.And(k >= 0, k < fn), z3.substitute(cond, (fk, k))))
        self.reads.append(({}, {}))
        first = _fresh[0]
        paths = self.nested(body, inst)
        reads, writes = self.reads.pop()
        if not paths:
            return None
        # what is written may not have been read from another iteration
        alts, stop = [], []
        for sub, (kind, val, loc, out, changed, eff) in paths:
            g = sub.local
            if kind in ("next",):
                alts.append((g, loc, out, changed, eff))
            else:
                stop.append((g, kind, val, out, changed))
        for key, obj in writes.items():
            if key in reads and not self.harmless(key, obj, alts):
                raise Unsupported(f"loop of {fr.name}: {key[1]} read and written by different iterations")
        if stop:
            goes = z3.Or(*[close(z3.And(*g) if g else z3.BoolVal(True), first, k) for g, *_ in alts]) if alts else z3.BoolVal(False)
            c = self.ctx.decide(len(stop) + 1, f"loop of {fr.name} stops")
            if c < len(stop):
                g, kind, val, out, changed = stop[c]
                k0 = fresh("k")
                cond = z3.And(k0 >= 0, k0 < n, *[z3.substitute(x, (k, k0)) for x in g])
                if not self.ctx.feasible(cond):
                    raise Infeasible()
                self.ctx.assume(cond)
                self.facts.append((k, k0, goes))
                self.ctx.first = getattr(self.ctx, "first", []) + [(k, k0, goes)]
                if kind == "raise":
                    raise PyRaise(val)
                if alts and any(a[2] or a[3] for a in alts):
                    raise Unsupported("a loop with effects that stops early")
                if out or changed:
                    raise Unsupported("a loop with effects that stops early")
                self.assign(s.target, subst_any(lst.at(k), k, k0), fr)
                if kind == "return":
                    raise ReturnEx(subst_any(val, k, k0))
                return "break"
            if not alts and not self.ctx.feasible(n <= 0):
                raise Infeasible()
            self.facts.append((k, n, goes))
            # none of the iterations stops; at least make sure that is possible
            if not self.ctx.feasible():
                raise Infeasible()
        self.apply_loop(fr, names, before, k, n, alts, first)
        return None

    def harmless(self, key, obj, alts):
        """written and read, but every path leaves it as it was"""
        for g, loc, out, changed, eff in alts:
            for c in changed:
                if c[0] in ("attr", "elem") and key in ((id(c[1]), c[2]), (id(c[1]), "[]")):
                    return False
                if c[0] in ("list", "segs") and (id(c[1]), "[]") == key:
                    return False
        return True

    def effects_since(self, mark):
        """the net changes of the heap since a mark"""
        out, seen = [], set()
        for e in self.journal[mark:]:
            if e[0] == "dict":
                _, d, name, old = e
                key = ("d", id(d), name)
                if key in seen:
                    continue
                seen.add(key)
                new = d.get(name, _MISSING)
                if new is old or (not isinstance(new, SYMBOLIC) and not isinstance(old, SYMBOLIC) and type(new) is type(old) and isinstance(new, (int, str)) and new == old):
                    continue
                if isinstance(new, SInt) and isinstance(old, SInt) and z3.simplify(new.e - old.e).eq(z3.IntVal(0)):
                    continue
                out.append(("attr", d, name, old, new))
            elif e[0] == "upd":
                key = ("u", id(e[1]), e[2])
                if key in seen:
                    continue
                seen.add(key)
                out.append(("elem", e[1], e[2], e[3], list(e[1].updates.get(e[2], []))))
            elif e[0] == "list":
                key = ("l", id(e[1]))
                if key in seen:
                    continue
                seen.add(key)
                out.append(("list", e[1], list(e[2]), list(e[1]), all(x[0] != "not appended" or x[1] is not e[1] for x in self.journal[mark:])))
            elif e[0] == "segs":
                key = ("s", id(e[1]))
                if key in seen:
                    continue
                seen.add(key)
                out.append(("segs", e[1], list(e[2]), list(e[1].segs)))
            elif e[0] == "call":
                out.append(("call", e))
        return out

    def apply_loop(self, fr, names, before, k, n, alts, first=0):
        # emitted items
        if any(out for _, _, out, _, _ in alts):
            self.out.append(ForEach(k, n, [(g, out) for g, _, out, _, _ in alts]))
        if any(eff for *_, eff in alts):
            self.effects.append(ForEach(k, n, [(g, eff) for g, *_, eff in alts]))
        # locals
        for v in names:
            if v not in before:
                fr.loc[v] = Poison(f"{v} after a loop")
                continue
            ends = [loc[v] for _, loc, _, _, _ in alts]
            if is_str(before[v]) and all(isinstance(x, Rope) and x.parts and isinstance(x.parts[0], Acc) and x.parts[0].name == v
                                         and not any(isinstance(p, Acc) for p in x.parts[1:]) for x in ends):
                ropes = [(g, Rope(x.parts[1:])) for (g, *_), x in zip(alts, ends)]
                if all(not r.parts for _, r in ropes):
                    fr.loc[v] = before[v]
                elif len(ropes) == 1:
                    fr.loc[v] = mkstr(Rope([before[v], Many(k, n, ropes[0][1])]))
                else:
                    fr.loc[v] = mkstr(Rope([before[v], Many(k, n, None, alts=ropes)]))
            elif all(isinstance(x, Poison) and x.why.startswith(v + " carried") for x in ends):
                fr.loc[v] = before[v]
            elif len(alts) == 1 and not alts[0][0] and isinstance(ends[0], (str, Rope)) and not carried(ends[0]):
                # assigned anew by every iteration: the value of the last one
                fr.loc[v] = subst_any(ends[0], k, n - 1) if self.ctx.branch(n > 0, "any iterations") else before[v]
            else:
                fr.loc[v] = Poison(f"{v} after a loop")
        # heap
        keys = {}
        for ai, (g, _, _, changed, _) in enumerate(alts):
            for c in changed:
                keys.setdefault((c[0], id(c[1]), c[2] if c[0] in ("attr", "elem") else None), []).append((ai, g, c))
        for (kind, _, name), cs in keys.items():
            if kind == "elem":
                st = cs[0][2][1]
                old = cs[0][2][3]
                new = list(old)
                for ai, g, c in cs:
                    added = c[4][len(c[3]):]
                    for a in added:
                        if a[0] != "one" or not z3.simplify(a[1] - k).eq(z3.IntVal(0)):
                            raise Unsupported(f"{name} of other elements set in a loop")
                        new.append(("all", k, n, list(g), a[2]))
                self.journal.append(("upd", st, name, old))
                self.note_write(st, name)
                st.updates[name] = new
            elif kind == "list":
                obj = cs[0][2][1]
                if len(cs) != len(alts) or not all(c[4] for _, _, c in cs) or not same_growth([(c[2], c[3]) for _, _, c in cs]):
                    if self.contracts.get("filtered lists") and self.grow_filtered(obj, cs, k, n, first):
                        continue
                    # its contents are unknown from here on
                    self.unknown_lists[id(obj)] = obj
                    self.journal.append(("call", lambda obj=obj: self.unknown_lists.pop(id(obj), None), obj))
                    self.note_write(obj, "[]")
                    continue
                c = cs[0][2]
                added = c[3][len(c[2]):]
                if len(c[3]) < len(c[2]) or any(x is not y for x, y in zip(c[2], c[3])):
                    raise Unsupported("a list changed in a loop")
                if len(added) != 1:
                    raise GrowList()
                # from here on it is a list of unknown length
                val = added[0]
                new = SeqV([("one", x) for x in c[2]] + [("many", SList(f"grown{len(c[2])}", n, lambda i, val=val: subst_any(val, k, i)))])
                self.grown[id(obj)] = (obj, new)
                self.journal.append(("call", lambda obj=obj: self.grown.pop(id(obj), None), obj))
                self.note_write(obj, "[]")
            elif kind == "segs":
                obj = cs[0][2][1]
                if len(cs) != len(alts) or not same_growth([(c[2], c[3]) for _, _, c in cs]):
                    raise Unsupported("a list that grows in some iterations")
                c = cs[0][2]
                if len(c[3]) != len(c[2]) + 1 or c[3][-1][0] != "one":
                    raise Unsupported("a list changed in a loop")
                val = c[3][-1][1]
                self.journal.append(("segs", obj, c[2]))
                self.note_write(obj, "[]")
                obj.segs = list(c[2]) + [("many", SList(f"grown{len(c[2])}", n, lambda i, val=val: subst_any(val, k, i)))]
            elif kind == "attr":
                h = self.contracts.get("loop:" + str(name))
                if h is not None and h(self, cs, k, n, alts):
                    continue
                raise Unsupported(f"{name} changed in a loop")
            else:
                raise Unsupported("effects of a loop")

    def grow_filtered(self, obj, cs, k, n, first):
        """some iterations append one value"""
        good = []
        for _, g, c in cs:
            old, new = c[2], c[3]
            if not c[4] or len(new) != len(old) + 1 or any(x is not y for x, y in zip(old, new)):
                return False
            good.append((list(g), new[-1]))
        old = cs[0][2][2]
        new = SeqV([("one", x) for x in old] + [("many", self.filtered(SList("range", n, lambda i: SInt(i)), k, good, first))])
        self.grown[id(obj)] = (obj, new)
        self.journal.append(("call", lambda obj=obj: self.grown.pop(id(obj), None), obj))
        self.note_write(obj, "[]")
        return True

    def nested(self, body, base):
        """all paths of body(), each undone afterwards"""
        pending, out = [[]], []
        outer = self.ctx
        facts = self.facts
        while pending:
            if len(out) > 400:
                raise Unsupported("too many paths in a loop")
            sub = Ctx(pending.pop(), outer.constraints() + list(base))
            sub.outer = outer
            self.ctx = sub
            self.facts = list(facts)
            mark = len(self.journal)
            try:
                r = body()
                if sub.feasible():
                    out.append((sub, r))
            except (Infeasible, PathEnd):
                pass
            finally:
                self.undo(mark)
                self.ctx = outer
                self.facts = facts
            pending += sub.alts
        return out

    # -- expressions -----------------------------------------------------------
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp)):
            return self.born(m(e, fr))
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        if e.id in fr.loc:
            v = fr.loc[e.id]
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        if e.id in fr.closure:
            return fr.closure[e.id]
        if e.id in fr.globs:
            return fr.globs[e.id]
        if hasattr(builtins, e.id):
            return getattr(builtins, e.id)
        raise PyRaise(NameError(e.id))

    def e_Attribute(self, e, fr):
        return self.get_attr(self.eval(e.value, fr), e.attr)

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            cls = fr.closure["__class__"]
            first = tree_of(fr.func.__code__).args.args[0].arg
            return Super(cls, fr.loc[first])
        f = self.eval(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.resolve(self.eval(a.value, fr))
                if not isinstance(v, (list, tuple)):
                    raise Unsupported("*args of unknown length")
                args += list(v)
            else:
                args.append(self.eval(a, fr))
        for kw in e.keywords:
            if kw.arg is None:
                v = self.resolve(self.eval(kw.value, fr))
                if not isinstance(v, dict):
                    raise Unsupported("**kwargs")
                kwargs.update(v)
            else:
                kwargs[kw.arg] = self.eval(kw.value, fr)
        return self.call(f, args, kwargs)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                if v.format_spec is not None:
                    raise Unsupported("format specification")
                x = self.eval(v.value, fr)
                parts.append(self.to_str(x) if v.conversion in (-1, 115) else self.to_repr(x))
        return mkstr(Rope(parts))

    def to_str(self, v):
        v = self.resolve(v)
        if isinstance(v, (str, Rope)):
            return v
        if isinstance(v, SInt):
            return Rope([IntText(v.e)])
        if isinstance(v, (Hole, SElem, SList, SeqV, SMap, SBool)):
            return Rope([Atom(z3.String(f"str({v!r})"), what=f"str of {v!r}")])
        if hasattr(v, "sym_str"):
            return v.sym_str(self)
        if isinstance(v, Opaque):
            return Rope([Atom(z3.String(f"str({v!r})"), what=f"str of {v!r}")])
        if not concrete(v):
            c = type(v)
            s = inspect.getattr_static(c, "__str__", None)
            if isinstance(s, types.FunctionType) and c.__module__.split(".")[0] == self.package:
                return self.call(Method(s, v), [], {})
            return Rope([Atom(z3.String(f"str(object {c.__name__})"), what=c.__name__)])
        try:
            return str(v)
        except Exception as ex:
            raise PyRaise(ex)

    def to_repr(self, v):
        v = self.resolve(v)
        if isinstance(v, SYMBOLIC) or not concrete(v):
            return Rope([Atom(z3.String(f"repr({v!r})"), what="repr")])
        return repr(v)

    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return False if isinstance(v, SBool) else 0 if isinstance(v, SInt) else v
            if isinstance(e.op, ast.Or) and t:
                return True if isinstance(v, SBool) else v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.resolve(self.eval(e.operand, fr))
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return mkbool(z3.Not(v.e))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return mkint(-zi(v)) if isinstance(v, (SInt, SBool)) else -v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            if is_int(a) and is_int(b):
                x, y = zi(a), zi(b)
                if isinstance(op, ast.Add):
                    return mkint(x + y)
                if isinstance(op, ast.Sub):
                    return mkint(x - y)
                if isinstance(op, ast.Mult):
                    return mkint(x * y)
                if isinstance(op, (ast.FloorDiv, ast.Mod)) and self.ctx.valid(y > 0):
                    return mkint(x / y if isinstance(op, ast.FloorDiv) else x % y)
                raise Unsupported("integer operator")
            if isinstance(op, ast.Mult):
                s, m = (a, b) if is_int(b) else (b, a)
                if isinstance(s, str):
                    if not s.strip(" "):
                        return Rope([Atom(z3.String(f"spaces({zi(m).sexpr()})"), what="spaces", safe=False)])
                if isinstance(s, list) and len(s) == 1:
                    v = s[0]
                    return SList("repeated", zi(m), lambda i: v)
            raise Unsupported(f"{a!r} {type(op).__name__} {b!r}")
        if is_str(a) and is_str(b) and isinstance(op, ast.Add):
            return mkstr(Rope([a, b]))
        if isinstance(op, ast.Div) and hasattr(a, "sym_truediv"):
            return a.sym_truediv(self, b)
        if isinstance(op, ast.Add):
            if hasattr(a, "sym_add"):
                return a.sym_add(self, b, False)
            if hasattr(b, "sym_add"):
                return b.sym_add(self, a, True)
        if isinstance(a, str) and isinstance(op, ast.Mod) and not concrete(b):
            return self.percent(a, b)
        if isinstance(a, Rope) or isinstance(b, Rope):
            if is_str(a) and is_str(b):
                raise Unsupported("operator on texts")
            if isinstance(op, ast.Add):
                raise PyRaise(TypeError("can only concatenate str"))
            raise Unsupported("operator on texts")
        if isinstance(op, ast.Add) and (isinstance(a, (SList, SeqV)) or isinstance(b, (SList, SeqV))):
            return SeqV(self.segs(a) + self.segs(b))
        if isinstance(a, SYMBOLIC) or isinstance(b, SYMBOLIC):
            raise Unsupported(f"{a!r} {type(op).__name__} {b!r}")
        f = BIN.get(type(op))
        if f is None:
            raise Unsupported("operator")
        try:
            return f(a, b)
        except Exception as ex:
            raise PyRaise(ex)

    def format_(self, text, args, kwargs):
        import string
        out, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(text):
            out.append(lit)
            if field is None:
                continue
            if spec or conv or not (field == "" or field.isdigit() or field.isidentifier()):
                raise Unsupported("format")
            if field.isidentifier():
                if field not in kwargs:
                    raise PyRaise(KeyError(field))
                v = kwargs[field]
            else:
                i = int(field) if field else auto
                auto += not field
                if i >= len(args):
                    raise PyRaise(IndexError("Replacement index out of range"))
                v = args[i]
            out.append(self.to_str(v))
        return mkstr(Rope(out))

    def percent(self, text, vals):
        """text % values: %s and %d only"""
        import re
        vals = list(vals) if isinstance(vals, tuple) else [vals]
        parts = re.split(r"%(.)", text)
        out = [parts[0]]
        for kind, rest in zip(parts[1::2], parts[2::2]):
            if kind == "%":
                out += ["%", rest]
                continue
            if kind not in "sd" or not vals:
                raise Unsupported("formatting with %")
            v = self.resolve(vals.pop(0))
            if kind == "d" and not is_int(v):
                raise Unsupported("formatting with %d")
            out += [self.to_str(v), rest]
        if vals:
            raise PyRaise(TypeError("not all arguments converted during string formatting"))
        return mkstr(Rope(out))

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(op, ast.Eq):
            return self.same(a, b)
        if isinstance(op, ast.NotEq):
            c = self.same(a, b)
            return mkbool(z3.Not(c.e)) if isinstance(c, SBool) else not c
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            c = self.is_(a, b)
            return mkbool(z3.Not(c.e)) if isinstance(c, SBool) else not c
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                return mkbool(z3.Not(c.e)) if isinstance(c, SBool) else not c
            return c
        if is_int(a) and is_int(b):
            x, y = zi(a), zi(b)
            r = {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
            return mkbool(r)
        if isinstance(a, SYMBOLIC) or isinstance(b, SYMBOLIC):
            raise Unsupported(f"comparison of {a!r} and {b!r}")
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
        try:
            return f(a, b)
        except Exception as ex:
            raise PyRaise(ex)

    def contains(self, c, v):
        if hasattr(c, "sym_contains"):
            return c.sym_contains(self, v)
        if is_str(c):
            if not is_str(v):
                raise Unsupported("in a text")
            if isinstance(c, str) and isinstance(v, str):
                return v in c
            return mkbool(z3.Contains(zs(c), zs(v)))
        if isinstance(c, SMap):
            if c.has is None:
                raise Unsupported("membership")
            return c.has(self, v)
        if isinstance(c, (dict, set, list, tuple, frozenset, range)) or hasattr(c, "keys"):
            if isinstance(v, (str, int, type, type(None))) and concrete(list(c)):
                return v in c
            if isinstance(v, (Rope, SInt)) and concrete(list(c)):
                opts = [self.same(v, x) for x in c]
                if any(o is True for o in opts):
                    return True
                es = [o.e for o in opts if isinstance(o, SBool)]
                return mkbool(z3.Or(*es)) if es else False
            r = False
            for x in c:
                s = self.same(x, v)
                if s is True:
                    return True
                if isinstance(s, SBool):
                    r = s if r is False else SBool(z3.Or(r.e, s.e))
            return r
        if isinstance(c, (SList, SeqV)):
            return self.among(c, v)
        raise Unsupported(f"membership in {c!r}")

    def among(self, c, v):
        """some element of a list of unknown length is equal to the value"""
        es = []
        for kind, x in c.segs if isinstance(c, SeqV) else [("many", c)]:
            if kind == "one":
                s = self.same(x, v)
                if s is True:
                    return True
                if isinstance(s, SBool):
                    es.append(s.e)
                continue
            k = fresh("k")
            e = x.at(k)
            if not (is_str(e) and is_str(v) or is_int(e) and is_int(v)):
                raise Unsupported(f"membership in {c!r}")
            es.append(z3.Exists([k], z3.And(k >= 0, k < (x.n if z3.is_expr(x.n) else z3.IntVal(x.n)), zs(e) == zs(v) if is_str(e) else zi(e) == zi(v))))
        return mkbool(z3.Or(*es)) if es else False

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        fr.loc[e.target.id] = v
        return v

    def e_Lambda(self, e, fr):
        return Closure(e, _Env(fr), fr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e, fr))

    def e_List(self, e, fr):
        return self.elts(e, fr)

    def e_Set(self, e, fr):
        return set(self.elts(e, fr))

    def elts(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.resolve(self.eval(x.value, fr))
                if not isinstance(v, (list, tuple)):
                    raise Unsupported("* of a list of unknown length")
                out += list(v)
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("** in a dictionary")
            kk = self.resolve(self.eval(k, fr))
            if isinstance(kk, Rope) or isinstance(kk, SInt):
                raise Unsupported("symbolic key")
            d[kk] = self.eval(v, fr)
        return d

    def e_Slice(self, e, fr):
        return slice(*[self.eval(x, fr) if x else None for x in (e.lower, e.upper, e.step)])

    def e_Subscript(self, e, fr):
        return self.subscript(self.eval(e.value, fr), self.eval(e.slice, fr))

    def subscript(self, o, i):
        o, i = self.resolve(o), self.resolve(i)
        if hasattr(o, "sym_getitem"):
            return o.sym_getitem(self, i)
        if isinstance(i, slice):
            return self.slice(o, i)
        if isinstance(o, (SList, SeqV)):
            if not is_int(i):
                raise Unsupported("index")
            n = self.length(o)
            x = zi(i)
            if self.ctx.branch(x < 0):
                x = z3.simplify(x + n)
            return self.index(o, x)
        if isinstance(o, SMap):
            return o.get(self, i)
        if isinstance(o, dict):
            self.note_read(o, "[]")
            if isinstance(i, Rope):
                for kx in o:
                    if self.truth(self.same(i, kx)):
                        return o[kx]
                raise PyRaise(KeyError("?"))
            if isinstance(i, SInt):
                for kx in o:
                    if self.truth(self.same(i, kx)):
                        return o[kx]
                raise PyRaise(KeyError("?"))
            try:
                return o[i]
            except KeyError as ex:
                raise PyRaise(ex)
        if isinstance(o, (list, tuple)) and isinstance(i, SInt):
            for j in range(len(o)):
                if self.ctx.branch(i.e == j):
                    return o[j]
            raise PyRaise(IndexError("list index out of range"))
        if isinstance(o, str) and isinstance(i, SInt):
            if self.ctx.branch(i.e < 0):
                i = SInt(i.e + len(o))
            for j in range(len(o)):
                if self.ctx.branch(i.e == j):
                    return o[j]
            raise PyRaise(IndexError("string index out of range"))
        if isinstance(o, Rope):
            raise Unsupported("character of a symbolic text")
        if isinstance(o, SYMBOLIC) or isinstance(i, SYMBOLIC):
            raise Unsupported(f"{o!r}[{i!r}]")
        if isinstance(o, (list, tuple)):
            self.note_read(o, "[]")
        try:
            return o[i]
        except Exception as ex:
            raise PyRaise(ex)

    def slice(self, o, s):
        a, b, st = (self.resolve(x) for x in (s.start, s.stop, s.step))
        if not isinstance(o, (SList, SeqV, Rope)) and not any(isinstance(x, SInt) for x in (a, b, st)):
            try:
                return o[a:b:st]
            except Exception as ex:
                raise PyRaise(ex)
        if isinstance(o, Rope) or (isinstance(o, str)):
            if st not in (None, 1):
                raise Unsupported("step in a symbolic text")
            if isinstance(o, Rope) and isinstance(o.parts[0], str) and isinstance(a, int) and 0 <= a <= len(o.parts[0]) and b is None:
                return mkstr(Rope([o.parts[0][a:], *o.parts[1:]]))
            if isinstance(o, Rope) and isinstance(o.parts[0], str) and isinstance(b, int) and 0 <= b <= len(o.parts[0]) and (a is None or isinstance(a, int) and a >= 0):
                return o.parts[0][a:b]
            z = zs(o)
            n = z3.Length(z)
            lo = self.clamp(a, n, z3.IntVal(0))
            hi = self.clamp(b, n, n)
            e = z3.simplify(z3.SubString(z, lo, z3.If(hi > lo, hi - lo, z3.IntVal(0))))
            return mkstr(Rope([Atom(e)]))
        if isinstance(o, (list, tuple)):
            o = SeqV([("one", x) for x in o])
        segs = self.segs(o)
        if a is None and b is None and st == -1:
            out = []
            for kind, x in reversed(segs):
                if kind == "one":
                    out.append((kind, x))
                else:
                    out.append((kind, SList(x.name + "~", x.n, lambda i, x=x: x.at(x.n - 1 - i))))
            return SeqV(out)
        if st not in (None, 1):
            raise Unsupported("slice step")
        n = self.length(o)
        lo = self.clamp(a, n, z3.IntVal(0))
        hi = self.clamp(b, n, n)
        out, off = [], z3.IntVal(0)
        for kind, x in segs:
            ln = z3.IntVal(1) if kind == "one" else x.n
            if kind == "one":
                if self.ctx.branch(z3.And(off >= lo, off < hi)):
                    out.append((kind, x))
            else:
                s0 = self.ctx_if(lo > off, z3.simplify(lo - off), z3.IntVal(0))
                s1 = self.ctx_if(hi < off + ln, z3.simplify(hi - off), ln)
                if self.ctx.branch(s1 > s0):
                    out.append((kind, SList(x.name + "[:]", z3.simplify(s1 - s0), lambda i, x=x, s0=s0: x.at(i + s0))))
            off = z3.simplify(off + ln)
        return SeqV(out)

    def ctx_if(self, c, a, b):
        return a if self.ctx.branch(c) else b

    def clamp(self, v, n, default):
        if v is None:
            return default
        x = zi(v)
        if self.ctx.branch(x < 0):
            x = z3.simplify(x + n)
            if self.ctx.branch(x < 0):
                return z3.IntVal(0)
            return x
        if self.ctx.branch(x > n):
            return n
        return x

    # comprehensions
    def e_ListComp(self, e, fr):
        return self.comp(e, fr)

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr)

    def e_SetComp(self, e, fr):
        v = self.comp(e, fr)
        return set(v)

    def e_DictComp(self, e, fr):
        pairs = self.comp(ast.copy_location(ast.ListComp(ast.Tuple([e.key, e.value], ast.Load()), e.generators), e), fr)
        return self.dict_of(pairs)

    def dict_of(self, pairs):
        """a dictionary of pairs; of unknown number if they are made from the keys of a dictionary, one for each"""
        segs = self.iterate(pairs)
        if all(k == "one" for k, _ in segs):
            d = {}
            for _, x in segs:
                k, v = self.iterate_known(x)
                k = self.resolve(k)
                if not concrete(k):
                    raise Unsupported("dictionary with unknown keys")
                d[k] = v
            return d
        from .maps import MapV, of_pairs
        lst = segs[0][1]
        src = getattr(lst, "source", None)
        if segs[0][0] == "many" and (len(segs) > 1 or src is None) and all(k == "one" for k, _ in segs[1:]):
            m = of_pairs(self, lst)
            for _, x in segs[1:]:
                kx, v = self.iterate_known(x)
                m.layers.append(("set", m.key(self.resolve(kx)), v))
            return m
        if len(segs) != 1 or src is None:
            raise Unsupported("dictionary of unknown size")
        n, key, pos = src.enumeration(self)
        j = fresh("j")
        k = self.resolve(lst.at(j)[0])
        same = zs(k) if is_str(k) else zi(k)
        if same.sort() != src.sort or not self.ctx.valid(z3.Implies(z3.And(j >= 0, j < n), same == key(j))):
            raise Unsupported("dictionary with keys made from those of another")

        def get(x):
            if src.lazy:
                src.at_key(self, x)
            return lst.at(pos(x))[1]
        return MapV(f"of {src.name}", src.has, get, sort=src.sort)

    def iterate_known(self, x):
        x = self.resolve(x)
        if isinstance(x, (tuple, list)) and len(x) == 2:
            return x
        raise Unsupported("pairs of a dictionary")

    def comp(self, e, fr):
        inner = Frame(fr.func, fr.name, dict(fr.loc), fr.globs, fr.closure, fr.parent)
        res = []
        self.comp_gen(e, 0, inner, res)
        if all(k == "one" for k, _ in res):
            return [x for _, x in res]
        return SeqV(res)

    def comp_gen(self, e, gi, fr, res):
        g = e.generators[gi]
        it = self.iterate(self.eval(g.iter, fr))
        for kind, x in it:
            if kind == "one":
                self.assign(g.target, x, fr)
                if all(self.truth(self.eval(c, fr)) for c in g.ifs):
                    if gi + 1 < len(e.generators):
                        self.comp_gen(e, gi + 1, fr, res)
                    else:
                        res.append(("one", self.eval(e.elt, fr)))
                continue
            if gi + 1 < len(e.generators):
                raise Unsupported("nested comprehension over a list of unknown length")
            res.append(("many", self.comp_many(e, g, fr, x)))

    def comp_many(self, e, g, fr, x):
        k = fresh("k")
        save = dict(fr.loc)

        def body():
            out, self.out = self.out, []
            mark = len(self.journal)
            try:
                self.assign(g.target, x.at(k), fr)
                for c in g.ifs:
                    if not self.truth(self.eval(c, fr)):
                        return "skip", None
                try:
                    v = self.eval(e.elt, fr)
                except PyRaise as r:
                    return "raise", r.exc
                if self.out or self.effects_since(mark):
                    raise Unsupported("effects in a comprehension")
                return "value", v
            finally:
                self.out = out
                fr.loc.clear()
                fr.loc.update(save)

        return self.elements(x, k, body)

    def elements(self, x, k, body):
        """the list of what body() gives for element k of x"""
        inst = [z3.And(k >= 0, k < x.n)]
        for fk, fn, cond in self.facts:
            inst.append(z3.Implies(z3.And(k >= 0, k < fn), z3.substitute(cond, (fk, k))))
        first = _fresh[0]
        paths = self.nested(body, inst)
        bad = [(s, r) for s, r in paths if r[0] == "raise"]
        if bad:
            conds = [z3.And(*s.local) if s.local else z3.BoolVal(True) for s, _ in bad]
            if self.ctx.decide(2, "comprehension raises") == 0:
                k0 = fresh("k")
                self.ctx.assume(z3.And(k0 >= 0, k0 < x.n, z3.substitute(z3.Or(*conds), (k, k0))))
                if not self.ctx.feasible():
                    raise Infeasible()
                raise PyRaise(bad[0][1][1])
            self.facts.append((k, x.n, z3.Not(z3.Or(*conds))))
        if any(r[0] == "skip" for _, r in paths):
            if any(r[0] == "value" for _, r in paths):
                return self.filtered(x, k, [(s.local, r[1]) for s, r in paths if r[0] == "value"], first)
            return SList("none", z3.IntVal(0), lambda i: None)
        good = [(s.local, r[1]) for s, r in paths if r[0] == "value"]
        if not good:
            return SList("none", z3.IntVal(0), lambda i: None)
        if len(good) == 1:
            v = good[0][1]
            res = SList("comp", x.n, lambda i: subst_any(v, k, i))
            res.source = getattr(x, "source", None)
            return res

        def elem(i):
            alts = [(z3.And(*[z3.substitute(c, (k, i)) for c in g]) if g else z3.BoolVal(True), subst_any(v, k, i)) for g, v in good]
            return OneOf("element", alts)

        res = SList("comp", x.n, elem)
        res.source = getattr(x, "source", None)
        return res

    def filtered(self, x, k, good, first):
        """the elements of x that satisfy a condition, in order"""
        cond = z3.Or(*[z3.And(*g) if g else z3.BoolVal(True) for g, _ in good])
        if not close(cond, first, k).eq(cond):
            raise Unsupported("filtered list of unknown length")
        no = fresh("filter").decl().name()
        I = z3.IntSort()
        m, at, pos = z3.Int(f"size({no})"), z3.Function(f"at {no}", I, I), z3.Function(f"position {no}", I, I)
        i, j = z3.Int("i!flt"), z3.Int("j!flt")
        holds = lambda t: z3.substitute(cond, (k, t))  # noqa: E731
        at_ = lambda j: z3.Implies(z3.And(j >= 0, j < m), z3.And(at(j) >= 0, at(j) < x.n, holds(at(j)), pos(at(j)) == j, at(j) <= at(m - 1), at(j) >= at(0)))  # noqa: E731
        in_ = lambda i: z3.Implies(z3.And(i >= 0, i < x.n, holds(i)), z3.And(pos(i) >= 0, pos(i) < m, at(pos(i)) == i))  # noqa: E731
        order = lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < m), at(i) < at(j))  # noqa: E731
        lazy = self.contracts.get("filtered lists")  # the facts of the positions used only
        for f in (m >= 0, m <= x.n) + (() if lazy else (z3.ForAll([j], at_(j), patterns=[at(j)]), z3.ForAll([i], in_(i), patterns=[pos(i)]),
                                                         z3.ForAll([i, j], order(i, j), patterns=[z3.MultiPattern(at(i), at(j))]))):
            self.ctx.assume(f)

        def elem(t):
            if len(good) == 1:
                return subst_any(good[0][1], k, at(t))
            return OneOf("element", [(z3.And(*[z3.substitute(c, (k, at(t))) for c in g]) if g else z3.BoolVal(True), subst_any(v, k, at(t))) for g, v in good])

        res = SList("filtered", m, elem)
        res.filter = (x, holds, at, pos)
        res.about = at_, in_, order
        return res

    # -- methods of symbolic and mutable built-in values ------------------------
    def sym_method(self, o, name, args, kwargs):
        args = [self.resolve(a) for a in args]
        if isinstance(o, (list, SeqV, SList)):
            return self.list_method(o, name, args)
        if isinstance(o, dict):
            return self.dict_method(o, name, args, kwargs)
        if isinstance(o, set):
            if name == "add" and concrete(args[0]):
                self.journal.append(("call", lambda o=o, old=set(o): (o.clear(), o.update(old)), o))
                o.add(args[0])
                return None
            raise Unsupported(f"set.{name}")
        if is_str(o):
            return self.str_method(o, name, args, kwargs)
        c = self.contracts.get("int." + name) if isinstance(o, SInt) else None
        if c is not None:
            return c(self, o, *args, **kwargs)
        raise Unsupported(f"{name} of {o!r}")

    def list_method(self, o, name, args):
        if name == "append":
            if isinstance(o, list):
                self.list_change(o, appends=True)
                o.append(args[0])
            elif isinstance(o, SeqV):
                self.journal.append(("segs", o, list(o.segs)))
                self.note_write(o, "[]")
                o.segs = list(o.segs) + [("one", args[0])]
            else:
                raise Unsupported("append to a list of unknown length")
            return None
        if name == "extend":
            self.aug(ast.Add(), o, args[0])
            return None
        if name == "pop" and isinstance(o, list) and all(isinstance(a, int) for a in args):
            if not o:
                raise PyRaise(IndexError("pop from empty list"))
            self.list_change(o)
            return o.pop(*args)
        if name == "insert" and isinstance(o, list) and isinstance(args[0], int):
            self.list_change(o)
            o.insert(*args)
            return None
        if name == "index" and isinstance(o, list):
            for i, x in enumerate(o):
                if self.truth(self.same(x, args[0])):
                    return i
            raise PyRaise(ValueError("not in list"))
        raise Unsupported(f"list.{name}")

    def dict_method(self, o, name, args, kwargs):
        if name == "update":
            other = args[0]
            if isinstance(other, dict):
                for kx, v in other.items():
                    self.set_item(o, kx, v)
                return None
            if hasattr(other, "layers"):
                return self.call(self.get_attr(self.grow_dict(o), "update"), [other], {})
            raise Unsupported("update with an unknown dictionary")
        if name == "clear":
            for kx in list(o):
                self.journal.append(("dict", o, kx, o[kx]))
                del o[kx]
            self.note_write(o, "[]")
            return None
        self.note_read(o, "[]")
        if name == "get":
            if isinstance(args[0], (str, int)) or args[0] is None:
                return o.get(*args)
            for kx in o:
                if self.truth(self.same(args[0], kx)):
                    return o[kx]
            return args[1] if len(args) > 1 else None
        if name == "items":
            return list(o.items())
        if name == "values":
            return list(o.values())
        if name == "keys":
            return list(o.keys())
        if name == "pop":
            if args[0] in o:
                v = o[args[0]]
                self.journal.append(("dict", o, args[0], v))
                self.note_write(o, "[]")
                del o[args[0]]
                return v
            if len(args) > 1:
                return args[1]
            raise PyRaise(KeyError(args[0]))
        if name == "setdefault":
            if args[0] not in o:
                self.set_item(o, args[0], args[1] if len(args) > 1 else None)
            return o[args[0]]
        raise Unsupported(f"dict.{name}")

    def str_method(self, o, name, args, kwargs):
        c = self.contracts.get("str." + name)
        if c is not None:
            r = c(self, o, *args, **kwargs)
            if r is not NotImplemented:
                return r
        if name == "join":
            return self.join(o, args[0])
        if isinstance(o, str) and concrete(list(args)) and concrete(list(kwargs.values())):
            try:
                return getattr(o, name)(*args, **kwargs)
            except Exception as ex:
                raise PyRaise(ex)
        if name == "format" and isinstance(o, str):
            return self.format_(o, args, kwargs)
        z = zs(o)
        if name == "startswith" and len(args) == 1:
            opts = args[0] if isinstance(args[0], tuple) else (args[0],)
            r = self.known_prefix(o, opts)
            if r is not None:
                return r
            return mkbool(z3.Or(*[z3.PrefixOf(zs(x), z) for x in opts]))
        if name == "endswith" and len(args) == 1:
            opts = args[0] if isinstance(args[0], tuple) else (args[0],)
            if isinstance(o, Rope) and isinstance(o.parts[-1], str):
                if any(isinstance(x, str) and o.parts[-1].endswith(x) for x in opts):
                    return True
                if all(isinstance(x, str) and len(x) <= len(o.parts[-1]) for x in opts):
                    return False
            return mkbool(z3.Or(*[z3.SuffixOf(zs(x), z) for x in opts]))
        if name == "replace" and len(args) == 2:
            raise Unsupported("replace in a symbolic text")
        if name in ("strip", "rstrip", "lstrip") and isinstance(o, Rope):
            return self.strip(o, name, args)
        if name in ("index", "find") and len(args) == 1 and isinstance(args[0], str) and isinstance(o, Rope) and isinstance(o.parts[0], str) and args[0] in o.parts[0]:
            return o.parts[0].index(args[0])
        if (name == "splitlines" and not args or name == "split" and list(args) == ["\n"]) and isinstance(o, Rope) \
                and all(isinstance(p, (str, IntText)) or isinstance(p, Atom) and p.safe for p in o.parts):
            rows = [[]]
            for p in o.parts:
                if not isinstance(p, str):
                    rows[-1].append(p)
                    continue
                if name == "splitlines" and set(p) & set("\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"):
                    raise Unsupported("line breaks in a symbolic text")
                first, *rest = p.split("\n")
                rows[-1].append(first)
                rows += [[x] for x in rest]
            rows = [mkstr(Rope(r)) for r in rows]
            if name == "splitlines" and isinstance(rows[-1], str) and not rows[-1]:
                rows.pop()
            return rows
        if name == "encode":
            return Opaque("bytes of text", attrs={"text": o})
        raise Unsupported(f"str.{name} of a symbolic text")

    def known_prefix(self, o, opts):
        p = o.parts[0] if isinstance(o, Rope) else o
        if isinstance(p, str) and all(isinstance(x, str) for x in opts):
            if any(p.startswith(x) for x in opts):
                return True
            if all(not x.startswith(p) for x in opts):
                return False
        if isinstance(p, IntText) and all(isinstance(x, str) and x and not (x[0].isdigit() or x[0] == "-") for x in opts):
            return False
        return None

    def strip(self, o, name, args):
        chars = args[0] if args else " \t\n\r\x0b\x0c"
        parts = list(o.parts)
        if name in ("strip", "lstrip"):
            if isinstance(parts[0], str):
                parts[0] = parts[0].lstrip(chars)
                if not parts[0] and not getattr(parts[1] if len(parts) > 1 else None, "safe", True):
                    raise Unsupported("strip of a symbolic text")
            elif not parts[0].safe:
                raise Unsupported("strip of a symbolic text")
        if name in ("strip", "rstrip"):
            if isinstance(parts[-1], str):
                parts[-1] = parts[-1].rstrip(chars)
                if not parts[-1] and not getattr(parts[-2] if len(parts) > 1 else None, "safe", True):
                    raise Unsupported("strip of a symbolic text")
            elif not parts[-1].safe:
                raise Unsupported("strip of a symbolic text")
        return mkstr(Rope(parts))

    def join(self, sep, lst):
        segs = self.iterate(lst)
        parts, first = [], True
        for kind, x in segs:
            if kind == "one":
                x = self.resolve(x)
                if not is_str(x):
                    raise PyRaise(TypeError("sequence item: expected str"))
                if not first:
                    parts.append(sep)
                parts.append(x)
                first = False
            else:
                if len(segs) != 1 and not self.ctx.branch(x.n > 0):
                    continue
                k = fresh("k")
                v = x.at(k)
                if isinstance(v, OneOf) and any(str(k) in str(g) for g, _ in v.alts):
                    alts = [([g], t if isinstance(t, Rope) else Rope([t])) for g, t in v.alts if is_str(t)]
                    if len(alts) != len(v.alts):
                        raise Unsupported("join of non-texts")
                    if not first:
                        parts.append(sep)
                    parts.append(Many(k, x.n, None, glue=sep, alts=alts))
                    first = False
                    continue
                v = self.resolve(v)
                if not is_str(v):
                    raise Unsupported("join of non-texts")
                if not first:
                    parts.append(sep)
                parts.append(Many(k, x.n, v if isinstance(v, Rope) else Rope([v]), glue=sep))
                first = False
        return mkstr(Rope(parts))


def some_text(p):
    """this part of a text is not empty"""
    return isinstance(p, (str, IntText)) or isinstance(p, Atom) and p.safe


def close(c, first, k):
    """the unknowns that came up within an iteration are different in each: exist for each"""
    own, todo, seen = {}, [c], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.eq(k):
            n = x.decl().name().rsplit("!", 1)
            if len(n) == 2 and n[1].isdigit() and int(n[1]) > first:
                own[x.decl().name()] = x
        todo += x.children()
    return z3.Exists(list(own.values()), c) if own else c


def carried(x):
    """does a string contain the accumulated one"""
    for p in getattr(x, "parts", ()):
        if isinstance(p, Acc) or isinstance(p, Many) and (p.rope is None or carried(p.rope) or any(carried(a) for _, a in p.alts or ())):
            return True
    return False


def same_growth(changes):
    """every form of an iteration appends the same"""
    if len(changes) == 1:
        return True
    if not all(len(new) == len(old) + 1 for old, new in changes):
        return False
    last = [new[-1][1] if isinstance(new[-1], tuple) and len(new[-1]) == 2 and new[-1][0] == "one" else new[-1] for _, new in changes]
    return all(isinstance(x, (Hole, Rope, SElem, SInt, str)) for x in last) and len({(type(x), repr(x)) for x in last}) == 1


class GrowList(Unsupported):
    def __init__(self):
        super().__init__("a list grows in a loop over a list of unknown length (give it as SeqV)")


def subst_any(v, k, t):
    if hasattr(v, "subst"):
        return v.subst(k, t)
    if isinstance(v, OneOf):
        alts = v.alts
        if callable(alts):
            raise Unsupported("alternatives that depend on the iteration")
        return OneOf(v.name, [(z3.substitute(a[0], (k, t)), subst_any(a[1], k, t)) if isinstance(a, tuple) and len(a) == 2 and z3.is_expr(a[0]) else a for a in alts])
    if not isinstance(v, SYMBOLIC) and hasattr(v, "__dict__") and not isinstance(v, (type, types.FunctionType, types.ModuleType)):
        if concrete(v):
            return v
        n = object.__new__(type(v))
        for a, x in v.__dict__.items():
            n.__dict__[a] = subst_any(x, k, t)
        return n
    return subst(v, k, t)


class _Env(dict):
    """names visible in an inner function: looked up in the frame when needed"""

    def __init__(self, fr):
        super().__init__()
        self.fr = fr

    def __contains__(self, k):
        return k in self.fr.loc or k in self.fr.closure

    def __getitem__(self, k):
        if k in self.fr.loc:
            return self.fr.loc[k]
        return self.fr.closure[k]


def _related(a, b):
    return any(issubclass(c, a) and issubclass(c, b) for c in _all_sub(a))


def _all_sub(c):
    out, todo = [], [c]
    while todo:
        x = todo.pop()
        out.append(x)
        todo += x.__subclasses__()
    return out


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


PURE_MODULES = {"re", "builtins", "json", "base64", "math", "string", "operator", "typing", "itertools", "functools", "collections", None, "_sre"}


def _pure_native(f):
    m = getattr(f, "__module__", None)
    if f in (open, print, input, exec, eval, setattr, delattr, __import__):
        return False
    if m is None or (m or "").split(".")[0] in PURE_MODULES:
        return True
    s = getattr(f, "__self__", None)
    if isinstance(s, (str, bytes, int, tuple, list, dict, set)) or type(s).__module__ in ("re", "builtins", "_sre"):
        return True
    return (m or "").split(".")[0] in ("Cryptodome",)


# -- builtins -------------------------------------------------------------------
def b_len(ip, v):
    v = ip.resolve(v)
    if isinstance(v, (SList, SeqV, Rope)) or hasattr(v, "sym_len"):
        return mkint(ip.length(v))
    if isinstance(v, SYMBOLIC):
        raise Unsupported(f"len of {v!r}")
    try:
        return len(v)
    except TypeError as e:
        raise PyRaise(e)


def b_isinstance(ip, v, cls):
    return ip.isinstance_(v, cls)


def b_issubclass(ip, a, b):
    return issubclass(a, b)


def b_type(ip, v, *rest):
    if rest:
        raise Unsupported("type with three arguments")
    v = ip.resolve(v)
    if hasattr(v, "sym_type"):
        return v.sym_type(ip)
    if isinstance(v, Hole):
        raise Unsupported(f"type of {v!r}")
    c = ip.pyclass(v)
    if c is None:
        raise Unsupported(f"type of {v!r}")
    return c


def b_getattr(ip, v, name, *default):
    return ip.get_attr(v, name, *default)


def b_hasattr(ip, v, name):
    try:
        ip.get_attr(v, name)
        return True
    except PyRaise as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


def b_setattr(ip, v, name, val):
    if not isinstance(name, str):
        raise Unsupported("setattr")
    ip.set_attr(ip.resolve(v), name, val)


def b_enumerate(ip, it, start=0):
    segs = ip.iterate(it)
    if all(k == "one" for k, _ in segs):
        return [(i + start, x) for i, (_, x) in enumerate(segs)]
    out, off = [], z3.IntVal(start)
    for kind, x in segs:
        if kind == "one":
            out.append((kind, (mkint(off), x)))
            off = z3.simplify(off + 1)
        else:
            out.append((kind, SList("enumerate", x.n, lambda i, x=x, off=off: (mkint(off + i), x.at(i)))))
            off = z3.simplify(off + x.n)
    return SeqV(out)


def b_reversed(ip, it):
    it = ip.resolve(it)
    if isinstance(it, (SList, SeqV)):
        return ip.slice(it, slice(None, None, -1))
    if isinstance(it, dict):
        return list(reversed(it))
    return list(reversed(it))


def b_range(ip, *a):
    a = [ip.resolve(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 3:
        if a[2] == 1:
            a = a[:2]
        elif a[2] == -1:
            lo, hi = zi(a[0]), zi(a[1])
            n = z3.simplify(z3.If(lo > hi, lo - hi, z3.IntVal(0)))
            return SList("range", ip_len(ip, n), lambda i: mkint(lo - i))
        else:
            raise Unsupported("range step")
    lo, hi = (z3.IntVal(0), zi(a[0])) if len(a) == 1 else (zi(a[0]), zi(a[1]))
    n = z3.simplify(hi - lo)
    if not ip.ctx.branch(n > 0):
        return range(0)
    return SList("range", n, lambda i: mkint(lo + i))


def ip_len(ip, n):
    return n


def b_zip(ip, *its):
    segs = [ip.iterate(i) for i in its]
    if all(k == "one" for s in segs for k, _ in s):
        return list(zip(*[[x for _, x in s] for s in segs]))
    if all(len(s) == 1 and s[0][0] == "many" for s in segs):
        ls = [s[0][1] for s in segs]
        n = ls[0].n
        for l in ls[1:]:
            if not ip.ctx.valid(l.n == n):
                n = l.n if ip.ctx.branch(l.n < n) else n
        return SList("zip", n, lambda i: tuple(l.at(i) for l in ls))
    raise Unsupported("zip")


def b_list(ip, it=()):
    it = ip.resolve(it)
    if isinstance(it, (SList, SeqV)):
        return SeqV(ip.segs(it))
    segs = ip.iterate(it)
    if all(k == "one" for k, _ in segs):
        return [x for _, x in segs]
    return SeqV(segs)


def b_tuple(ip, it=()):
    v = b_list(ip, it)
    return tuple(v) if isinstance(v, list) else v


def b_str(ip, v=""):
    return ip.to_str(v)


def b_int(ip, v=0, *base):
    v = ip.resolve(v)
    if isinstance(v, (SInt, SBool)):
        return mkint(zi(v))
    if isinstance(v, Rope):
        if len(v.parts) == 1 and isinstance(v.parts[0], IntText):
            return mkint(v.parts[0].e)
        c = ip.contracts.get("int of text")
        if c is not None:
            return c(ip, v)
        raise Unsupported("int of a symbolic text")
    if isinstance(v, SYMBOLIC):
        raise Unsupported(f"int of {v!r}")
    try:
        return int(v, *base)
    except Exception as e:
        raise PyRaise(e)


def b_bool(ip, v=False):
    return ip.truth(v)


def b_minmax(which):
    def f(ip, *a, **kw):
        if kw:
            raise Unsupported("min/max with key")
        if len(a) == 1:
            segs = ip.iterate(a[0])
            if any(k == "many" for k, _ in segs):
                raise Unsupported("min/max of a list of unknown length")
            a = [x for _, x in segs]
        a = [ip.resolve(x) for x in a]
        if any(isinstance(x, (SInt, SBool)) for x in a):
            r = zi(a[0])
            for x in a[1:]:
                y = zi(x)
                r = z3.If(y > r, y, r) if which is max else z3.If(y < r, y, r)
            return mkint(r)
        if any(isinstance(x, SYMBOLIC) for x in a):
            raise Unsupported("min/max")
        return which(*a) if len(a) > 1 else which(a)

    return f


def b_all(ip, it):
    for kind, x in ip.iterate(it):
        if kind == "one":
            if not ip.truth(x):
                return False
        else:
            k = fresh("k")
            r = quantified(ip, x, k)
            if r is None:
                raise Unsupported("all of a list of unknown length")
            if ip.ctx.decide(2, "all") == 0:
                k0 = fresh("k")
                c = z3.And(k0 >= 0, k0 < x.n, z3.Not(z3.substitute(r, (k, k0))))
                if not ip.ctx.feasible(c):
                    raise Infeasible()
                ip.ctx.assume(c)
                return False
            ip.facts.append((k, x.n, r))
    return True


def quantified(ip, x, k):
    """the truth of element k as a formula"""
    def body():
        return ip.truth(x.at(k))

    paths = ip.nested(body, [k >= 0, k < x.n])
    return z3.Or(*[z3.And(*(s.local or [z3.BoolVal(True)])) for s, r in paths if r]) if any(r for _, r in paths) else z3.BoolVal(False)


def b_any(ip, it):
    for kind, x in ip.iterate(it):
        if kind == "one":
            if ip.truth(x):
                return True
        else:
            k = fresh("k")
            r = quantified(ip, x, k)
            if ip.ctx.decide(2, "any") == 0:
                k0 = fresh("k")
                c = z3.And(k0 >= 0, k0 < x.n, z3.substitute(r, (k, k0)))
                if not ip.ctx.feasible(c):
                    raise Infeasible()
                ip.ctx.assume(c)
                return True
            ip.facts.append((k, x.n, z3.Not(r)))
    return False


def b_map(ip, f, it):
    segs = ip.iterate(it)
    out = []
    for kind, x in segs:
        if kind == "one":
            out.append((kind, ip.call(f, [x], {})))
            continue
        k = fresh("k")

        def body(x=x, k=k):
            save, ip.out = ip.out, []
            mark = len(ip.journal)
            try:
                v = ip.call(f, [x.at(k)], {})
                if ip.out or ip.effects_since(mark):
                    raise Unsupported("effects in map")
                return "value", v
            except PyRaise as r:
                return "raise", r.exc
            finally:
                ip.out = save
        out.append((kind, ip.elements(x, k, body)))
    return [x for _, x in out] if all(k == "one" for k, _ in out) else SeqV(out)


def b_filter(ip, f, it):
    if "filter" in ip.contracts:
        r = ip.contracts["filter"](ip, f, it)
        if r is not NotImplemented:
            return r
    out = []
    for kind, x in ip.iterate(it):
        if kind != "one":
            raise Unsupported("filter of a list of unknown length")
        if ip.truth(x if f is None else ip.call(f, [x], {})):
            out.append(x)
    return out


def b_cast(ip, t, v):
    return v


def b_set(ip, it=()):
    v = b_list(ip, it)
    if not isinstance(v, list) or not concrete(v):
        raise Unsupported("set")
    return set(v)


def b_dict(ip, it=None, **kw):
    d = {}
    if it is not None:
        it = ip.resolve(it)
        if isinstance(it, dict):
            d.update(it)
        elif hasattr(it, "sym_copy"):
            return it.sym_copy(ip)
        else:
            d = ip.dict_of(it)
            if kw and not isinstance(d, dict):
                raise Unsupported("dict of unknown size")
    d.update(kw) if kw else None
    return d


def b_sorted(ip, it, **kw):
    v = b_list(ip, it)
    if not isinstance(v, list) or not concrete(v) or kw:
        raise Unsupported("sorted")
    return sorted(v)


def b_repr(ip, v):
    return ip.to_repr(v)


def b_print(ip, *a, **kw):
    if "print" in ip.contracts:
        return ip.contracts["print"](ip, *a, **kw)
    ip.effects.append(("print", a))


import typing  # noqa: E402



def _new(f):
    return lambda ip, *a, **k: ip.born(f(ip, *a, **k))


BUILTINS = {
    len: b_len, isinstance: b_isinstance, issubclass: b_issubclass, type: b_type, getattr: b_getattr, hasattr: b_hasattr,
    setattr: b_setattr, enumerate: b_enumerate, reversed: b_reversed, range: b_range, zip: b_zip, list: _new(b_list),
    tuple: b_tuple, str: b_str, int: b_int, bool: b_bool, min: b_minmax(min), max: b_minmax(max), all: b_all, any: b_any,
    map: b_map, filter: b_filter, typing.cast: b_cast, set: _new(b_set), dict: _new(b_dict), sorted: _new(b_sorted), repr: b_repr, print: b_print,
}
