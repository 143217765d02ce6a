"""C15: what survives a compilation - frame conditions over the whole source (which places a function may change, read off its text on every run)."""
import ast
import glob
import os

import tealish

from .domain import Refuted  # noqa: F401
from .values import Unsupported

ASSUMPTIONS = [
    "frame conditions: objects change only by assignments, deletions and the mutating methods of lists, dictionaries and sets (closed world over /repo/tealish; "
    "a function called by a name may be any function of that name)",
    "results of textX do not depend on texts parsed before; files and the environment are read when tealish is imported only (langspec.json)"]
MUTATING = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault", "sort", "reverse", "add", "discard", "appendleft", "popleft", "write_text", "move_to_end"}
OUTSIDE = ("cli.py", "build.py")  # no part of a compilation: the command line (C17) and a script
FRESH_CALLS = {"list", "dict", "set", "sorted", "defaultdict", "deque", "Counter", "copy", "groupdict", "split", "bytearray", "reversed", "enumerate",
               "get_current_scope"}  # the last: of the node (nodes and their scopes are made anew by each parse: oc15)
REGISTRY = {"_structs": {"define_struct", "TealishCompiler.parse", "TealishCompiler.process"}}


class Source:
    def __init__(self):
        self.functions, self.classes, self.trees = {}, {}, {}
        for p in sorted(glob.glob(os.path.join(os.path.dirname(tealish.__file__), "*.py"))):
            name = os.path.basename(p)
            if name in OUTSIDE:
                continue
            self.trees[name] = t = ast.parse(open(p).read())
            self.walk(name, t, [], None)
        self.stores = {}  # attribute -> [(where, value or None)]
        for f, q, fn in self.all():
            for s in own(fn):
                for t, v in targets(s):
                    if isinstance(t, ast.Attribute):
                        self.stores.setdefault(t.attr, []).append((q, v))

    def walk(self, file, node, qual, outer):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions.setdefault(c.name, []).append((file, ".".join(qual + [c.name]), c))
                self.walk(file, c, qual + [c.name], c)
            elif isinstance(c, ast.ClassDef):
                self.classes[c.name] = (file, c)
                self.walk(file, c, qual + [c.name], None)
            else:
                self.walk(file, c, qual, outer)

    def all(self):
        for fs in self.functions.values():
            yield from fs

    def globals(self, file):
        out = set()
        for s in self.trees[file].body:
            for t, _ in targets(s):
                if isinstance(t, ast.Name):
                    out.add(t.id)
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                out |= {a.asname or a.name.split(".")[0] for a in s.names}
            if isinstance(s, (ast.If, ast.Try)):
                for x in ast.walk(s):
                    for t, _ in targets(x):
                        if isinstance(t, ast.Name):
                            out.add(t.id)
        return out

    def reachable(self, roots):
        """the functions that may be called from those of these names"""
        seen, todo, out = set(roots), list(roots), {}
        while todo:
            n = todo.pop()
            fs = self.made(n[4:]) if n.startswith("new ") else self.functions.get(n, [])
            for f in fs:
                out[f[1]] = f
                called = {id(c.func) for c in ast.walk(f[2]) if isinstance(c, ast.Call)}
                gl = self.globals(f[0])
                for c in ast.walk(f[2]):
                    new = []
                    if isinstance(c, ast.Name) and c.id in self.functions and any(q.split(".")[0] not in self.classes for _, q, _ in self.functions[c.id]):
                        new.append(c.id)
                    if isinstance(c, ast.Attribute) and c.attr in self.functions and c.attr != "__init__" and not (isinstance(c.value, ast.Name) and c.value.id in gl and c.value.id not in self.classes):
                        if any(q.split(".")[0] in self.classes and (id(c) in called or fn.decorator_list and ast.unparse(fn.decorator_list[0]) == "property") for _, q, fn in self.functions[c.attr]):
                            new.append(c.attr)
                    if isinstance(c, ast.Call) and isinstance(c.func, (ast.Name, ast.Attribute)):
                        y = getattr(c.func, "id", getattr(c.func, "attr", None))
                        if y in self.classes:
                            new.append("new " + y)
                    for y in new:
                        if y not in seen:
                            seen.add(y)
                            todo.append(y)
        return [out[q] for q in sorted(out)]

    def kin(self, name):
        """the class, those it is derived from and those derived from one of them"""
        up = lambda n: {n}.union(*[up(b.id) for b in self.classes[n][1].bases if isinstance(b, ast.Name) and b.id in self.classes]) if n in self.classes else {n}
        mine = up(name)
        return mine | {n for n in self.classes if name in up(n)}

    def made(self, name):
        """the initialisation of a class, its own or that of the classes it is derived from"""
        out, todo = [], [name]
        while todo:
            n = todo.pop()
            if n not in self.classes:
                continue
            out += [f for f in self.functions["__init__"] if f[1] == n + ".__init__"]
            todo += [b.id for b in self.classes[n][1].bases if isinstance(b, ast.Name)]
        return out


def own(fn):
    """the nodes of a function, without those of functions defined in it (they are functions of their own)"""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo += ast.iter_child_nodes(n)


def targets(s):
    """(what is assigned, its value or None) of a statement"""
    def parts(t, v):
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                yield from parts(x, v.elts[i] if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else ast.Constant(0) if v is UNKNOWN_SCALAR else None)
        elif isinstance(t, ast.Starred):
            yield from parts(t.value, ast.List([], ast.Load()))
        else:
            yield t, v
    if isinstance(s, ast.Assign):
        for t in s.targets:
            yield from parts(t, s.value)
    elif isinstance(s, ast.AnnAssign):
        if s.value is not None:
            yield from parts(s.target, s.value)
    elif isinstance(s, ast.AugAssign):
        yield s.target, s
    elif isinstance(s, (ast.For, ast.comprehension)):
        yield from parts(s.target, None)
    elif isinstance(s, ast.With):
        for i in s.items:
            if i.optional_vars is not None:
                yield from parts(i.optional_vars, None)
    elif isinstance(s, ast.NamedExpr):
        yield s.target, s.value
    elif isinstance(s, ast.Delete):
        for t in s.targets:
            yield t, None


UNKNOWN_SCALAR = object()


def immutable(v):
    return isinstance(v, (ast.Constant, ast.JoinedStr, ast.Compare, ast.BoolOp, ast.UnaryOp)) and not (isinstance(v, ast.BoolOp) and not all(map(immutable, v.values)))


class Frame:
    def __init__(self, src):
        self.src, self.count = src, 0

    def fresh(self, v, fn, depth=0):
        """the value is an object made here, which nothing else refers to (or one that cannot change)"""
        if v is None or depth > 4:
            return False
        if immutable(v) or isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
            return True
        if isinstance(v, ast.BinOp):
            return True  # a sum, a repetition: a new object
        if isinstance(v, ast.IfExp):
            return self.fresh(v.body, fn, depth + 1) and self.fresh(v.orelse, fn, depth + 1)
        if isinstance(v, ast.BoolOp):
            return all(self.fresh(x, fn, depth + 1) for x in v.values)
        if isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Slice):
            return True
        if isinstance(v, ast.Call):
            n = v.func.attr if isinstance(v.func, ast.Attribute) else v.func.id if isinstance(v.func, ast.Name) else ""
            return n in FRESH_CALLS or n in self.src.classes or n == "cls"
        if isinstance(v, ast.Name) and fn is not None:
            return self.local(v.id, fn, depth + 1)
        return False

    def local(self, name, fn, depth=0):
        """every value the name gets in the function is fresh"""
        a = fn.args
        if name in {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}:
            return False
        vs = [v for s in own(fn) for t, v in targets(s) if isinstance(t, ast.Name) and t.id == name]
        return bool(vs) and all(isinstance(v, ast.AugAssign) or self.fresh(v, fn, depth) for v in vs)

    def attribute(self, attr, where, own_object):
        """the attribute is of the object alone: what it is given is fresh wherever that is, and no class has it"""
        for n, (f, c) in self.src.classes.items():
            for s in c.body:
                for t, v in targets(s):
                    if isinstance(t, ast.Name) and t.id == attr and not immutable(v):
                        raise Unsupported(f"{where} changes {attr}, which is an attribute of the class {n}")
        ss = self.src.stores.get(attr, [])
        if not ss:
            raise Unsupported(f"{where} changes {attr}, which is given nowhere")
        kin = self.src.kin(where.split(".")[0]) if own_object else None
        for q, v in ss:
            if kin is not None and "." in q and q.split(".")[0] not in kin and q.split(".")[0] in self.src.classes:
                continue
            fn = next(fn for _, qq, fn in self.src.all() if qq == q)
            if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self":
                if v.attr != attr:
                    self.attribute(v.attr, q, True)
                continue
            if not (isinstance(v, ast.AugAssign) or self.fresh(v, fn) or self.handed(v, q)):
                raise Unsupported(f"{where} changes {attr}, which {q} gives something that may be shared")

    def handed(self, v, q):
        """what the compiler takes from its writer (one for each compilation), and the source map of a TealishMap"""
        return q == "TealishCompiler.compile" and ast.unparse(v) in ("self.writer.source_map", "self.writer.output")

    def may_change(self, e, fn, where, file):
        """the object e stands for is changed: it is of this compilation"""
        self.count += 1
        while isinstance(e, ast.Subscript):
            e = e.value
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("setdefault", "get"):
                return self.may_change(e.func.value, fn, where, file)
            if self.fresh(e, fn):
                return
        if isinstance(e, ast.Name):
            if any(e.id == n and where in q for n, q in REGISTRY.items()):
                return
            if self.local(e.id, fn):
                return
            raise Unsupported(f"{where} changes {e.id}")
        if isinstance(e, ast.Attribute):
            return self.attribute(e.attr, where, isinstance(e.value, ast.Name) and e.value.id == "self")
        if isinstance(e, (ast.List, ast.Dict, ast.Set)):
            return
        raise Unsupported(f"{where} changes {ast.unparse(e)}")


SHARED = ("types.py", "langspec.py", "tealish_builtins.py")  # their objects are shared between programs, except those of StructType


def shared(o):
    """closed world: between compilations nothing stays but the table of structs: functions change no module's objects, no classes, no defaults and no shared objects,
    and use no clock, no chance, no environment and no order of sets"""
    src = Source()
    fr = Frame(src)
    shared_attrs = SHARED_ATTRS(src)
    for file, t in src.trees.items():
        for n in ast.walk(t):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                names = {a.name.split(".")[0] for a in n.names} | ({(n.module or "").split(".")[0]} if isinstance(n, ast.ImportFrom) else set())
                bad = names & {"random", "time", "datetime", "secrets", "uuid", "threading", "multiprocessing", "asyncio", "functools", "weakref", "gc"}
                if bad:
                    raise Unsupported(f"{file} imports {bad}")
    for file, q, fn in src.all():
        for d in fn.args.defaults + fn.args.kw_defaults:
            if d is not None and not immutable(d) and not (isinstance(d, ast.Attribute) or isinstance(d, ast.Name)):
                raise Unsupported(f"{q} has a default that can change")
        for d in fn.decorator_list:
            if ast.unparse(d).split("(")[0] not in ("classmethod", "staticmethod", "property"):
                raise Unsupported(f"{q} is decorated")
        gl = src.globals(file)
        tested = {id(x) for n in ast.walk(fn) if isinstance(n, ast.Compare) and all(isinstance(op, (ast.In, ast.NotIn)) for op in n.ops) for x in n.comparators}
        for n in own(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                raise Unsupported(f"{q} declares {n.names}")
            if isinstance(n, ast.Call):
                name = n.func.id if isinstance(n.func, ast.Name) else None
                if name in ("hash", "id", "vars", "globals", "locals", "exec", "eval", "input", "delattr", "__import__"):
                    raise Unsupported(f"{q} calls {name}")
                if name == "open":
                    raise Unsupported(f"{q} opens a file")
                if name == "setattr" and ast.unparse(n.args[0]) != "self":
                    raise Unsupported(f"{q} sets attributes of {ast.unparse(n.args[0])}")
                if name in ("set", "frozenset"):
                    raise Unsupported(f"{q} makes a set")
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATING and not (n.func.attr == "update" and ast.unparse(n.func.value) in ("scope",) and False):
                    fr.may_change(n.func.value, fn, q, file)
            if isinstance(n, (ast.Set, ast.SetComp)) and id(n) not in tested:
                raise Unsupported(f"{q} makes a set")
            if isinstance(n, ast.Attribute) and ast.unparse(n) in ("os.environ", "sys.argv", "self.__class__", "self.__dict__") and isinstance(getattr(n, "ctx", None), ast.Store):
                raise Unsupported(f"{q} uses {ast.unparse(n)}")
            for t, v in targets(n):
                if isinstance(t, ast.Subscript):
                    fr.may_change(t.value, fn, q, file)
                elif isinstance(t, ast.Attribute):
                    fr.count += 1
                    base = t.value
                    while isinstance(base, (ast.Attribute, ast.Subscript)):
                        if isinstance(base, ast.Attribute) and base.attr in ("__class__", "__dict__"):
                            raise Unsupported(f"{q} changes {ast.unparse(t)}")
                        base = base.value
                    if not isinstance(base, ast.Name) or base.id == "cls" or base.id in src.classes or base.id in gl and not fr.local(base.id, fn):
                        raise Unsupported(f"{q} changes {ast.unparse(t)}")
                    if file in SHARED and not q.endswith(".__init__") and not q.startswith("StructType."):
                        raise Unsupported(f"{q} changes {ast.unparse(t)}, an object of all programs")
                    if base.id != "self" and t.attr in shared_attrs and not (base is t.value and fr.local(base.id, fn)):
                        raise Unsupported(f"{q} changes {ast.unparse(t)}, which may be an object of all programs")
                elif isinstance(t, ast.Name) and isinstance(v, ast.AugAssign) and not immutable(v.value) and not fr.local(t.id, fn) and not scalar(t.id, fn):
                    raise Unsupported(f"{q} adds to {t.id} in place")
    return fr.count


def scalar(name, fn):
    vs = [v for s in own(fn) for t, v in targets(s) if isinstance(t, ast.Name) and t.id == name and not isinstance(v, ast.AugAssign)]
    return any(immutable(v) or isinstance(v, ast.BinOp) or isinstance(v, ast.Call) and getattr(v.func, "attr", getattr(v.func, "id", "")) in ("tealish", "_tealish", "int", "len", "str") for v in vs if v is not None)


def SHARED_ATTRS(src):
    """the attributes of the objects that programs share"""
    out = set()
    for q_attr, ss in src.stores.items():
        for q, _ in ss:
            f = next(f for f, qq, _ in src.all() if qq == q)
            if f in SHARED and q.endswith(".__init__") and not q.startswith(("Var.", "StructField.", "StructType.")):
                out.add(q_attr)
    return out


def leaves(roots, allowed, what):
    def f(o):
        src = Source()
        fr = Frame(src)
        names = src.reachable(roots)
        for file, q, fn in names:
            if q != "Scope.update":  # of the scopes that get_scope makes
                for x in own(fn):
                    es = [t for t, v in targets(x) if isinstance(t, (ast.Attribute, ast.Subscript))]
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATING | {"setattr"}:
                        es.append(ast.Attribute(x.func.value, "!", ast.Store()))
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "delattr"):
                        raise Unsupported(f"{q} sets attributes")
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("teal", "process", "new_scope") and not q.startswith(("TealWriter", "OneLine")):
                        raise Unsupported(f"{q} calls {x.func.attr}")
                    for e in es:
                        fr.count += 1
                        if not allowed(q, e) and not (q.endswith(".__init__") and ast.unparse(e).startswith("self.") or isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and fr.local(e.value.id, fn)
                                                      or isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and fr.local(e.value.id, fn)
                                                      or isinstance(e, ast.Attribute) and e.attr == "!" and isinstance(e.value, ast.Call) and fr.fresh(e.value, fn)):
                            raise Unsupported(f"{q} changes {ast.unparse(e)}")
        if fr.count == 0 and what == "writing":
            raise Unsupported("nothing is written")
        return fr.count + len(names)
    f.__doc__ = f"frame: {what} leaves the nodes, scopes and the compiler as they are"
    return f


def by_writing(q, e):
    t = ast.unparse(e).removesuffix(".!")
    return t.startswith("writer.") or t == "parent._teal" or q.startswith(("TealWriter.", "OneLineTealWriter.")) and t.startswith("self.") or q == "TealishCompiler.write"


OBLIGATIONS = [("closed world: what stays between compilations", shared), ("frame of writing", leaves(["write_teal"], by_writing, "writing")),
               ("frame of printing", leaves(["tealish", "_tealish"], lambda q, e: False, "printing"))]
