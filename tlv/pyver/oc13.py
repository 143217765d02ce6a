"""C13: labels.

Every path of every statement's write is run again (the runs of C01-C09), and its labels and branch
targets are taken from the written lines.  Within one statement each label is defined once, and a
target is a label of the statement itself, or the label of a declared block or function, of the
enclosing loop, or of one of the program's routines.  Between statements labels differ because their
texts tell the number of the conditional, loop or router, and no two of the forms of labels have a
text in common read with different numbers or names (decided exactly, labels.py).
"""
import ast
import importlib
import inspect

import z3

from tealish import nodes
from tealish import scope as scope_mod

from . import domain, labels, oc02, oc08, oc09, regex, sem
from .domain import *  # noqa: F401,F403
from .domain import Event
from .interp import ForEach
from .labels import NUMBER, Template, clash
from .oc02 import BODY, CI, compiler, count, made, outer, with_children
from .sem import Code, Instr, Label, Refuted, Seq
from .values import *  # noqa: F401,F403
from .values import explore

I, STR = z3.IntSort(), z3.StringSort()
RC = z3.Int("router_count")
COUNTERS = {"conditional_index": "conditional", "router_count": "router"}
# labels of other statements: of the block or function found by its name, of the loop around a break
ELSEWHERE = ("label_of", "label(func)", "label of function", "loopend")
OWN = ("blocklabel", "label(func)")
HELPERS = "_itxn_"

# names of blocks and functions: the known findings of C13 are about the others
NAME = regex.both(regex.fullmatch("[a-zA-Z_0-9]+"), regex.neg(regex.cat(regex.ALL, regex.starts("__"))), regex.neg(regex.starts("_")), regex.neg(regex.ends("_")),
                  regex.neg(regex.text("func")), regex.neg(regex.fullmatch("l[0-9]+_.*")), regex.neg(regex.fullmatch("route[0-9]*_.*")))
NAMES = "names without __ and _ at an end, that are not func or of the form of a generated label"


class Bad(Exception):
    pass


def head(t):
    """the name of the only unknown part of a text, or None"""
    if isinstance(t, Rope) and len(t.parts) == 1 and isinstance(t.parts[0], Atom):
        e = t.parts[0].term
        return e.decl().name() if z3.is_app(e) else None
    return None


def constant(t):
    return t if isinstance(t, str) else None


def mentions(e, k):
    return sem._mentions(e, k)


# -- the labels of one path -------------------------------------------------------------
class Def:
    def __init__(self, text, loops, path):
        self.text, self.loops, self.path = text, loops, path

    def __repr__(self):
        return repr(self.text)


class Found:
    def __init__(self, template, what, pinned, where):
        self.template, self.what, self.pinned, self.where = template, what, pinned, where


def definitions(code):
    out = []
    for path, n in code.order:
        if isinstance(n, Label):
            _, loops = code.body(path)
            out.append(Def(n.text, [fe for _, fe, _ in loops], path))
    return out


def targets(code):
    """(target, loops around it, guards)"""
    out = []
    for path, n in code.order:
        if not isinstance(n, Instr) or n.op not in ("b", "bz", "bnz", "callsub", "switch", "match"):
            continue
        _, loops = code.body(path)
        ks = [(fe.k, fe.n) for _, fe, _ in loops]
        facts = [z3.And(k >= 0, k < m) for k, m in ks] + [g for (_, fe, j) in loops for g in (fe.alts[j][0] if len(fe.alts) > 1 else [])]
        if n.op in ("b", "bz", "bnz", "callsub") and len(n.imms) != 1:
            raise Bad(f"{n!r} has {len(n.imms)} targets")
        for t in n.imms:
            if isinstance(t, Many):
                out.append((t.rope, facts + [t.k >= 0, t.k < t.n], n))
            else:
                out.append((t, facts, n))
    return out


def template(d, r):
    """the form of a label, what it tells, and the counter it depends on"""
    told, used = set(), set()
    loops = [fe.k for fe in d.loops]

    def mark(p):
        if isinstance(p, IntText):
            e = z3.simplify(p.e)
            for v, what in COUNTERS.items():
                if e.eq(z3.Int(v)):
                    used.add(what)
                    return NUMBER, what
            for k in loops:
                off = z3.simplify(e - k)
                if not mentions(off, k) and not any(mentions(off, x) for x in loops):
                    told.add(k.sexpr())
                    return NUMBER, "index"
            raise Unsupported(f"the number {e} in the label {d!r}")
        if isinstance(p, Atom) and z3.is_app(p.term) and p.term.decl().name() == oc08.RNAME.name():
            for k in loops:
                if z3.simplify(p.term.arg(0) - k).eq(z3.IntVal(0)):
                    told.add(k.sexpr())
            return NAME, "name"
        raise Unsupported(f"the text {p!r} in the label {d!r}")
    t = labels.of_rope(d.text, mark)
    for fe in d.loops:
        if fe.k.sexpr() not in told and not r.ctx.valid(fe.n <= 1):
            raise Bad(f"the label {d!r} is defined in each round of a loop")
    return t, used


class Labels:
    """the labels of every path"""

    def __init__(self):
        self.n, self.found, self.where = 0, [], ""

    def __call__(self, r):
        code = Code(sem.compile_items(r.ip.out))
        defs, tops = definitions(code), targets(code)
        n = r.value
        self.children(code, r)
        forms = []
        for d in defs:
            self.n += 1
            if head(d.text) in OWN:
                if type(n) not in (nodes.Block, nodes.Func) or repr(d.text) != repr(n.__dict__["label"]):
                    raise Bad(f"the label {d!r} of another statement is defined")
                forms.append((d, None, set()))
                continue
            if constant(d.text) is not None:
                if type(n) is not nodes.Program:
                    raise Bad(f"the label {d!r} does not depend on which {type(n).__name__} it is in")
                forms.append((d, labels.of_rope(d.text, None), {"program"}))
                self.found.append(Found(forms[-1][1], "program", False, self.where))
                continue
            t, used = template(d, r)
            if len(used) > 1:
                raise Unsupported(f"the label {d!r}")
            pinned = False
            if not used:
                for v, what in COUNTERS.items():
                    if r.ctx.valid(z3.Int(v) == 0):
                        used, pinned = {what}, True
            if not used:
                raise Bad(f"the label {d!r} does not depend on which {type(n).__name__} it is in")
            forms.append((d, t, used))
            self.found.append(Found(t, *used, pinned, self.where))
        for i, (a, ta, _) in enumerate(forms):
            for b, tb_, _ in forms[:i]:
                if ta is None or tb_ is None:
                    if repr(a.text) == repr(b.text):
                        raise Bad(f"the label {a!r} is defined twice")
                    continue
                # in alternatives of one loop: never for the same index
                x = clash(ta, tb_, anyway=not self.apart([a.path, b.path]))
                if x is not None:
                    raise Bad(f"{a!r} and {b!r} are both defined, and can be the same label: {x}")
            if ta is not None:
                x = clash(ta, ta)
                if x is not None:
                    raise Bad(f"{a!r} is the same label for different numbers: {x}")
            elif a.loops:
                raise Bad(f"the label {a!r} is defined in each round of a loop")
        for t, facts, ins in tops:
            self.n += 1
            self.target(code, r, n, t, facts, ins)

    def target(self, code, r, n, t, facts, ins):
        h = head(t)
        if h in ELSEWHERE:
            return
        if constant(t) is not None and t.startswith(HELPERS) and type(n) is not nodes.Program:
            self.helper(r, n, t)
            return
        if constant(t) is None and not isinstance(t, Rope):
            raise Unsupported(f"the target {t!r}")
        base = r.facts() + list(facts)
        for ctx, got in explore(lambda ctx: (ctx.feasible(), code.find_label(t, ctx)), 50, base):
            if got[0] and got[1] is None:
                raise Bad(f"the target of {ins!r} is not defined")

    def helper(self, r, n, t):
        """a routine of the program is called where it is there"""
        if type(n) is nodes.InnerGroup:
            return  # a program with an inner group has them: "the routines are there"
        on = getattr(n, "compiler", None)
        on = r.ip.get_attr(on, "use_inner_txns_macro") if on is not None else None
        if not r.ip.truth(on):
            raise Bad(f"{t} is called where the routines may not be part of the program")

    def children(self, code, r):
        """the code of each child is written once"""
        if not r.ip.out:
            return  # only processed
        seen = {}
        for path, x in code.order:
            if isinstance(x, Seq) and x.hole.kind == "stmt":
                seen.setdefault(x.hole.family.name, []).append(("seq", path, x))
            elif isinstance(x, sem.Emit) and getattr(x.hole, "kind", "") == "stmt":
                seen.setdefault(x.hole.family.name, []).append(("one", path, x))
        kids = {}
        self.below(getattr(r.value, "__dict__", {}).get("child_nodes"), kids)
        for name, xs in seen.items():
            if len(xs) > 1 and not self.apart([p for _, p, _ in xs]):
                raise Bad(f"the code of the children {name} is written {len(xs)} times")
        for name, n in kids.items():
            if name not in seen and not r.ctx.valid(n <= 0):
                raise Bad(f"the code of the children {name} is not written")
            for kind, path, x in seen.get(name, ()):
                if kind == "seq" and not mentions_any(n) and not r.ctx.valid(z3.Or(n <= 0, z3.And(x.n == n, x.off == 0))):
                    raise Bad(f"not all children {name} are written: {x!r}")

    def below(self, kids, out):
        for kind, s in kids.segs if isinstance(kids, SeqV) else [("many", kids)] if isinstance(kids, SList) else [("one", k) for k in kids or ()]:
            if kind == "many":
                e = s.elem(z3.Int("k!c"))
                if isinstance(e, Hole):
                    if e.kind == "stmt":
                        out[e.family.name] = s.n
                    continue
                inner = {}
                self.below(getattr(e, "child_nodes", None) if not isinstance(e, SElem) else None, inner)
            elif isinstance(s, Hole):
                if s.kind == "stmt":
                    out[s.family.name] = z3.IntVal(1)
            else:
                self.below(getattr(s, "__dict__", {}).get("child_nodes"), out)

    def apart(self, paths):
        """in alternatives of the same loop, one of which is taken"""
        for i, a in enumerate(paths):
            for b in paths[:i]:
                m = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), None)
                if m is None or m % 2 == 0:
                    return False
        return True


def mentions_any(n):
    return not z3.is_expr(n)


def replay(o, hook, fns):
    bad = []
    domain.MODE["lines"] = hook
    sem.SKIP.append(1)
    try:
        for name, fn, *_ in fns:
            hook.where = name
            try:
                fn(o)
            except Bad as e:
                raise Refuted(f"{name}: {e}")
            except Unsupported as e:
                bad.append(f"{name}: {e}")
            except Refuted as e:
                bad.append(f"{name}: {e} (of another property)")
    finally:
        domain.MODE["lines"] = None
        sem.SKIP.pop()
    if bad:
        raise Unsupported(f"not evaluated: {bad[:3]}")


def for_underscore(o):
    a, b = expr("start", shapes=("single",), arity=lambda: 1), expr("stop", shapes=("single",), arity=lambda: 1)

    def build(ip):
        return compile_node(ip, with_children(made(ip, nodes.For_Statement, start=a(), end=b()), BODY, [a(), b()]))
    return len(runs(o, build, base=[count("body") >= 0]))


ELSEWHERE_PROVED = ("labels of the parts of a conditional", "label and scope of a block")  # here: "labels of the parts of a conditional", "all labels differ"
MODULES = ("oc01", "oc02", "oc03", "oc05", "oc06", "oc07", "oc08", "oc09")


def obligations_of(mod):
    if mod == "for _":
        return [("for _", for_underscore)]
    return [ob for ob in importlib.import_module(f"tlv.pyver.{mod}").OBLIGATIONS if ob[0] not in ELSEWHERE_PROVED]


def statements(mod):
    def f(o):
        hook = Labels()
        replay(o, hook, obligations_of(mod))
        if not hook.n and mod in ("oc01", "oc02", "oc03", "oc08", "oc09", "for _"):
            raise Unsupported("no label is written")
        return max(hook.n, 1)
    return f


def parts_of_conditional(o):
    """the labels given to the parts of a conditional: [Found]"""
    NE = oc02.NE

    def build(ip):
        n = made(ip, nodes.IfStatement, condition=oc02.COND(), modifier=None)
        st = oc02.elif_store()
        n.__dict__["elifs"] = SeqV([("many", SList("elifs", NE, lambda i: SElem(st, i)))])
        ip.contracts["Node.add_child"] = lambda ip, self, x: None
        e, t, x = node(nodes.Elif, label="", next_label=""), node(nodes.IfThen, label="", next_label=""), node(nodes.Else, label="", next_label="")
        for f, a in (("add_if_then", t), ("add_elif", e), ("add_else", x)):
            ip.call(ip.get_attr(n, f), [a], {})
        return n, e, x

    out = []
    for r in runs(o, build, base=[NE >= 0, CI >= 0]):
        if r.kind != "ok":
            raise Unsupported(f"{r.value!r}")
        n, e, x = r.value

        def mark(p):
            if isinstance(p, IntText) and z3.simplify(p.e).eq(CI):
                return NUMBER, "conditional"
            if isinstance(p, IntText) and not mentions(z3.simplify(p.e - NE), NE):
                return NUMBER, "index"
            raise Unsupported(f"the text {p!r} in a label")
        ts = {what: labels.of_rope(v, mark) for what, v in (("elif", e.label), ("else", x.label), ("end", n.end_label))}
        for what, t in ts.items():
            marks = {m for _, m, _, _ in t.nodes}
            if "conditional" not in marks:
                raise Refuted(f"the label {t} does not depend on which conditional it is in")
            if what == "elif" and "index" not in marks:
                raise Refuted(f"the label {t} does not depend on which elif it is of")
            c = clash(t, t)
            if c is not None:
                raise Refuted(f"{t} is the same label for different numbers: {c}")
            for w2, t2 in ts.items():
                if what < w2:
                    c = clash(t, t2, anyway=True)
                    if c is not None:
                        raise Refuted(f"the labels {t} and {t2} of one conditional can be the same: {c}")
            out.append(Found(t, "conditional", False, f"{what} of a conditional"))
    return out


# -- labels of different statements --------------------------------------------------------
def scoped(o):
    """how the labels of blocks and functions are made: [(class, scope is the top, label, name of its scope)]"""
    out = []
    for cls, fields in ((nodes.Block, dict(name=text("n"))), (nodes.Func, dict(name=text("n"), args=Opaque("args"), return_type="", returns=[]))):
        for top in (True, False):
            def build(ip, cls=cls, fields=fields, top=top):
                sc = mk(scope_mod.Scope, name="" if top else text("scope"), parent=None, slots={}, slot_range=(0, 200), consts={}, blocks={}, functions={})
                p = Opaque("parent", cls=nodes.Statement)

                def init(ip, self, line, parent=None, compiler=None):
                    oc02.node_init(**fields)(ip, self, line, parent, compiler)
                    ip.set_attr(self, "current_scope", sc)
                here = lambda ip, self: sc if self is p else ip.get_attr(self, "current_scope")  # noqa: E731
                ip.contracts = {**ip.contracts, "Node.__init__": init, "BaseNode.get_current_scope": here, "Node.get_current_scope": here}
                p.attrs["get_current_scope"] = lambda: sc
                n = ip.call(cls, [text("line", False, "line"), p, compiler()], {})
                return n.label, n.current_scope.name, n.current_scope.parent is sc
            for r in runs(o, build):
                if r.kind != "ok":
                    raise Refuted(f"rejected: {r.value!r}")
                if not r.value[2]:
                    raise Refuted(f"the scope of a {cls.__name__} does not lie in the scope around it")
                if top or r.ctx.feasible(z3.Not(zs(text("scope")) == z3.StringVal(""))):
                    out.append((cls, top, r.value[0], r.value[1]))
    return out


def graph(forms):
    """all labels of blocks and functions, whatever they are nested in, as one template"""
    ns, entries, hub = [], [], []  # hub: nodes at the end of the name of a scope

    def parts(t):
        out = []
        for p in t.parts if isinstance(t, Rope) else (t,):
            if isinstance(p, str):
                out.append((regex.text(p), None))
            elif isinstance(p, Atom) and repr(p) == repr(text("scope").parts[0]):
                out.append("scope")
            elif isinstance(p, Atom) and repr(p) == repr(text("n").parts[0]):
                out.append((NAME, "name"))
            else:
                raise Unsupported(f"the text {p!r} in the label {t!r}")
        return out

    later = []

    def add(t, final, top, is_scope):
        ps = parts(t)
        if ps and ps[0] == "scope":
            ps, from_scope = ps[1:], True
        else:
            from_scope = False
        if "scope" in ps or not ps or top and from_scope:
            raise Unsupported(f"the label {t!r}")
        first = len(ns)
        for i, (r, m) in enumerate(ps):
            last = i + 1 == len(ps)
            ns.append([r, m, [] if last else [first + i + 1], last and final])
        if is_scope:
            hub.append(first + len(ps) - 1)
        if top:
            entries.append(first)
        elif from_scope:
            later.append(first)
        else:
            entries.append(first)  # a label that does not tell its scope
            if final:
                raise Refuted(f"the label {t!r} of a nested block or function does not depend on where it is")
    for cls, top, label, scope in forms:
        add(label, True, top, False)
        if cls is nodes.Block:  # only blocks hold other blocks and functions
            add(scope, False, top, True)
    for h in hub:
        ns[h][2] += later
    return Template([tuple(x) for x in ns], entries, "label of a block or function")


def distinct(o):
    """no two labels of a program are equal"""
    hook = Labels()
    for mod in ("oc02", "oc03", "oc08", "oc09", "for _"):
        replay(o, hook, obligations_of(mod))
    forms = {}
    for f in hook.found:
        forms.setdefault((repr(f.template), f.what, f.pinned), f)
    for f in parts_of_conditional(o):
        forms.setdefault((repr(f.template), f.what, f.pinned), f)
    forms = list(forms.values())
    if not {"conditional", "router", "program"} <= {f.what for f in forms}:
        raise Unsupported("not all forms of labels have been found")
    user = graph(scoped(o))
    c = 0
    x = clash(user, user)
    if x is not None:
        raise Refuted(f"blocks or functions of different places have the same label {x}")
    for i, a in enumerate(forms):
        c += 1
        x = clash(a.template, user, anyway=True)
        if x is not None:
            raise Refuted(f"a label of {a.where} and that of a block or function: {x}")
        for b in forms[:i + 1]:
            if a is b and (a.pinned or a.what == "program"):
                continue  # of one statement: "labels of the statements"
            same = a.what == b.what and not (a.pinned or b.pinned) and a.what != "program"
            if a.what == b.what == "program":
                continue
            x = clash(a.template, b.template, anyway=not same)
            if x is not None:
                raise Refuted(f"labels of different statements ({a.where}; {b.where}) can be the same: {x}")
            c += 1
    return c + 1


# -- numbers --------------------------------------------------------------------------------
def numbers(o):
    """each conditional, loop and router takes the next number"""
    c = 0
    e = expr("e")
    for cls, fields, name, var in ((nodes.IfStatement, dict(condition=e(), modifier=None), "conditional_count", CI), (nodes.WhileStatement, dict(condition=e(), modifier=None), "conditional_count", CI),
                                   (nodes.ForStatement, dict(var_name=text("v"), start=e(), end=e()), "conditional_count", CI), (nodes.For_Statement, dict(start=e(), end=e()), "conditional_count", CI),
                                   (nodes.Router, {}, "router_count", RC)):
        def build(ip, cls=cls, fields=fields):
            ip.contracts = {**ip.contracts, "Node.__init__": oc02.node_init(**fields), "Node.new_scope": lambda ip, self, *a, **k: None}
            comp = compiler(router_count=SInt(RC))
            n = ip.call(cls, [text("line", False, "line"), outer(), comp], {})
            return n, comp
        for r in runs(o, build, base=[CI >= 0, RC >= 0]):
            if r.kind != "ok":
                raise Refuted(f"{cls.__name__}: {r.value!r}")
            n, comp = r.value
            after = zi(comp.attrs[name])
            if not r.ctx.valid(after > var):
                raise Refuted(f"the number of a {cls.__name__} is used again")
            for a in ("conditional_count", "router_count"):
                if not r.ctx.valid(zi(comp.attrs[a]) >= (CI if a == "conditional_count" else RC)):
                    raise Refuted(f"{cls.__name__} takes back numbers")
            c += 1
    return c


LABELS = ("label", "end_label", "start_label", "next_label", "label_prefix", "conditional_count", "router_count")
MAY_SET = {"conditional_count": ("IfStatement.__init__", "WhileStatement.__init__", "ForStatement.__init__", "For_Statement.__init__", "TealishCompiler.__init__", "TealishCompiler.parse"),
           "router_count": ("Router.__init__", "TealishCompiler.__init__", "TealishCompiler.parse"),
           "label": ("IfThen.__init__", "Elif.__init__", "Else.__init__", "Block.__init__", "Func.__init__", "IfStatement.add_if_then", "IfStatement.add_elif", "IfStatement.add_else"),
           "end_label": ("IfStatement.__init__", "WhileStatement.__init__", "ForStatement.__init__", "For_Statement.__init__"),
           "start_label": ("WhileStatement.__init__", "ForStatement.__init__", "For_Statement.__init__"), "label_prefix": ("Router.__init__",),
           "next_label": ("IfThen.__init__", "Elif.__init__", "Else.__init__", "IfStatement.__init__", "IfStatement.process")}


def stores(name):
    """(function, line) of every assignment to an attribute of that name"""
    import tealish

    out = []
    for mod in ("nodes", "__init__", "base", "scope", "expression_nodes", "stdlib", "utils", "tealish_expressions", "types"):
        try:
            m = tealish if mod == "__init__" else importlib.import_module(f"tealish.{mod}")
            tree = ast.parse(inspect.getsource(m))
        except (ImportError, OSError):
            continue

        def walk(n, where):
            for x in ast.iter_child_nodes(n):
                w = where
                if isinstance(x, (ast.ClassDef, ast.FunctionDef)):
                    w = where + [x.name]
                if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, (ast.Store, ast.Del)):
                    out.append((".".join(w), x.lineno))
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "delattr") and mod != "base":
                    if not (len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value != name):
                        out.append((".".join(w) + " (setattr)", x.lineno))
                walk(x, w)
        walk(tree, [])
    return out


def closed(o):
    """labels and counters are set where the contracts say, and nowhere else"""
    c = 0
    for name, ok in MAY_SET.items():
        for where, at in stores(name):
            if where.endswith("(setattr)"):
                if where.split(" ")[0] in ("Node.process_fields", "Node.__init__", "Node.parse_line", "Node.process_line"):
                    continue
                raise Unsupported(f"{where} line {at} may set {name}")
            if where not in ok:
                raise Unsupported(f"{name} is set in {where}, line {at}")
            c += 1
    return c


# -- the program -----------------------------------------------------------------------------
def routines_there(o):
    """a program with an inner group has the routines, and those it calls are defined once"""
    has = z3.Bool("has an inner group")
    c = 0

    def build(ip):
        ip.contracts = {**ip.contracts, "BaseNode.has_child_node": lambda ip, self, cls: SBool(has) if cls is nodes.InnerGroup else _which(cls),
                        "process_functions_last": lambda ip, ns: None, "Scope.declare_scratch_var": lambda ip, self, *a: Opaque("var", attrs={"scratch_slot": SInt(z3.Int("flag"))}),
                        "BaseNode.get_var": lambda ip, self, name: Opaque("var", attrs={"scratch_slot": SInt(z3.Int("flag"))})}
        kids = many(BODY)
        n = mk(nodes.Program, nodes=kids, child_nodes=kids, compiler=compiler(use_inner_txns_macro=None), parent=None, current_scope=Opaque("scope", attrs={}, cls=scope_mod.Scope))
        ip.call(ip.get_attr(n, "process"), [], {})
        ip.call(ip.get_attr(n, "write_teal"), [SymWriter()], {})
        return n

    for r in runs(o, build, base=[count("body") >= 0, z3.Int("flag") >= 0]):
        if r.kind != "ok":
            raise Refuted(f"{r.value!r}")
        code = sem.compile_items(r.ip.out)
        got = [x.text for x in code if isinstance(x, Label)]
        on = r.ip.truth(r.ip.get_attr(r.value.compiler, "use_inner_txns_macro"))
        if r.ctx.feasible(has) and not on:
            raise Refuted("a program with an inner group is not given the routines")
        for name in called_helpers(o):
            if on and got.count(name) != 1:
                raise Refuted(f"{name} is defined {got.count(name)} times")
        c += 1
    return c


def _which(cls):
    raise Unsupported(f"has_child_node({cls})")


def called_helpers(o, memo={}):
    """the routines called by inner transactions and groups"""
    if not memo:
        out = set()

        def hook(r):
            if type(r.value) is nodes.Program:
                return
            for t, _, _ in targets(Code(sem.compile_items(r.ip.out))):
                if constant(t) is not None and t.startswith(HELPERS):
                    out.add(t)
        for name, fn, *_ in oc09.OBLIGATIONS:
            domain.MODE["lines"] = hook
            sem.SKIP.append(1)
            try:
                fn(o)
            except (Refuted, Unsupported):
                pass
            finally:
                domain.MODE["lines"] = None
                sem.SKIP.pop()
        if not out:
            raise Unsupported("no routine is called")
        memo["x"] = out
    return memo["x"]


def group_found(o):
    """has_child_node finds an inner group among the nodes and below them (so, by induction, at any depth)"""
    fam = Family("item", "stmt", cls=base.BaseNode, fields=dict(isa=lambda cls, i: oc09.IS(i) if cls is nodes.InnerGroup else None))
    N = z3.Int("n_items")

    def below(ip, h, cls):
        if cls is not nodes.InnerGroup:
            raise Unsupported("another class is looked for")
        return SBool(oc09.BELOW(h.idx[0]))

    def build(ip):
        ip.contracts = {**ip.contracts, ("stmt", "has_child_node"): below}
        n = mk(nodes.Program, nodes=SList("nodes", N, lambda i: fam(i)), compiler=compiler(), parent=None)
        return ip.truth(ip.call(ip.get_attr(n, "has_child_node"), [nodes.InnerGroup], {}))

    i = z3.Int("i!x")
    some = z3.Exists([i], z3.And(i >= 0, i < N, z3.Or(oc09.IS(i), oc09.BELOW(i))))
    c = 0
    for r in runs(o, build, base=[N >= 0]):
        if r.kind != "ok":
            raise Refuted(f"{r.value!r}")
        if not r.value:
            oc09.must_(r, z3.Not(some), "an inner group is not found")
        c += 1
    return c


def routes_differ(o):
    """a function is listed once in a router"""
    RN = z3.Function("route listed", I, STR)
    N = z3.Int("n_listed")
    new = z3.String("new route")
    i = z3.Int("i!r")
    known = z3.Exists([i], z3.And(i >= 0, i < N, RN(i) == new))

    def build(ip):
        ip.contracts = {**ip.contracts, "Node.add_child": lambda ip, self, x: None, "Node.__init__": oc02.node_init(), "Node.new_scope": lambda ip, self, *a, **k: None}
        n = ip.call(nodes.Router, [text("line", False, "line"), outer(), compiler(router_count=SInt(RC))], {})
        st = Store("listed", cls=nodes.Route, fields=dict(name=lambda i: Rope([Atom(RN(i), safe=True)]), _line_no=lambda i: SInt(z3.Int("line_no")), parent=lambda i: n,
                                                          _line=lambda i: text("line", False, "line")))
        n.__dict__["routes"] = SeqV([("many", SList("listed", N, lambda i: SElem(st, i)))])
        x = node(nodes.Route, name=Rope([Atom(new, safe=True)]), parent=n, _line_no=SInt(z3.Int("line_no")))
        ip.call(ip.get_attr(n, "add_route"), [x], {})
        return n, x
    c = ok = 0
    for r in runs(o, build, base=[N >= 0, RC >= 0]):
        c += 1
        if r.kind != "ok":
            if not r.ctx.valid(known):
                raise Refuted(f"a route is rejected without a reason: {r.value!r}")
            continue
        ok += 1
        if not r.ctx.valid(z3.Not(known)):
            raise Refuted("a function is listed twice in a router: its label is defined twice")
        if r.value[0].routes.segs[-1] != ("one", r.value[1]) or len(r.value[0].routes.segs) != 2:
            raise Refuted("a route is not kept")
    if not ok:
        raise Refuted("no route is accepted")
    return c


def whole(o):
    """compile writes the program once, into a new writer"""
    import tealish

    P = stmt("program")

    def build(ip):
        c = mk(tealish.TealishCompiler, nodes=[P()], processed=OneOf("processed", [(z3.Bool("processed"), True), (z3.Not(z3.Bool("processed")), False)]), writer=None,
               source_map={}, output=[], source_lines=[], process_started=False)
        ip.contracts = {**ip.contracts, "TealishCompiler.process": lambda ip, self: None, "TealWriter": lambda ip, *a: _writer()}
        ip.call(ip.get_attr(c, "compile"), [], {})
        return c
    c = 0
    for r in runs(o, build):
        if r.kind != "ok":
            raise Unsupported(f"{r.value!r}")
        if len(r.ip.out) != 1 or not isinstance(r.ip.out[0], sem.Emit):
            raise Refuted(f"the program is written {len(r.ip.out)} times")
        c += 1
    return c


def _writer():
    w = SymWriter()
    w.source_map, w.output = {}, []
    return w


OBLIGATIONS = [(f"labels of the statements of {m}", statements(m), 240) for m in MODULES] + [
    ("labels of for _", statements("for _")), ("labels of the parts of a conditional", lambda o: len(parts_of_conditional(o))), ("all labels differ", distinct, 240), ("numbers of conditionals, loops and routers", numbers), ("who sets labels", closed),
    ("the routines are there", routines_there), ("an inner group is found", group_found), ("the functions of a router differ", routes_differ), ("the program is written once", whole)]
ASSUMPTIONS = [f"names of blocks and functions: {NAMES} (labels of the others collide with generated ones: known findings of C13)",
               "get_block, lookup_func and find_parent return a declared block or function, or a statement around the node (C04, C02); every statement read is added once to the one it is read in (C12)",
               "a label in the generated code is read as the assembler reads it (a token that ends in a colon)"]
