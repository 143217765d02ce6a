"""C16: opcode knowledge is exactly the language specification.

The specification is unknown: any number of opcodes, each with or without the optional entries,
type codes, fields and immediates of any number.  The real functions that decode it, look it up,
compare two of them and use an opcode in a call are evaluated over it.
"""
import ast
import json
import os

import z3

from .. import avm, env
from . import maps, oc01
from .domain import *  # noqa: F401,F403
from .maps import Inv, MapV, STR, check, same_map
from .oc09 import must_
from .regex import starts
from .interp import tree_of

ASSUMPTIONS = ["a specification file has the format of the packaged one: Opcode, Name and Size in every opcode, Size an integer, texts of type codes, a list of field names"]

INT, BOOL = z3.IntSort(), z3.BoolSort()
CODES = {"": (T.AnyType, 0), ".": (T.AnyType, 0), "B": (T.BytesType, 0), "U": (T.IntType, 8)}
TYPE_OF = z3.Function("type of code", STR, TY)


def code_ok(c):
    return z3.Or(*[c == z3.StringVal(x) for x in CODES])


def code_type(c):
    """(kind, size) of a type code"""
    k, s = z3.IntVal(-1), z3.IntVal(-1)
    for x, (cls, n) in CODES.items():
        k = z3.If(c == z3.StringVal(x), kind_no(cls), k)
        s = z3.If(c == z3.StringVal(x), n, s)
    return k, s


class Codes:
    """a text of type codes, of any length: its characters one by one"""

    pyver_symbolic = True

    def __init__(self, name, *idx, rev=False):
        self.name, self.idx, self.rev = name, idx, rev
        dom = [INT] * len(idx)
        self.n = uf(f"number of {name}", dom, INT)(*idx) if idx else z3.Int(f"number of {name}")
        self.f = uf(f"code of {name}", dom + [INT], STR)

    def __repr__(self):
        return f"<{self.name}>"

    def term(self, j):
        return self.f(*self.idx, (self.n - 1 - j) if self.rev else j)

    def char(self, j):
        return Rope([Atom(self.term(j), safe=True)])

    def ill(self):
        """some character is no type code: what convert_args_to_types is proved to reject"""
        return uf(f"no types: {self.name}", [INT] * len(self.idx), BOOL)(*self.idx) if self.idx else z3.Bool(f"no types: {self.name}")

    def bad(self):
        j = z3.Int("j!code")
        return z3.Exists([j], z3.And(j >= 0, j < self.n, z3.Not(code_ok(self.f(*self.idx, j)))))

    def sym_isinstance(self, ip, cls):
        return issubclass(str, cls)

    def sym_len(self, ip):
        ip.ctx.assume(self.n >= 0)
        return SInt(self.n)

    def sym_truth(self, ip):
        ip.ctx.assume(self.n >= 0)
        return mkbool(self.n > 0)

    def sym_iter(self, ip):
        ip.ctx.assume(self.n >= 0)
        return [("many", SList(self.name, self.n, self.char))]

    def sym_getitem(self, ip, i):
        i = ip.resolve(i)
        if isinstance(i, slice):
            if (i.start, i.stop, i.step) == (None, None, -1):
                return Codes(self.name, *self.idx, rev=not self.rev)
            raise Unsupported("part of a text of type codes")
        x = zi(i)
        if ip.ctx.branch(x < 0):
            x = x + self.n
        if not ip.ctx.branch(z3.And(x >= 0, x < self.n)):
            raise PyRaise(IndexError("string index out of range"))
        return self.char(z3.simplify(x))

    def sym_eq(self, ip, o):
        if isinstance(o, str) and not o:
            return mkbool(self.n == 0)
        raise Unsupported("comparison of type codes")


class Def:
    """one opcode of a specification: a dictionary with these keys, the optional ones or not"""

    pyver_symbolic = True
    KEYS = ("Args", "Returns", "ArgEnum", "ArgEnumTypes", "ImmediateNote", "Doc", "DocExtra", "groups", "Groups", "IntroducedVersion", "Cost", "DocCost", "ArgModes", "Modes")

    def __init__(self, *idx, has=None):
        self.idx, self.given = idx, has or {}
        dom = [INT] * len(idx)
        self.name = uf("opcode name", dom, STR)(*idx) if idx else z3.String("opcode name")
        self.size = uf("opcode size", dom, INT)(*idx) if idx else z3.Int("opcode size")
        self.nf = uf("number of fields", dom, INT)(*idx) if idx else z3.Int("number of fields")
        self.field = uf("field", dom + [INT], STR)
        self.opcode = SInt(uf("opcode", dom, INT)(*idx) if idx else z3.Int("opcode"))
        self.memo = {}

    def has(self, key):
        if key in self.given:
            return self.given[key]
        if key in ("Opcode", "Name", "Size"):
            return True
        if key in self.KEYS:
            dom = [INT] * len(self.idx)
            return uf(f"has {key}", dom, BOOL)(*self.idx) if self.idx else z3.Bool(f"has {key}")
        return False

    def value(self, key):
        if key not in self.memo:
            self.memo[key] = self.make(key)
        return self.memo[key]

    def make(self, key):
        if key == "Name":
            return Rope([Atom(self.name, safe=True)])
        if key == "Size":
            return SInt(self.size)
        if key == "Opcode":
            return self.opcode
        if key in ("Args", "Returns", "ArgEnumTypes"):
            return Codes(key, *self.idx)
        if key == "ArgEnum":
            return SList("fields", self.nf, lambda j: Rope([Atom(self.field(*self.idx, j), safe=True)]))
        return Opaque(f"the {key}")

    def sym_contains(self, ip, k):
        k = ip.resolve(k)
        if not isinstance(k, str):
            raise Unsupported("unknown key of an opcode")
        h = self.has(k)
        return h if isinstance(h, bool) else mkbool(h)

    def sym_getitem(self, ip, k):
        if not ip.truth(self.sym_contains(ip, k)):
            raise PyRaise(KeyError(k))
        if k == "ArgEnum":
            ip.ctx.assume(self.nf >= 0)
        return self.value(ip.resolve(k))

    def sym_getattr(self, ip, name):
        if name == "get":
            return DefGet(self)
        raise Unsupported(f"{name} of an opcode")

    def sym_isinstance(self, ip, cls):
        return issubclass(dict, cls)

    def subst(self, k, t):
        return Def(*[z3.simplify(z3.substitute(x, (k, t))) for x in self.idx], has=self.given)


class DefGet:
    pyver_symbolic = True

    def __init__(self, d):
        self.d = d

    def sym_call(self, ip, args, kwargs):
        k = ip.resolve(args[0])
        default = args[1] if len(args) > 1 else None
        h = self.d.sym_contains(ip, k)
        if not isinstance(h, SBool):
            return self.d.sym_getitem(ip, k) if h else default
        if k in ("Args", "Returns", "ArgEnum", "ArgEnumTypes"):
            return self.d.sym_getitem(ip, k) if ip.truth(h) else default
        return OneOf(f"{k} or none", [(h.e, self.d.value(k)), (z3.Not(h.e), default)])


# -- decoding -----------------------------------------------------------------------------------
def lookup_type(ip, a):
    """contract of type_lookup: the type of a code, or KeyError"""
    a = ip.resolve(a)
    if isinstance(a, str):
        if a not in CODES:
            raise PyRaise(KeyError(a))
        return SymType(TYPE_OF(z3.StringVal(a)))
    if not is_str(a):
        raise Unsupported("type code")
    if not ip.ctx.branch(code_ok(zs(a))):
        raise PyRaise(KeyError("?"))
    return SymType(TYPE_OF(zs(a)))


def convert(ip, args):
    """contract of convert_args_to_types: the type of each code in order, KeyError if one is none"""
    args = ip.resolve(args)
    if isinstance(args, str):
        return [lookup_type(ip, c) for c in args]
    if not isinstance(args, Codes):
        raise Unsupported("type codes")
    if ip.ctx.branch(args.ill()):
        raise PyRaise(KeyError("?"))
    ip.ctx.assume(args.n >= 0)
    return SList(f"types of {args.name}", args.n, lambda j: SymType(TYPE_OF(args.term(j))))


LOOKUP = {"type_lookup": lookup_type}
CONVERT = {"type_lookup": lookup_type, "convert_args_to_types": convert}


def type_lookup(o):
    """exactly the four codes, each with its type"""
    a = z3.String("code")
    c = 0
    seen = set()
    for r in runs(o, lambda ip: ip.call(langspec.type_lookup, [Rope([Atom(a)])], {})):
        if r.kind == "raise":
            if not isinstance(r.value, KeyError):
                raise Refuted(f"an unknown code: {r.value!r}")
            must_(r, z3.Not(code_ok(a)), "a code of the format is not known")
            seen.add("raise")
        else:
            t = type_facts(r.ip, r.value)
            if t is None:
                raise Refuted(f"the type is {r.value!r}")
            k, s = code_type(a)
            must_(r, z3.And(code_ok(a), t[0] == k, t[1] == s), "the type of a code")
            seen.add("ok")
        c += 1
    if len(seen) != 2:
        raise Refuted(f"only {seen}")
    return c


def seq(r, v):
    """a list as (length, element)"""
    v = r.ip.resolve(v)
    if isinstance(v, list):
        v = SeqV([("one", x) for x in v])
    if isinstance(v, (SeqV, SList)):
        n = r.ip.length(v)
        return (n if z3.is_expr(n) else z3.IntVal(n)), v
    raise Refuted(f"{v!r} is no list")


def alike(r, v, n, elem, what):
    """the list v has n elements, elem(j) each"""
    if isinstance(v, Codes):
        v = v.sym_iter(r.ip)[0][1]
    m, v = seq(r, v)
    must_(r, m == n, f"{what}: their number")
    j = fresh("j")
    if r.ctx.feasible(z3.And(j >= 0, j < n)):
        segs = r.ip.segs(v)
        r.ctx.assume(z3.And(j >= 0, j < n))
        at = z3.IntVal(0)
        for kind, x in segs:
            ln = z3.IntVal(1) if kind == "one" else x.n
            here = z3.And(j >= at, j < at + ln)
            if r.ctx.feasible(here):
                got = r.ip.resolve(x if kind == "one" else x.at(z3.simplify(j - at)))
                want = elem(j)
                must_(r, z3.Implies(here, same_value(r, got, want, what)), what)
            at = z3.simplify(at + ln)


def same_value(r, got, want, what):
    got, want = r.ip.resolve(got), r.ip.resolve(want)
    if isinstance(want, SymType) or isinstance(want, T.TealishType):
        if isinstance(got, SymType) and isinstance(want, SymType):
            return got.term == want.term
        g, w = type_facts(r.ip, got), type_facts(r.ip, want)
        if g is None:
            raise Refuted(f"{what}: {got!r} instead of {want!r}")
        if isinstance(got, SymType) != isinstance(want, SymType):
            raise Unsupported(f"{what}: {got!r} and {want!r}")
        return z3.And(g[0] == w[0], g[1] == w[1])
    if is_str(want) and is_str(got):
        return zs(got) == zs(want)
    if is_int(want) and is_int(got):
        return zi(got) == zi(want)
    if got is want:
        return z3.BoolVal(True)
    raise Refuted(f"{what}: {got!r} instead of {want!r}")


def convert_args(o):
    """one type for each code, in order; rejected if and only if one is none"""
    d = Codes("Args")
    seen, c = set(), 0
    for r in runs(o, lambda ip: ip.call(langspec.convert_args_to_types, [d], {}), LOOKUP, base=[d.n >= 0]):
        seen.add(r.kind)
        if r.kind == "raise":
            must_(r, d.bad(), f"rejected: {r.value!r}")
        elif r.kind == "ok":
            j = z3.Int("j!code")
            must_(r, z3.Not(d.bad()), "an unknown code is accepted")
            alike(r, r.value, d.n, lambda j: SymType(TYPE_OF(d.term(j))), "the types of the codes")
        c += 1
    if not {"ok", "raise"} <= seen:
        raise Refuted(f"only {seen}")
    return c


# -- an opcode -----------------------------------------------------------------------------------
class Fields:
    """the fields of an opcode as the specification has them: the last of those with the same name"""

    def __init__(self, d, n):
        self.d, self.n = d, n
        dom = [INT] * len(d.idx)
        self.has_, self.last = uf("is field", dom + [STR], BOOL), uf("last field", dom + [STR], INT)

    def facts(self, x, positions=()):
        """that this is the last one: of the name x, and of the names at some positions"""
        d = self.d
        key = lambda t: d.field(*d.idx, t)  # noqa: E731
        h, l = (lambda t: self.has_(*d.idx, t)), (lambda t: self.last(*d.idx, t))
        return [z3.Implies(h(x), z3.And(l(x) >= 0, l(x) < self.n, key(l(x)) == x))] + [
            z3.Implies(z3.And(j >= 0, j < self.n), z3.And(h(key(j)), l(key(j)) >= j)) for j in positions]

    def has(self, x):
        return self.has_(*self.d.idx, x)

    def code(self, x):
        return self.d.value("ArgEnumTypes").f(*self.d.idx, self.last(*self.d.idx, x))


OVERRIDES = {"Sender": (T.BytesType, 32)}  # documented in langspec.py


def field_kind(code, x):
    """(kind, size) of field x, the specification's code or none for it"""
    k, s = (KIND(TYPE_OF(code)), SIZE(TYPE_OF(code))) if code is not None else (z3.IntVal(kind_no(T.IntType)), z3.IntVal(8))
    for f, (cls, n) in OVERRIDES.items():
        k, s = z3.If(x == z3.StringVal(f), kind_no(cls), k), z3.If(x == z3.StringVal(f), n, s)
    return k, s


def overridden(upto=None):
    """the loop over the fields: those visited have the type of the overrides"""
    def state(ip, fr, k, me):
        base_ = me.base

        def get(x):
            v = base_.get(x)
            alts = []
            n, key, pos = base_._enum
            for f, (cls, size) in OVERRIDES.items():
                alts.append((z3.And(x == z3.StringVal(f), pos(x) < k), cls(size) if size else cls()))
            alts.append((z3.Not(z3.Or(*[a for a, _ in alts])), v))
            return OneOf("type of a field", alts)
        m = base_.copy()
        m.get = get
        m._enum = base_._enum
        return m

    class Over(Inv):
        def run(self, ip, s, fr, it):
            it = ip.resolve(it)
            if not isinstance(it, MapV):
                return merged(ip, s, fr, it)
            self.base = it
            self.self_ = fr.loc.get("self")
            it.enumeration(ip)
            it = it.copy()
            it._enum = self.base._enum
            return super().run(ip, s, fr, it)

    def set_(ip, fr, k):
        d = inv.self_.__dict__
        ip.set_attr(inv.self_, "arg_enum_dict", state(ip, fr, k, inv))

    def check_(ip, fr, k):
        same_map(ip, ip.get_attr(inv.self_, "arg_enum_dict"), state(ip, fr, k, inv), same_type, "the fields")
    inv = Over(set_, check_)
    return inv


def ordinary(ip, s, fr, it):
    from .interp import BreakEx, ContinueEx

    for kind, x in ip.iterate(it):
        if kind != "one":
            if ip.symbolic_loop(s, fr, x) == "break":
                return
            continue
        ip.assign(s.target, x, fr)
        try:
            ip.block(s.body, fr)
        except BreakEx:
            return
        except ContinueEx:
            continue
    ip.block(s.orelse, fr)


def merged(ip, s, fr, it):
    """the loop as it is, its paths joined again if all they do is set attributes"""
    if not isinstance(it, (list, tuple, set, dict, range)):
        return ordinary(ip, s, fr, it)
    names = set(maps._stored(s)) | set(maps._targets(s.target))
    loc = dict(fr.loc)

    def body():
        mark, out, eff = len(ip.journal), len(ip.out), len(ip.effects)
        try:
            ordinary(ip, s, fr, it)
            if len(ip.out) != out or len(ip.effects) != eff:
                return None
            return ip.effects_since(mark), {v: fr.loc.get(v) for v in fr.loc if v not in names and fr.loc.get(v) is not loc.get(v)}
        except (PyRaise, Unsupported):
            return None
        finally:
            fr.loc.clear()
            fr.loc.update(loc)

    paths = ip.nested(body, [])
    if not paths or any(r is None or r[1] or any(c[0] != "attr" or not isinstance(c[3], (str, int, type(None), SInt, SBool, Rope)) for c in r[0]) for _, r in paths):
        return ordinary(ip, s, fr, it)
    changes = {}
    for i, (sub, (cs, _)) in enumerate(paths):
        for c in cs:
            changes.setdefault((id(c[1]), c[2]), (c[1], c[2], c[3], {}))[3][i] = c[4]
    guards = [z3.And(*sub.local) if sub.local else z3.BoolVal(True) for sub, _ in paths]
    for d, name, old, new in changes.values():
        ip.journal.append(("dict", d, name, old))
        d[name] = OneOf(name, [(g, new.get(i, old)) for i, g in enumerate(guards)])
    for v in names:
        fr.loc[v] = Poison(f"{v} after a loop")


def same_type(ip, a, b, what):
    a, b = ip.resolve(a), ip.resolve(b)
    if isinstance(a, SymType) and isinstance(b, SymType):
        return check(ip, a.term == b.term, what)
    x, y = type_facts(ip, a), type_facts(ip, b)
    if x is None or y is None:
        raise Refuted(f"{what}: {a!r}, {b!r}")
    check(ip, z3.And(x[0] == y[0], x[1] == y[1]), what)


def op_init(has, name, extra=()):
    """one opcode of a specification, decoded"""
    def f(o):
        d = Def(has=has)
        nargs, nrets = d.value("Args"), d.value("Returns")
        nt = d.value("ArgEnumTypes")
        n = z3.If(nt.n < d.nf, nt.n, d.nf) if has["ArgEnumTypes"] else d.nf
        fl = Fields(d, n)
        base_ = [nargs.n >= 0, nrets.n >= 0, nt.n >= 0, d.nf >= 0] + ([name(d.name)] if callable(name) else [d.name == z3.StringVal(name)])
        ill = z3.Or(*[d.value(k).ill() for k in ("Args", "Returns") if has[k]], *([nt.ill()] if has["ArgEnum"] and has["ArgEnumTypes"] else []))
        c = oks = 0
        x = z3.Const("a field", STR)
        for r in runs(o, lambda ip: ip.call(langspec.Op, [d], {}), CONVERT, {("Op.__init__", "for"): overridden()}, base=base_, limit=3000):
            if r.kind == "raise":
                must_(r, ill, f"an opcode of the format is rejected: {r.value!r}")
            elif r.kind == "ok":
                oks += 1
                must_(r, z3.Not(ill), "an unknown type code is accepted")
                q = r.value
                g = lambda a: r.ip.resolve(r.ip.get_attr(q, a))  # noqa: E731
                must_(r, z3.And(same_value(r, g("opcode"), d.opcode, "the opcode"), same_value(r, g("name"), d.value("Name"), "the name"), same_value(r, g("size"), SInt(d.size), "the size"),
                                zi(g("immediate_args_num")) == d.size - 1), "the opcode, name, size or number of immediates")
                for attr, types, key, codes in (("args", "arg_types", "Args", nargs), ("returns", "returns_types", "Returns", nrets)):
                    if not has[key]:
                        for a in (attr, types):
                            v = g(a)
                            if v not in ("", []):
                                raise Refuted(f"{a} is {v!r} without any")
                        continue
                    if g(attr) is not codes:
                        raise Refuted(f"{attr} is {g(attr)!r}")
                    el = (lambda j: SymType(TYPE_OF(codes.f(j)))) if key == "Args" else (lambda j: SymType(TYPE_OF(codes.f(codes.n - 1 - j))))
                    alike(r, g(types), codes.n, el, f"{types}")
                if has["ArgEnum"]:
                    alike(r, g("arg_enum"), d.nf, lambda j: Rope([Atom(d.field(j), safe=True)]), "the fields")
                elif g("arg_enum") not in ([], ()):
                    raise Refuted("fields without any")
                m = maps.as_map(r.ip, g("arg_enum_dict"))
                fork(r, lambda: field_value(r, m, x, fl if has["ArgEnum"] else None, has))
            c += 1
        if not oks:
            raise Refuted("no opcode of this form is accepted")
        return c
    return f


def fork(r, f):
    """every path of a question asked of the result"""
    from .interp import close  # noqa: F401

    def body():
        f()
        return True
    r.ip.ctx = r.ctx
    for _ in r.ip.nested(body, []):
        pass


def field_value(r, m, x, fl, has):
    ip = r.ip
    if fl:
        pairs = getattr(m, "last", None)
        for f in fl.facts(x, [pairs(x)] if pairs is not None else []):
            ip.ctx.assume(f)
        if pairs is not None:
            ip.ctx.assume(m.pair(fl.last(*fl.d.idx, x)))
    found, v = m.look(ip, x)
    want = fl.has(x) if fl else z3.BoolVal(False)
    check(ip, want if found else z3.Not(want), "which fields there are")
    if found:
        t = type_facts(ip, ip.resolve(v))
        if t is None:
            raise Refuted(f"the type of a field is {v!r}")
        k, s = field_kind(fl.code(x) if has["ArgEnumTypes"] else None, x)
        check(ip, z3.And(t[0] == k, t[1] == s), "the type of a field")


def plain(n):
    """a name like most"""
    return z3.And(z3.Length(n) > 0, *[z3.Not(n == z3.StringVal(x)) for x in getattr(langspec, "operators", [])],
                  *[z3.Not(ignored(x, n)) for x in getattr(langspec, "ignores", [])])


def ignored(pattern, n):
    p = z3.StringVal(pattern.rstrip("*"))
    return z3.PrefixOf(p, n) if pattern.endswith("*") else n == p


def operator(n):
    return z3.Or(*[n == z3.StringVal(x) for x in getattr(langspec, "operators", [])])


def to_ignore(n):
    return z3.And(z3.Not(operator(n)), z3.Or(*[ignored(x, n) for x in getattr(langspec, "ignores", [])]))


FORMS = [dict(Args=a, Returns=b, ArgEnum=e > 0, ArgEnumTypes=e > 1) for a in (True, False) for b in (True, False) for e in (2, 1, 0)]


def label(h):
    return ", ".join(k for k in h if h[k]) or "nothing"


# -- a specification ---------------------------------------------------------------------------------
class Spec:
    """a specification file: its opcodes"""

    pyver_symbolic = True

    def __init__(self, name="spec"):
        self.name = name
        self.n = z3.Int(f"opcodes of {name}")
        self.list = SList(f"opcodes of {name}", self.n, lambda i: Def(i))

    def sym_contains(self, ip, k):
        if ip.resolve(k) in ("Ops", "EvalMaxVersion", "LogicSigVersion"):
            return True
        raise Unsupported(f"{k!r} of a specification")

    def sym_getitem(self, ip, k):
        if ip.resolve(k) == "Ops":
            return self.list
        return Opaque(f"{k} of a specification")

    def sym_isinstance(self, ip, cls):
        return issubclass(dict, cls)

    def subst(self, k, t):
        return self


class OpV:
    """an opcode made of entry i of a specification (or of a known definition)"""

    pyver_symbolic = True

    def __init__(self, d):
        self.d = d

    def __repr__(self):
        return f"<opcode {self.d if isinstance(self.d, dict) else self.d.idx}>"

    def fields(self):
        if isinstance(self.d, dict):
            return langspec.Op(self.d).arg_enum_dict
        i = self.d.idx[0]
        has = uf("field of opcode", [INT, STR], BOOL)
        ty = uf("type of field of opcode", [INT, STR], TY)
        m = MapV("fields", lambda x: has(i, x), lambda x: SymType(ty(i, x)), sort=STR)
        m.of = i
        return m

    def sym_getattr(self, ip, name):
        if name == "name":
            return ip.subscript(self.d, "Name")
        if name == "arg_enum_dict":
            return self.fields()
        raise Unsupported(f"{name} of an opcode")

    def sym_isinstance(self, ip, cls):
        return issubclass(langspec.Op, cls)

    def sym_truth(self, ip):
        return True

    def subst(self, k, t):
        return OpV(self.d if isinstance(self.d, dict) else self.d.subst(k, t))


def make_op(ip, d):
    """contract of Op: the decoded opcode, or a rejection of an entry with unknown type codes"""
    d = ip.resolve(d)
    if isinstance(d, Def):
        if ip.ctx.branch(uf("ill entry", [INT], BOOL)(*d.idx)):
            raise PyRaise(KeyError("?"))
        return OpV(d)
    if not isinstance(d, dict) or not concrete(d):
        raise Unsupported("an opcode")
    return OpV(d)


class Names:
    """which names a specification has, and the last opcode of each"""

    def __init__(self, n):
        self.n = n
        self.h, self.l = uf("is opcode", [STR], BOOL), uf("last opcode", [STR], INT)
        self.key = uf("opcode name", [INT], STR)

    def facts(self, x, positions=()):
        return [z3.Implies(self.h(x), z3.And(self.l(x) >= 0, self.l(x) < self.n, self.key(self.l(x)) == x))] + [
            z3.Implies(z3.And(j >= 0, j < self.n), z3.And(self.h(self.key(j)), self.l(self.key(j)) >= j)) for j in positions]


METHOD = {"Name": "method", "Opcode": "method", "Size": 2, "Args": [], "Returns": ["B"]}


def spec_init(o):
    """every opcode of the specification under its name, the pseudo opcode, and nothing else"""
    sp = Spec()
    ns = Names(sp.n)
    x = z3.Const("a name", STR)
    c = oks = 0
    e = z3.Int("e!ill")
    ill = z3.Exists([e], z3.And(e >= 0, e < sp.n, uf("ill entry", [INT], BOOL)(e)))
    for r in runs(o, lambda ip: ip.call(langspec.LangSpec, [sp], {}), {"Op": make_op}, base=[sp.n >= 0]):
        ip = r.ip
        for nm_ in ("txn", "global"):
            for f in ns.facts(z3.StringVal(nm_)):
                r.ctx.assume(f)
        if r.kind == "raise":
            has = []
            for w in ("txn", "global"):
                j = z3.Int(f"position of {w}")
                has.append(z3.And(j >= 0, j < sp.n, ns.key(j) == z3.StringVal(w)))
                for m in ip.__dict__.get("pair_maps", []):
                    r.ctx.assume(m.pair(j))
            must_(r, z3.Or(ill, z3.Not(z3.And(*has))), f"rejected: {r.value!r}")
        elif r.kind == "ok":
            oks += 1
            q = r.value
            g = lambda a: ip.resolve(ip.get_attr(q, a))  # noqa: E731
            m = maps.as_map(ip, g("ops"))
            fork(r, lambda: op_value(r, m, x, ns))
            for attr, nm_ in (("txn_fields", "txn"), ("global_fields", "global")):
                t = g(attr)
                if not isinstance(t, MapV) or not hasattr(t, "of"):
                    raise Refuted(f"{attr} is {t!r}")
                w = z3.StringVal(nm_)
                for f in ns.facts(w, [t.of]):
                    r.ctx.assume(f)
                if getattr(m, "last", None) is not None:
                    r.ctx.assume(m.pair(ns.l(w)))
                must_(r, z3.And(ns.h(w), t.of == ns.l(w)), f"{attr} are the fields of {nm_}")
            if g("is_packaged") is not False:
                raise Refuted("a specification is the packaged one")
            if ip.resolve(ip.call(ip.get_attr(q, "as_dict"), [], {})) is not sp:
                raise Refuted("as_dict() is not the specification")
        c += 1
    if not oks:
        raise Refuted("no specification is accepted")
    return c


def op_value(r, m, x, ns):
    ip = r.ip
    last = getattr(m, "last", None)
    for f in ns.facts(x, [last(x)] if last is not None else []):
        ip.ctx.assume(f)
    if last is not None:
        ip.ctx.assume(m.pair(ns.l(x)))
    found, v = m.look(ip, x)
    pseudo = x == z3.StringVal("method")
    want = z3.Or(ns.h(x), pseudo)
    check(ip, want if found else z3.Not(want), "which opcodes there are")
    if found:
        v = ip.resolve(v)
        if not isinstance(v, OpV):
            raise Refuted(f"an opcode is {v!r}")
        if isinstance(v.d, dict):
            if {k: v.d.get(k) for k in METHOD} != METHOD or set(v.d) - set(METHOD):
                raise Refuted(f"the pseudo opcode is {v.d}")
            check(ip, pseudo, "the pseudo opcode")
        else:
            check(ip, z3.And(z3.Not(pseudo), v.d.idx[0] == ns.l(x)), "the opcode of a name")


# -- lookups --------------------------------------------------------------------------------------
def unknown_spec(name="spec", **more):
    """a specification object: which opcodes it has, and what they are, is unknown"""
    has, no = uf(f"{name} has", [STR], BOOL), uf(f"{name} opcode of", [STR], INT)
    ops = MapV(f"ops of {name}", lambda x: has(x), lambda x: OpV(Def(no(x))), sort=STR)
    f = {}
    for k in ("txn", "global"):
        h, t = uf(f"{name} {k} has", [STR], BOOL), uf(f"{name} {k} type", [STR], TY)
        f[k] = MapV(f"{k} fields of {name}", lambda x, h=h: h(x), lambda x, t=t: SymType(t(x)), sort=STR)
    q = mk(langspec.LangSpec, ops=ops, txn_fields=f["txn"], global_fields=f["global"], fields={"Txn": f["txn"], "Global": f["global"]}, is_packaged=False, spec=Opaque("spec"), **more)
    return q, has, no


def exactly(o, build, want, get, base=()):
    """ok with the value of the specification if and only if want"""
    seen, c = set(), 0
    for r in runs(o, build, base=base):
        seen.add(r.kind)
        if r.kind == "raise":
            if not isinstance(r.value, Exception):
                raise Refuted(f"{r.value!r}")
            must_(r, z3.Not(want), f"rejected: {r.value!r}")
        elif r.kind == "ok":
            must_(r, want, "accepted")
            get(r, r.ip.resolve(r.value))
        c += 1
    if not {"ok", "raise"} <= seen:
        raise Refuted(f"only {seen}")
    return c


def entry(r, v, i, what):
    if not isinstance(v, OpV) or isinstance(v.d, dict):
        raise Refuted(f"{what} is {v!r}")
    must_(r, v.d.idx[0] == i, what)


def typed_(r, v, term, what):
    if not isinstance(v, SymType):
        raise Refuted(f"{what} is {v!r}")
    must_(r, v.term == term, what)


def lookup_op(o):
    q, has, no = unknown_spec()
    x = z3.String("a name")
    nm_ = Rope([Atom(x)])
    c = exactly(o, lambda ip: ip.call(ip.get_attr(q, "lookup_op"), [nm_], {}), has(x), lambda r, v: entry(r, v, no(x), "the opcode of a name"))
    for r in runs(o, lambda ip: ip.call(ip.get_attr(q, "lookup_op"), [nm_], {}), base=[z3.Not(has(x))]):
        if r.kind != "raise" or not isinstance(r.value, KeyError):
            raise Refuted("an unknown opcode is not reported by KeyError, as its users expect")
        c += 1
    f = z3.String("a field")
    fh, ft = uf("field of opcode", [INT, STR], BOOL), uf("type of field of opcode", [INT, STR], TY)
    c += exactly(o, lambda ip: ip.call(ip.get_attr(q, "lookup_op_field"), [nm_, Rope([Atom(f)])], {}), z3.And(has(x), fh(no(x), f)),
                 lambda r, v: typed_(r, v, ft(no(x), f), "the type of a field"))
    for k, ns_ in (("txn", z3.Contains(z3.String("ns"), z3.StringVal("txn"))), ("global", z3.String("ns") == z3.StringVal("global"))):
        h, t = uf(f"spec {k} has", [STR], BOOL), uf(f"spec {k} type", [STR], TY)
        c += exactly(o, lambda ip: ip.call(ip.get_attr(q, "get_field_type"), [Rope([Atom(z3.String("ns"))]), Rope([Atom(f)])], {}), h(f),
                     lambda r, v: typed_(r, v, t(f), f"the type of a {k} field"), base=[ns_])
    ns_ = z3.String("ns")
    for r in runs(o, lambda ip: ip.call(ip.get_attr(q, "get_field_type"), [Rope([Atom(ns_)]), Rope([Atom(f)])], {}), base=[z3.Not(z3.Contains(ns_, z3.StringVal("txn"))), ns_ != z3.StringVal("global")]):
        if r.kind != "raise":
            raise Refuted("fields of another namespace")
        c += 1
    return c


CONSTANTS = {"NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4, "DeleteApplication": 5, "Pay": 1, "Acfg": 3, "Axfer": 4, "Afrz": 5, "Appl": 6}


def lookup_constant(o):
    """the named constants of the AVM, each with its number; no other name"""
    q, *_ = unknown_spec()
    x = z3.String("a name")
    known = z3.Or(*[x == z3.StringVal(k) for k in CONSTANTS])

    def get(r, v):
        if not isinstance(v, (tuple, list)) or len(v) != 2 or not isinstance(v[0], T.IntType):
            raise Refuted(f"a constant is {v!r}")
        val = v[1]
        w = z3.IntVal(-1)
        for k, n in CONSTANTS.items():
            w = z3.If(x == z3.StringVal(k), n, w)
        must_(r, zi(val) == w, "the value of a constant")
    return exactly(o, lambda ip: ip.call(ip.get_attr(q, "lookup_avm_constant"), [Rope([Atom(x)])], {}), known, get, base=[x != z3.StringVal("Keyreg")])  # a constant of the AVM the compiler does not offer


def same_spec(name, got, self_):
    if got is not base.lang_spec:
        raise Refuted(f"{name} asks another specification than the active one")


def base_lookups(o):
    """nodes ask the active specification, and give its answers"""
    c = 0
    for meth, n in (("lookup_op", 1), ("lookup_op_field", 2), ("lookup_avm_constant", 1), ("get_field_type", 2)):
        args = [text(f"arg{i}") for i in range(n)]
        answer = Opaque(f"answer of {meth}")
        raised = KeyError("not there")

        def ask(ip, self, *a, meth=meth, args=args, answer=answer, raised=raised):
            same_spec(meth, ip.resolve(self), None)
            if len(a) != len(args) or any(zs(ip.resolve(p)).sexpr() != zs(q).sexpr() for p, q in zip(a, args)):
                raise Refuted(f"{meth} asks for {a}")
            if ip.ctx.decide(2, "known"):
                raise PyRaise(raised)
            return answer
        for r in runs(o, lambda ip: ip.call(ip.get_attr(mk(en.Constant, name="x", parent=parent()), meth), args, {}), {f"LangSpec.{meth}": ask}):
            if r.kind == "raise" and r.value is not raised or r.kind == "ok" and r.value is not answer:
                raise Refuted(f"{meth}: {r.value!r}")
            c += 1
    return c


# -- comparison -------------------------------------------------------------------------------------
def differences(o, ask, pick, what, contracts=None):
    """exactly the names of one that the other does not have, each once"""
    a, ha, _ = unknown_spec("A")
    b, hb, _ = unknown_spec("B")
    for q in (a, b):
        q.ops.lazy = True
    c = 0
    for r in runs(o, lambda ip: ask(ip, a, b), {"filtered lists": True, **(contracts or {})}):
        if r.kind != "ok":
            raise Refuted(f"{what}: {r.value!r}")
        for v, mine, other, q in pick(r, a, b):
            c += one_difference(r, v, mine, other, q, what)
    return c


def one_difference(r, v, mine, other, q, what):
    has = {"A": uf("A has", [STR], BOOL), "B": uf("B has", [STR], BOOL)}
    x = fresh("a name", STR)
    n, v = seq(r, v)
    t, u = fresh("t"), fresh("u")
    ip = r.ip

    def sound():
        ip.ctx.assume(z3.And(t >= 0, t < n, u >= 0, u < t))
        e, e2 = (ip.resolve(ip.index(v, y)) for y in (t, u))
        hint(ip, q, v, t, u)
        if not is_str(e) or not is_str(e2):
            raise Refuted(f"{what}: {e!r}")
        for y in (zs(e), zs(e2)):
            q.ops.at_key(ip, y)
        check(ip, z3.And(has[mine](zs(e)), z3.Not(has[other](zs(e)))), f"{what}: a name that is no difference")
        check(ip, zs(e) != zs(e2), f"{what}: a name twice")

    def one():
        ip.ctx.assume(z3.And(t >= 0, t < n))
        e = ip.resolve(ip.index(v, t))
        hint(ip, q, v, t)
        check(ip, z3.And(has[mine](zs(e)), z3.Not(has[other](zs(e)))), f"{what}: a name that is no difference")

    def complete():
        ip.ctx.assume(z3.And(has[mine](x), z3.Not(has[other](x))))
        q.ops.enumeration(ip)
        q.ops.at_key(ip, x)
        for kind, l in ip.segs(v):
            if kind == "many" and hasattr(l, "about"):
                ip.ctx.assume(l.about[1](q.ops._enum[2](x)))
        r_ = ip.among(v, Rope([Atom(x)]))
        check(ip, r_ if not isinstance(r_, bool) else z3.BoolVal(r_), f"{what}: a difference is missing")
    for f in (sound, one, complete):
        fork(r, f)
    return 1


def hint(ip, q, v, *positions):
    """the facts of some positions of a filtered list"""
    off = z3.IntVal(0)
    q.ops.enumeration(ip)
    for kind, l in ip.segs(v):
        if kind == "many" and hasattr(l, "about"):
            ps = [z3.simplify(t - off) for t in positions]
            for t in ps:
                ip.ctx.assume(l.about[0](t))
                q.ops.at_position(ip, l.filter[2](t))
            if len(ps) > 1:
                ip.ctx.assume(l.about[2](ps[1], ps[0]))
        off = off + (1 if kind == "one" else l.n)


def compare(o):
    def pick(r, a, b):
        v = r.ip.resolve(r.value)
        if not isinstance(v, (tuple, list)) or len(v) != 2:
            raise Refuted(f"the differences are {v!r}")
        return [(v[0], "A", "B", a), (v[1], "B", "A", b)]
    return differences(o, lambda ip, a, b: ip.call(langspec.compare_langspecs, [a, b], {}), pick, "differences")


def new_ops(o):
    return differences(o, lambda ip, a, b: ip.call(ip.get_attr(b, "new_ops"), [a], {}), lambda r, a, b: [(r.value, "B", "A", b)], "new opcodes")


def with_globals(mod, values, f):
    save = {k: vars(mod)[k] for k in values}
    vars(mod).update(values)
    try:
        return f()
    finally:
        vars(mod).update(save)


def new_local(o):
    """of the specification given, or the local one, against the packaged one; none without either"""
    other, *_ = unknown_spec("C")

    def ask(given, local):
        def f(ip, a, b):
            vars(langspec).update(packaged_lang_spec=a, local_lang_spec=other if local and given else b if local else None)
            args = [b] if given else []
            return ip.call(langspec.get_new_local_ops, args, {})
        return f
    names = {k: getattr(langspec, k) for k in ("packaged_lang_spec", "local_lang_spec")}

    def go():
        n = 0
        for given, local in ((True, False), (False, True), (True, True)):
            n += differences(o, ask(given, local), lambda r, a, b: [(r.value, "B", "A", b)], "new local opcodes")
        a, *_ = unknown_spec("A")
        vars(langspec).update(packaged_lang_spec=a, local_lang_spec=None)
        for r in runs(o, lambda ip: ip.call(langspec.get_new_local_ops, [], {})):
            if r.kind != "ok" or r.ip.resolve(r.value) != []:
                raise Refuted("new local opcodes without a local specification")
            n += 1
        return n
    return with_globals(langspec, names, go)


# -- which specification is active -----------------------------------------------------------------------
def module_tail(mod, names):
    """the statements of the module that set these names, and what they need"""
    tree = ast.parse(open(mod.__file__).read())
    out = []
    for st in tree.body:
        if isinstance(st, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
            continue
        if any(isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Store) or isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for x in ast.walk(st)):
            out.append(st)
    return out


def active(o):
    """the file langspec.json of the working directory if there is one, else the packaged specification"""
    exists = z3.Bool("langspec.json is there")
    packaged = json.load(open(os.path.join(os.path.dirname(langspec.__file__), "langspec.json")))
    stmts = module_tail(langspec, {"local_lang_spec", "packaged_lang_spec"})
    names = {k: getattr(langspec, k) for k in ("packaged_lang_spec", "local_lang_spec")}
    c = 0

    def path_exists(ip, p):
        p = ip.resolve(p)
        if p not in ("langspec.json", "./langspec.json"):
            raise Refuted(f"{p!r} is looked for")
        return ip.ctx.branch(exists)

    def open_(ip, p, *a, **kw):
        p = ip.resolve(p)
        if p not in ("langspec.json", "./langspec.json") or a and a[0] not in ("r", "rt"):
            raise Refuted(f"{p!r} is opened")
        if not ip.ctx.valid(exists):
            raise PyRaise(FileNotFoundError(p))
        return Opaque("the file", attrs={"name": "langspec.json"})

    content = Opaque("content of the file")

    def load(ip, f):
        if not isinstance(f, Opaque) or f.name != "the file":
            raise Unsupported("json.load")
        return content

    def loads(ip, t):
        return json.loads(t)

    def make(ip, d):
        d = ip.resolve(d)
        return mk(langspec.LangSpec, spec=d, is_packaged=False)

    con = {"LangSpec": make, "genericpath.exists": path_exists, "posixpath.exists": path_exists, "exists": path_exists, "_io.open": open_, "io.open": open_, "open": open_,
           "json.load": load, "load": load, "json.loads": loads, "loads": loads}

    def go():
        n = 0
        for r in runs(o, lambda ip: (module(ip), ip.call(langspec.get_active_langspec, [], {}))[1], con):
            if r.kind != "ok":
                raise Refuted(f"the specification cannot be loaded: {r.value!r}")
            v = r.value
            if v.spec is content:
                must_(r, exists, "the file is used")
                if v.is_packaged:
                    raise Refuted("the local specification is the packaged one")
            elif v.spec == packaged:
                must_(r, z3.Not(exists), "the packaged specification is used")
                if v.is_packaged is not True:
                    raise Refuted("the packaged specification is not marked")
            else:
                raise Refuted("another specification is active")
            n += 1
        if n < 2:
            raise Refuted("the file makes no difference")
        return n

    def module(ip):
        from .interp import Frame

        vars(langspec).update(names)
        fr = Frame(None, "module", {}, vars(langspec), {})
        fr.loc = Globals(vars(langspec), ip)
        ip.block(stmts, fr)
    return with_globals(langspec, names, go)


class Globals(dict):
    """the names of a module: what is assigned is seen by its functions"""

    def __init__(self, g, ip):
        super().__init__()
        self.g, self.ip = g, ip

    def __setitem__(self, k, v):
        super().__setitem__(k, v)
        self.g[k] = v


def active_everywhere(o):
    """base.lang_spec is the active specification, and nothing else sets it or the two it is chosen from"""
    tree = ast.parse(open(base.__file__).read())
    sets = [st for st in tree.body if isinstance(st, (ast.Assign, ast.AnnAssign)) and any(isinstance(x, ast.Name) and x.id == "lang_spec" and isinstance(x.ctx, ast.Store) for x in ast.walk(st))]
    token = Opaque("the active specification")
    c = 0

    def go():
        n = 0
        for r in runs(o, lambda ip: base_module(ip), {"get_active_langspec": lambda ip: token}):
            if r.kind != "ok" or base.lang_spec is not token:
                raise Refuted("base.lang_spec is not the active specification")
            n += 1
        return n

    def base_module(ip):
        from .interp import Frame

        fr = Frame(None, "module", {}, vars(base), {})
        fr.loc = Globals(vars(base), ip)
        ip.block(sets, fr)
    c += with_globals(base, {"lang_spec": base.lang_spec}, go)
    own = {"lang_spec": ("base",), "local_lang_spec": ("langspec",), "packaged_lang_spec": ("langspec",)}
    top = os.path.dirname(base.__file__)
    for f in sorted(os.listdir(top)):
        if not f.endswith(".py"):
            continue
        tree = ast.parse(open(os.path.join(top, f)).read())
        inside = {id(y) for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for y in ast.walk(x)}
        for x in ast.walk(tree):
            if isinstance(x, ast.Attribute) and x.attr in own and isinstance(x.ctx, (ast.Store, ast.Del)):
                raise Unsupported(f"{f} sets {x.attr}")
            if isinstance(x, (ast.Global, ast.Nonlocal)) and set(x.names) & set(own):
                raise Unsupported(f"{f} sets {x.names}")
            if isinstance(x, ast.Name) and x.id in own and isinstance(x.ctx, ast.Store) and f[:-3] not in own[x.id] and id(x) not in inside:
                raise Unsupported(f"{f} sets {x.id}")
            if isinstance(x, ast.Attribute) and x.attr in ("ops", "arg_enum_dict", "txn_fields", "global_fields", "arg_types", "returns_types", "immediate_args_num", "arg_enum") and isinstance(x.ctx, (ast.Store, ast.Del)) and f != "langspec.py" and not (isinstance(x.value, ast.Name) and x.value.id == "self"):
                raise Unsupported(f"{f} sets {x.attr}")
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute) and x.value.attr in ("ops", "arg_enum_dict", "txn_fields", "global_fields") and f != "langspec.py":
                raise Unsupported(f"{f} changes {x.value.attr}")
        c += 1
    return c


# -- use --------------------------------------------------------------------------------------------
OPN, SIZ, NA, NR, NF = z3.String("opname"), z3.Int("size"), z3.Int("number of args"), z3.Int("number of results"), z3.Int("number of fields")
ARGTYPE, RETTYPE = (lambda j: SymType(uf("argument type", [INT], TY)(j))), (lambda j: SymType(uf("result type", [INT], TY)(j)))


class Text:
    """a text of which only the length is asked"""

    pyver_symbolic = True

    def __init__(self, n):
        self.n = n

    def sym_len(self, ip):
        return SInt(self.n)

    def sym_truth(self, ip):
        return mkbool(self.n > 0)


def any_op():
    """an opcode of a specification, as Op is proved to give it"""
    f = uf("field name", [INT], STR)
    has, ty = uf("op has field", [STR], BOOL), uf("op field type", [STR], TY)
    return mk(langspec.Op, name=Rope([Atom(OPN, safe=True)]), size=SInt(SIZ), immediate_args_num=mkint(SIZ - 1), args=Text(NA), returns=Text(NR), arg_types=SList("arg types", NA, ARGTYPE),
              returns_types=SList("result types", NR, RETTYPE), arg_enum=SList("field names", NF, lambda j: Rope([Atom(f(j), safe=True)])),
              arg_enum_dict=MapV("field types", lambda x: has(x), lambda x: SymType(ty(x)), sort=STR), opcode=SInt(z3.Int("opcode")), is_operator=False, ignore=False)


OPBASE = [NA >= 0, NR >= 0, NF >= 0, SIZ >= 0]


def is_field(x):
    j = z3.Int("j!name")
    return z3.Exists([j], z3.And(j >= 0, j < NF, uf("field name", [INT], STR)(j) == x))


def checked(o):
    """check_arg_types: accepted if and only if every argument may be held by the type of its position"""
    n = z3.Int("nargs")
    a = expr("a")
    j = z3.Int("j!t")
    t, x = uf("argument type", [INT], TY)(j), type_term("a", j)
    op = any_op()

    def look(ip, self, name):
        if zs(ip.resolve(name)).sexpr() != OPN.sexpr():
            raise Refuted("another opcode is looked up")
        return op
    bad = []
    seen, c = set(), 0
    for through in (False, True):
        def build(ip):
            if through:
                return ip.call(ip.get_attr(mk(en.Constant, name="x", parent=parent()), "check_arg_types"), [op.name, many(a, n)], {})
            return ip.call(base.check_arg_types, [op.name, many(a, n)], {})
        for r in runs(o, build, {"LangSpec.lookup_op": look}, base=OPBASE + [n >= 0]):
            if r.kind == "cut":
                continue
            seen.add((through, r.kind))
            good = z3.And(n <= NA, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(shape("a", j) == 1, holds(KIND(t), SIZE(t), KIND(x), SIZE(x))))))
            if r.kind == "ok":
                must_(r, good, "an argument of another type is accepted")
            else:
                if through and not isinstance(r.value, CompileError):
                    raise Refuted(f"not a compile error: {r.value!r}")
                must_(r, z3.Not(good), f"rejected: {r.value!r}")
            c += 1
    if len(seen) != 4:
        raise Refuted(f"only {seen}")
    return c


IMMKIND, IMMNAME, IMMVAL, IMMBODY = uf("kind of immediate", [INT], INT), uf("name of immediate", [INT], STR), uf("value of immediate", [INT], INT), uf("text of immediate", [INT], STR)
CONST, ENUM, NUMBER, STRING, WITHVALUE, NOVALUE, NOATTR = range(7)


class Imm:
    """argument i of a call, where an immediate is expected: a constant, a builtin name, a literal, a call with or without a known value, anything else"""

    pyver_symbolic = True

    def __init__(self, i):
        self.i = i
        self.kind, self.name, self.val, self.body = IMMKIND(i), IMMNAME(i), IMMVAL(i), IMMBODY(i)
        self.isint = uf("integer immediate", [INT], BOOL)(i)

    def __repr__(self):
        return f"<argument {self.i}>"

    def sym_isinstance(self, ip, cls):
        for c, k in ((en.Constant, CONST), (en.Enum, ENUM), (en.Integer, NUMBER), (en.Bytes, STRING)):
            if cls is c:
                return mkbool(self.kind == k)
        if issubclass(base.BaseNode, cls):
            return True
        if cls.__module__ == en.__name__ and issubclass(cls, base.BaseNode):
            return mkbool(z3.And(self.kind >= WITHVALUE, z3.Bool(f"argument {self.i} is {cls.__name__}")))
        return False

    def sym_truth(self, ip):
        return True

    def sym_str(self, ip):
        return Rope([Atom(uf("repr of immediate", [INT], STR)(self.i))])

    def typed(self, ip):
        """the value known at compile time is an integer, bytes, or of another type"""
        ip.ctx.assume(z3.And(self.kind >= 0, self.kind <= NOATTR))
        t = type_term("immediate", self.i)
        f = SymType(t).facts()
        ip.ctx.assume(f)
        ip.ctx.assume(z3.Implies(self.kind == NUMBER, isa(KIND(t), T.IntType)))
        ip.ctx.assume(z3.Implies(self.kind == STRING, isa(KIND(t), T.BytesType)))
        return SymType(t)

    def sym_getattr(self, ip, name):
        ip.ctx.assume(z3.And(self.kind >= 0, self.kind <= NOATTR))
        if name == "process":
            return ImmProcess(self)
        if name == "type":
            return self.typed(ip)
        if name == "name" and ip.ctx.branch(self.kind <= ENUM):
            return Rope([Atom(self.name, safe=True)])
        if name == "value":
            if ip.ctx.branch(z3.Or(self.kind == NUMBER, self.kind == WITHVALUE)):
                t = self.typed(ip)
                if ip.ctx.branch(isa(KIND(t.term), T.IntType)):
                    return SInt(self.val)
                return Rope([Atom(self.body, what="strbody")])
            if ip.ctx.branch(self.kind == STRING):
                return Rope([Atom(self.body, what="strbody")])
            if ip.ctx.branch(self.kind <= ENUM):
                return Opaque("value of a name")
            if ip.ctx.branch(self.kind == NOVALUE):
                return None
        raise PyRaise(AttributeError(name))

    def sym_eq(self, ip, o):
        if o is self:
            return True
        raise Unsupported("comparison of arguments")

    def subst(self, k, t):
        return Imm(z3.simplify(z3.substitute(self.i, (k, t))))

    def fine(self):
        """it may be an immediate: a name, or something with a known value that is an integer or bytes"""
        t = type_term("immediate", self.i)
        return z3.Or(self.kind == CONST, z3.And(self.kind == ENUM, z3.Or(NF == 0, is_field(self.name))), self.kind == NUMBER, self.kind == STRING,
                     z3.And(self.kind == WITHVALUE, z3.Or(isa(KIND(t), T.IntType), isa(KIND(t), T.BytesType))))

    def text(self):
        t = type_term("immediate", self.i)
        n = z3.IntToStr(self.val)  # the decimal text of the value, as the engine writes that of str(value)
        return z3.If(self.kind <= ENUM, self.name, z3.If(isa(KIND(t), T.IntType), n, z3.Concat(z3.StringVal('"'), self.body, z3.StringVal('"'))))

    def value(self):
        """what takes its place among the immediates"""
        t = type_term("immediate", self.i)
        return OneOf("immediate", [(self.kind <= ENUM, Rope([Atom(self.name, safe=True)])),
                                   (z3.And(self.kind > ENUM, isa(KIND(t), T.IntType)), SInt(self.val)),
                                   (z3.And(self.kind > ENUM, z3.Not(isa(KIND(t), T.IntType))), Rope(['"', Atom(self.body, what="strbody"), '"']))])


class ImmProcess:
    pyver_symbolic = True

    def __init__(self, x):
        self.x = x

    def sym_call(self, ip, args, kwargs):
        if not ip.ctx.branch(uf("argument is correct", [INT], BOOL)(self.x.i)):
            raise PyRaise(CompileError("an argument is wrong", node=mk(en.Constant, name="x", parent=None, _line_no=1, _line="x")))
        return None


class Args:
    """the arguments of a call: any number"""

    pyver_symbolic = True

    def __init__(self, n):
        self.n, self.e = n, expr("a")

    def at(self, j):
        return OneOf(f"argument {z3.simplify(j)}", [(j < SIZ - 1, Imm(z3.simplify(j))), (z3.Not(j < SIZ - 1), self.e(z3.simplify(j)))])

    def sym_len(self, ip):
        return SInt(self.n)

    def sym_truth(self, ip):
        return mkbool(self.n > 0)

    def sym_iter(self, ip):
        return [("many", SList("arguments", self.n, self.at))]

    def sym_getitem(self, ip, i):
        i = ip.resolve(i)
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("step")
            lo = ip.clamp(ip.resolve(i.start), self.n, z3.IntVal(0))
            hi = ip.clamp(ip.resolve(i.stop), self.n, self.n)
            if not ip.ctx.branch(hi > lo):
                return []
            return maps.Cells("arguments", z3.simplify(hi - lo), lambda j, lo=lo: self.at(j + lo))
        x = zi(i)
        if ip.ctx.branch(x < 0):
            x = x + self.n
        if not ip.ctx.branch(z3.And(x >= 0, x < self.n)):
            raise PyRaise(IndexError("list index out of range"))
        return self.at(x)


def each_immediate():
    """after k rounds the first k immediates are replaced by their values, and each of them is fine"""
    class Each(Inv):
        def run(self, ip, s, fr, it):
            segs = ip.iterate(it)
            if any(kind == "one" for kind, _ in segs) or not segs:
                return ordinary(ip, s, fr, it)
            x = segs[0][1].at(z3.IntVal(0))
            x = x[1] if isinstance(x, tuple) else x
            cells = [v for v, c in fr.loc.items() if isinstance(c, maps.Cells)]
            if isinstance(ip.resolve(x), Hole):
                return ordinary(ip, s, fr, it)
            if len(cells) != 1:
                raise Unsupported("the variable the invariant is about is not found")
            self.var = cells[0]
            self.cells = fr.loc[self.var]
            return super().run(ip, s, fr, it)

    def want(ip, k):
        c = inv.cells

        def get(j):
            if ip.ctx.branch(j < k):
                return Imm(z3.simplify(j)).value()
            return c.get(j)
        return maps.Cells("immediates", c.n, get)

    def set_(ip, fr, k):
        fr.loc[inv.var] = want(ip, k)

    def check_(ip, fr, k):
        got = ip.resolve(fr.loc[inv.var])
        if not isinstance(got, maps.Cells):
            raise Refuted("the immediates are no list any more")
        j = fresh("j")
        if ip.ctx.decide(2, "an immediate") == 1:
            return
        ip.ctx.assume(z3.And(j >= 0, j < k, j < SIZ - 1))
        if not ip.ctx.feasible():
            raise PathEnd()
        check(ip, zs(ip.to_str(ip.resolve(got.at(ip, j)))) == Imm(j).text(), "the text of an immediate")
        if not z3.is_int_value(k):
            Imm(j).typed(ip)
            check(ip, z3.Implies(j == k - 1, Imm(j).fine()), "an argument that is no immediate is accepted")
        raise PathEnd()
    inv = Each(set_, check_)
    return inv


def op_call(o):
    """the immediates first, then the arguments with their types; the results last-pushed first; the opcode after the arguments, with its immediates"""
    n = z3.Int("nargs")
    j = z3.Int("j!c")
    op = any_op()
    c = 0
    seen = set()
    know = z3.Bool("opcode known")
    imms = z3.If(SIZ > 1, SIZ - 1, z3.IntVal(0))
    jm = z3.Int("j!imm")

    def look(ip, self, name):
        if not ip.ctx.branch(know):
            raise PyRaise(KeyError("no such opcode"))
        return op

    def types(ip, self, name, args):
        """contract of check_arg_types, for as many arguments as the opcode has"""
        segs = ip.iterate(args)
        if zs(ip.resolve(name)).sexpr() != OPN.sexpr():
            raise Refuted("the types of another opcode are checked")
        for kind, x in segs:
            if kind == "one":
                raise Unsupported("arguments")
        if len(segs) > 1:
            raise Unsupported("arguments")
        if segs:
            k = fresh("k")
            ip.ctx.assume(z3.And(k >= 0, k < segs[0][1].n))
            h = ip.resolve(segs[0][1].at(k))
            if not isinstance(h, Hole) or not ip.ctx.valid(h.idx[0] == k + SIZ - 1):
                raise Refuted("the types of other arguments are checked")
        else:
            check(ip, NA == 0, "no types are checked")
        ip.effects.append(Event("types", None))
        if not ip.ctx.branch(z3.Bool("types fit")):
            raise PyRaise(CompileError("types", node=mk(en.Constant, name="x", parent=None, _line_no=1, _line="x")))
        return None

    def build(ip):
        m = mk(en.OpCall, name=Rope([Atom(OPN, safe=True)]), args=Args(n), nodes=[], type=T.AVMType.none, immediate_args="", parent=parent())
        return compile_node(ip, m)

    con = {"LangSpec.lookup_op": look, "BaseNode.check_arg_types": types}
    for r in runs(o, build, con, {("OpCall.process_op_call", "for"): each_immediate()}, base=OPBASE + [n >= 0], limit=3000):
        if r.kind == "cut":
            continue
        seen.add(r.kind)
        c += 1
        right = z3.And(know, SIZ >= 1, n == SIZ - 1 + NA)
        if r.kind == "raise":
            if not isinstance(r.value, CompileError):
                raise Refuted(f"not a compile error: {r.value!r}")
            wrong = z3.Exists([jm], z3.And(jm >= 0, jm < SIZ - 1, z3.Or(z3.Not(uf("argument is correct", [INT], BOOL)(jm)), z3.Not(Imm(jm).fine()))))
            must_(r, z3.Or(z3.Not(right), z3.Not(z3.Bool("types fit")), wrong), f"a call as specified is rejected: {r.value!r}")
            continue
        must_(r, z3.And(right, z3.Bool("types fit")), "a call with another number of immediates or arguments is accepted")
        ev = [e.what for e in r.ip.effects if isinstance(e, Event)]
        if ev.count("types") != 1:
            raise Refuted("the types of the arguments are not checked")
        # the type of the call
        ty = r.ip.resolve(r.ip.get_attr(r.value, "type"))
        if isinstance(ty, SymType):
            must_(r, z3.And(NR == 1, ty.term == RETTYPE(z3.IntVal(0)).term), "the type of a call")
        else:
            must_(r, NR != 1, "one result given as a list")
            alike(r, ty, NR, RETTYPE, "the types of a call")
        # what is written
        out = r.ip.out
        if not out or not isinstance(out[-1], Line):
            raise Refuted(f"written: {out}")
        written(r, out[:-1])
        line_text(r, out[-1].text)
    if seen != {"ok", "raise"}:
        raise Refuted(f"only {seen}")
    return c


def written(r, out):
    """the arguments in order, each once"""
    from .interp import ForEach

    if not out:
        must_(r, NA == 0, "no arguments are written")
        return
    if len(out) != 1 or not isinstance(out[0], ForEach):
        raise Refuted(f"written before the opcode: {out}")
    f = out[0]
    must_(r, f.n == NA, "how many arguments are written")
    for gs, items in f.alts:
        ok = z3.And(f.k >= 0, f.k < f.n, *gs)
        if not r.ctx.feasible(ok):
            continue
        if len(items) != 1 or not isinstance(items[0], Emit) or not items[0].hole.idx:
            raise Refuted(f"written for an argument: {items}")
        must_(r, z3.Implies(ok, items[0].hole.idx[0] == f.k + SIZ - 1), "the arguments in order")


def line_text(r, t):
    """the opcode and its immediates"""
    t = r.ip.resolve(t)
    parts = list(t.parts) if isinstance(t, Rope) else [t]
    if not isinstance(parts[0], Atom) or not parts[0].term.eq(OPN):
        raise Refuted(f"the opcode is written as {t!r}")
    if len(parts) == 1:
        must_(r, SIZ == 1, "the immediates are not written")
        return
    if len(parts) != 3 or parts[1] != " " or not isinstance(parts[2], Many):
        raise Refuted(f"the opcode is written as {t!r}")
    m = parts[2]
    must_(r, z3.And(m.n == SIZ - 1), "how many immediates are written")
    if m.glue != " ":
        raise Refuted(f"the immediates are separated by {m.glue!r}")
    for gs, rope in ([([], m.rope)] if m.rope is not None else m.alts):
        Imm(m.k).typed(r.ip)
        must_(r, z3.Implies(z3.And(m.k >= 0, m.k < m.n, Imm(m.k).fine(), *gs), rope.z() == Imm(m.k).text()), "the text of an immediate")


OBLIGATIONS = [("type_lookup", type_lookup), ("convert_args_to_types", convert_args)]
OBLIGATIONS += [(f"Op with {label(h)}{w}", op_init(h, f), 240) for h in FORMS for w, f in (("", plain), (", an operator", operator), (", one to ignore", to_ignore))]
OBLIGATIONS += [("LangSpec", spec_init), ("lookups of a specification", lookup_op), ("named constants", lookup_constant), ("lookups of nodes", base_lookups),
                ("differences of two specifications", compare), ("new opcodes", new_ops), ("new local opcodes", new_local), ("which specification is active", active),
                ("one active specification", active_everywhere)]
OBLIGATIONS += [("types of arguments", checked), ("call of an opcode", op_call)]
