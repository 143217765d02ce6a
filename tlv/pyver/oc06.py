"""C06: fields occupy disjoint exact byte ranges; boxes are created and opened with the struct's size."""
import z3

from . import lines, sem
from .domain import *  # noqa: F401,F403
from .domain import Event
from .interp import PathEnd, fresh
from .maps import Inv, MapV, as_map, check, same_map
from .oc02 import compiler, node_init, outer
from .oc03 import must_
from .sem import Refuted, V, is_B, is_I, pow256
from .values import *  # noqa: F401,F403

STR, I = z3.StringSort(), z3.IntSort()
NAMED = z3.Function("type named", STR, TY)
KNOWN = z3.Function("names a type", STR, z3.BoolSort())


# -- the types a field may have -----------------------------------------------------------
def field_type_facts(t):
    """what get_type_instance promises of its results (proved below): integers are 8 bytes wide, small ones 1"""
    k, s = KIND(t), SIZE(t)
    return z3.And(k >= 0, k < len(TYPES), s >= 0, z3.Implies(z3.And(isa(k, T.IntType), z3.Not(isa(k, T.UIntType))), s == 8),
                  z3.Implies(isa(k, T.UIntType), s == 1), z3.Or(isa(k, T.IntType), isa(k, T.BytesType)))


def named(ip, name):
    """contract of get_type_instance"""
    z = zs(ip.resolve(name))
    if not ip.ctx.branch(KNOWN(z)):
        raise PyRaise(KeyError("Unknown type"))
    ip.ctx.assume(field_type_facts(NAMED(z)))
    return SymType(NAMED(z))


NAMES = {"int": (T.IntType, 8), "bytes": (T.BytesType, 0), "bigint": (T.BigIntType, 0), "addr": (T.AddrType, 32), "uint8": (T.UInt8Type, 1), "uint64": (T.IntType, 8)}


def type_names(o):
    """the simple type names"""
    c = 0
    for name, (cls, size) in NAMES.items():
        for r in runs(o, lambda ip: ip.call(T.get_type_instance, [name], {})):
            if r.kind != "ok" or type(r.value) is not cls or r.ip.resolve(r.value.size) != size:
                raise Refuted(f"{name}: {r.value!r}")
            c += 1
    return c


def sized(pre, post, cls, opening, width=1):
    """bytes[n], uint8[n]: for every n"""
    def f(o):
        n = z3.Int("n")
        c = 0

        def build(ip):
            return ip.call(T.get_type_instance, [Rope([pre, IntText(n), post])], {})

        for r in runs(o, build, REGEX, base=[n >= 0]):
            if r.kind != "ok":
                raise Refuted(f"{pre}n{post} is no type: {r.value!r}")
            if type(r.value) is not cls:
                raise Refuted(f"{pre}n{post} is a {type(r.value).__name__}")
            must_(r, zi(r.ip.resolve(r.value.size)) == n * width, f"the size of {pre}n{post}")
            c += 1
        return c
    return f


def fullmatch(ip, pattern, text_, *flags):
    """re.fullmatch for patterns made of literals around one group of a repeated class: decided by the real pattern"""
    t = ip.resolve(text_)
    if not isinstance(pattern, str) or flags:
        raise Unsupported("pattern")
    lit_pre, cls, lo, lit_post = one_group(pattern)
    parts = list(t.parts) if isinstance(t, Rope) else [t]
    if isinstance(t, str):
        import re
        m = re.fullmatch(pattern, t)
        return m
    # literal + unknown + literal
    if not (len(parts) <= 3 and sum(not isinstance(p, str) for p in parts) == 1):
        raise Unsupported(f"fullmatch of {t!r}")
    i = [j for j, p in enumerate(parts) if not isinstance(p, str)][0]
    pre, post, mid = "".join(parts[:i]), "".join(parts[i + 1:]), parts[i]
    if not isinstance(mid, IntText):
        raise Unsupported(f"fullmatch of {t!r}")
    # the text is pre + digits (at least one) + post
    import re
    import string
    digits = set(string.digits)
    if pre.startswith(lit_pre) and post.endswith(lit_post) and all(ch in cls for ch in pre[len(lit_pre):]) and all(ch in cls for ch in post[:len(post) - len(lit_post)]):
        if digits <= cls and lo <= 1:
            first = cls_first(pattern)
            g = [pre[len(lit_pre):], mid, post[:len(post) - len(lit_post)]]
            if first is not None:
                if not pre[len(lit_pre):] or pre[len(lit_pre)] not in first:
                    raise Unsupported("first character")
            return Match(mkstr(Rope(g)))
        raise Unsupported(f"fullmatch of {t!r}")
    # no digit can stand where the pattern has a literal that is none: not matched if a fixed part disagrees
    if not (pre.startswith(lit_pre[:len(pre)]) or lit_pre.startswith(pre)) or not (post.endswith(lit_post) or lit_post.endswith(post)):
        return None
    if not pre.startswith(lit_pre):
        # the rest of the literal would have to be digits
        rest = lit_pre[len(pre):]
        if rest and rest[0] not in digits:
            return None
    if pre.startswith(lit_pre) and any(ch not in cls for ch in pre[len(lit_pre):]):
        return None
    if post.endswith(lit_post) and any(ch not in cls for ch in post[:len(post) - len(lit_post)]):
        return None
    if not post.endswith(lit_post):
        return None
    raise Unsupported(f"fullmatch of {t!r}")


class Match:
    pyver_symbolic = True

    def __init__(self, g):
        self.g = g

    def sym_truth(self, ip):
        return True

    def sym_getattr(self, ip, name):
        if name in ("groups", "group", "__getitem__"):
            return MatchMethod(self, name)
        raise Unsupported(f"match.{name}")

    def sym_getitem(self, ip, i):
        if i != 1:
            raise Unsupported("group")
        return self.g


class MatchMethod:
    pyver_symbolic = True

    def __init__(self, m, name):
        self.m, self.name = m, name

    def sym_call(self, ip, args, kwargs):
        if self.name == "groups":
            return (self.m.g,)
        if list(args) != [1]:
            raise Unsupported("group")
        return self.m.g


def parsed(pattern):
    import re._parser as sp

    return sp.parse(pattern)


def chars(items):
    import re._constants as k

    out = set()
    for op, a in items:
        if op is k.LITERAL:
            out.add(chr(a))
        elif op is k.RANGE:
            out |= {chr(x) for x in range(a[0], a[1] + 1)}
        else:
            raise Unsupported("character class")
    return out


def one_group(pattern):
    """(literal, characters that may be in the group, least length of the repetition, literal)"""
    import re._constants as k

    pre, post, cls, lo, seen = "", "", None, 0, False
    for op, a in parsed(pattern):
        if op is k.LITERAL:
            if seen:
                post += chr(a)
            else:
                pre += chr(a)
        elif op is k.SUBPATTERN and not seen:
            seen = True
            inner = list(a[3])
            cls, lo = set(), 0
            for op2, b in inner:
                if op2 is k.MAX_REPEAT:
                    cls |= chars(b[2][0][1])
                    lo += b[0]
                elif op2 is k.IN:
                    cls |= chars(b)
                    lo += 1
                else:
                    raise Unsupported("group")
        else:
            raise Unsupported(f"pattern {pattern}")
    if not seen:
        raise Unsupported(f"pattern {pattern}")
    return pre, cls, lo, post


def cls_first(pattern):
    """the characters the group may start with, if it starts with a class of its own"""
    import re._constants as k

    for op, a in parsed(pattern):
        if op is k.SUBPATTERN:
            inner = list(a[3])
            if inner[0][0] is k.IN and len(inner) > 1:
                return chars(inner[0][1])
    return None


REGEX = {"re.fullmatch": fullmatch}


# -- the layout -----------------------------------------------------------------------------
H0 = z3.Function("has field", STR, z3.BoolSort())
OFF0, TY0 = z3.Function("offset of field", STR, I), z3.Function("type of field", STR, TY)


def field_obj(ty, off):
    return mk(T.StructField, tealish_type=SymType(ty), offset=SInt(off), size=SInt(SIZE(ty)))


def struct(name="sname", cls=T.StructType, **attrs):
    """a struct type whose fields are unknown"""
    fields = MapV("fields", lambda x: H0(x), lambda x: field_obj(TY0(x), OFF0(x)))
    return mk(cls, name=text(name), fields=fields, size=SInt(z3.Int("struct size")), **attrs)


def same_field(ip, a, b, what):
    for f in ("offset", "size"):
        check(ip, zi(ip.resolve(ip.get_attr(a, f))) == zi(ip.resolve(ip.get_attr(b, f))), f"{what}: the {f} of a field")
    ta, tb = ip.resolve(ip.get_attr(a, "tealish_type")), ip.resolve(ip.get_attr(b, "tealish_type"))
    if not isinstance(ta, SymType) or not isinstance(tb, SymType):
        raise Unsupported("type of a field")
    check(ip, ta.term == tb.term, f"{what}: the type of a field")


def add_field(o):
    """the new field starts where the struct ended and is as wide as its type; the others stay; the struct grows by the width"""
    t = z3.Const("t", TY)
    size = z3.Int("struct size")
    c = 0

    def build(ip):
        s = struct()
        before = as_map(ip, s.fields).copy()
        ip.call(ip.get_attr(s, "add_field"), [text("fname"), SymType(t)], {})
        check(ip, zi(ip.resolve(s.size)) == size + SIZE(t), "the size of the struct")
        before.layers = before.layers + [("set", z3.String("fname"), field_obj(t, size))]
        same_map(ip, s.fields, before, same_field, "add_field")
        return s

    for r in runs(o, build, base=[SymType(t).facts(), size >= 0]):
        if r.kind != "ok":
            raise Refuted(f"add_field raises {r.value!r}")
        c += 1
    return c


def new_struct(o):
    """a new struct has no fields and no bytes"""
    c = 0
    for r in runs(o, lambda ip: (ip, ip.call(T.StructType, [text("sname")], {}))):
        if r.kind != "ok":
            raise Refuted("fails")
        ip, s = r.value
        if ip.resolve(s.fields) != {} or ip.resolve(s.size) != 0 or repr(s.name) != repr(text("sname")):
            raise Refuted(f"{s.__dict__}")
        c += 1
    return c


# the lines of a struct: line START+1+j is its j-th child, a comment or a field
FNAME, FTYPE = z3.Function("field name of", STR, STR), z3.Function("type name of", STR, STR)
CHILD = z3.Int("number of children")
SUM = z3.Function("bytes before child", I, I)
FH, FI = z3.Function("field among the first", I, STR, z3.BoolSort()), z3.Function("last child that is the field", I, STR, I)


def child_line(j):
    return lines.LINE(z3.simplify(lines.START + 1 + j))


def is_comment(j):
    return z3.PrefixOf(z3.StringVal("#"), child_line(j))


def name_of(j):
    return FNAME(child_line(j))


def type_of(j):
    return NAMED(FTYPE(child_line(j)))


FIELD = Family("field definition", "stmt", cls=nodes.StructFieldDefinition,
               fields={"current_scope": lambda p: Opaque("scope", attrs={"name": ""}, cls=scope_mod.Scope), "field_name": lambda p: Rope([Atom(FNAME(lines.LINE(p)), safe=True)]), "data_type": lambda p: Rope([Atom(FTYPE(lines.LINE(p)), safe=True)])})
COMMENT = Family("comment", "stmt", cls=nodes.Comment, fields={"current_scope": lambda p: Opaque("scope", attrs={"name": ""}, cls=scope_mod.Scope)})


def child(j):
    p = z3.simplify(lines.START + 1 + j)
    return OneOf("child", [(is_comment(j), COMMENT(p)), (z3.Not(is_comment(j)), FIELD(p))])


def child_of_line(fam):
    def f(ip, t, parent=None, compiler=None):
        t = ip.resolve(t)
        if not isinstance(t, Rope) or len(t.parts) != 1:
            raise Unsupported("line of a field")
        term = t.parts[0].term
        if not term.decl().eq(lines.LINE):
            raise Unsupported("line of a field")
        if fam is FIELD and not ip.ctx.branch(z3.Function("is a field line", STR, z3.BoolSort())(term)):
            raise PyRaise(ParseError("not understood"))
        return fam(term.arg(0))
    return f


def same_child(ip, v, j, what):
    """v is the j-th child"""
    v = ip.resolve(v)
    p = lines.START + 1 + j
    if not isinstance(v, Hole):
        raise Refuted(f"{what}: {v!r}")
    check(ip, v.idx[0] == p, f"{what}: from another line")
    check(ip, is_comment(j) if v.family is COMMENT else z3.Not(is_comment(j)), f"{what}: a comment is taken for a field, or a field for a comment")


def children(k):
    return SeqV([("many", SList("children", k, child))])


class Lines(Inv):
    """the loop over the lines: k lines read, k children, none of them 'end'"""

    def __init__(self):
        j = z3.Int("j!e")
        Inv.__init__(self, self.put, self.chk)

    def node_of(self, fr):
        got = [v for v, x in fr.loc.items() if isinstance(x, nodes.StructDefinition)]
        if len(got) != 1:
            raise Unsupported("the node of the struct is not found")
        return fr.loc[got[0]]

    def put(self, ip, fr, k):
        n = self.node_of(fr)
        ip.set_attr(n, "child_nodes", children(k))
        ip.set_attr(n, "nodes", children(k))
        ip.set_attr(fr.loc["compiler"], "line_no", SInt(lines.START + 1 + k))
        ip.end_at = k
        j = z3.Int("j!e")
        ip.ctx.assume(lines.START + 1 + k <= lines.TOTAL)
        ip.ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), child_line(j) != z3.StringVal("end"))))

    def chk(self, ip, fr, k):
        n = self.node_of(fr)
        check(ip, zi(ip.get_attr(fr.loc["compiler"], "line_no")) == lines.START + 1 + k, "a line is dropped or read twice")
        i = fresh("i")
        zero = z3.is_int_value(z3.simplify(k)) and z3.simplify(k).as_long() == 0
        if not zero:
            ip.ctx.assume(z3.And(i >= 0, i < k))
        for c in (ip.get_attr(n, "child_nodes"), ip.get_attr(n, "nodes")):
            ln = ip.length(ip.resolve(c))
            check(ip, (ln if z3.is_expr(ln) else zi(ln)) == k, "the number of children")
            if not zero:
                same_child(ip, ip.index(ip.resolve(c), i), i, "a child")


def definition(o):
    """consume: every line up to 'end' is a child in order, and field k starts where the fields before it end"""
    x = z3.Const("x!f", STR)

    def axioms(ip, k):
        out = [SUM(0) == 0, z3.ForAll([x], z3.Not(FH(0, x)), patterns=[FH(0, x)])]
        for kk in (k - 1, k):
            w = z3.If(is_comment(kk), 0, SIZE(type_of(kk)))
            here = z3.And(z3.Not(is_comment(kk)), name_of(kk) == x)
            out.append(z3.Implies(kk >= 0, z3.And(SUM(kk + 1) == SUM(kk) + w, z3.ForAll([x], z3.And(
                FH(kk + 1, x) == z3.Or(here, FH(kk, x)), FI(kk + 1, x) == z3.If(here, kk, FI(kk, x)))))))
        return [z3.simplify(c) for c in out]

    def fields(k):
        return MapV(f"fields {k}", lambda y: FH(k, y), lambda y: field_obj(type_of(FI(k, y)), SUM(FI(k, y))))

    def chk(ip, fr, k):
        s = ip.get_attr(rd.node_of(fr), "struct")
        check(ip, zi(ip.resolve(s.size)) == SUM(k), "the size of the struct")
        same_map(ip, s.fields, fields(k), same_field, "the fields")

    def put(ip, fr, k):
        s = ip.get_attr(rd.node_of(fr), "struct")
        ip.set_attr(s, "size", SInt(SUM(k)))
        ip.set_attr(s, "fields", fields(k))

    rd = Lines()
    inv = Inv(put, chk, axioms)

    def build(ip):
        ip.contracts = {**ip.contracts, **lines.CONTRACTS, "Node.__init__": node_init(name=text("sname")), "StructFieldDefinition": child_of_line(FIELD),
                        "Comment": child_of_line(COMMENT), "get_type_instance": named,
                        "define_struct": lambda ip, s: ip.effects.append(Event("define", s))}
        comp = lines.Source().make()
        p = Opaque("program", attrs={"line_no": 0}, cls=nodes.Program)
        n = ip.call(ip.get_attr(nodes.StructDefinition, "consume"), [comp, p], {})
        if not isinstance(n, nodes.StructDefinition):
            raise Refuted(f"consume returns {n!r}")
        k = ip.end_at
        check(ip, child_line(k) == z3.StringVal("end"), "the definition ends elsewhere than at 'end'")
        check(ip, zi(comp.attrs["line_no"]) == lines.START + 2 + k, "the position after the definition")
        s = n.struct
        if [(e.what, e.obj) for e in ip.effects if isinstance(e, Event)] != [("define", s)]:
            raise Refuted(f"what is defined: {ip.effects}")
        if repr(s.name) != repr(text("sname")):
            raise Refuted("the name of the struct")
        check(ip, zi(ip.resolve(s.size)) == SUM(k), "the size of the struct")
        same_map(ip, s.fields, fields(k), same_field, "the fields")
        return n

    rs = runs(o, build, loops={("StructDefinition.consume", "while"): rd, ("StructDefinition.consume", "for", 1): inv}, base=lines.BASE)
    if not any(r.kind == "ok" for r in rs):
        raise Refuted("no struct is accepted")
    for r in rs:
        if r.kind == "raise" and not isinstance(r.value, (ParseError, CompileError, KeyError)):
            raise Refuted(f"{r.value!r}")
    return len(rs)


def lemma_layout(o):
    """by induction on the fields: a field ends where the next one starts, and lies inside the struct; so two fields never overlap"""
    W = z3.Function("width", I, I)
    i, j, n = z3.Ints("i j n")
    ax = lambda *ks: [SUM(0) == 0] + [z3.Implies(k >= 0, SUM(k + 1) == SUM(k) + W(k)) for k in ks] + [z3.ForAll([i], W(i) >= 0)]  # noqa: E731
    c = 0
    p = lambda jj: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < jj), SUM(i) + W(i) <= SUM(jj)))  # noqa: E731
    q = z3.ForAll([i], z3.Implies(i >= 0, SUM(i + 1) == SUM(i) + W(i)))
    for what, hyp, goal in (("base", ax(), p(z3.IntVal(0))), ("step", ax(j) + [j >= 0, q, p(j)], p(j + 1)),
                            ("inside", ax() + [n >= 0, p(n), i >= 0, i < n], SUM(i) + W(i) <= SUM(n)),
                            ("disjoint", ax() + [i >= 0, i < j, p(j)], SUM(i) + W(i) <= SUM(j))):
        r, m = solve(hyp + [z3.Not(goal)], 10000)
        if r == z3.sat:
            raise Refuted(f"{what}: {m}")
        if r != z3.unsat:
            raise Unsupported(f"{what}: not decided")
        c += 1
    return c


def lemma_bytes(o):
    """writing the range of one field: the bytes of the range are those written, every byte outside is unchanged"""
    A = z3.ArraySort(I, I)
    b, v = z3.Consts("b v", A)
    off, w, off2, w2, i = z3.Ints("off w off2 w2 i")
    r = z3.Lambda([i], z3.If(z3.And(i >= off, i < off + w), v[i - off], b[i]))
    c = 0
    for what, hyp, goal in (("read after write", [i >= 0, i < w], r[off + i] == v[i]),
                            ("other fields", [z3.Or(off + w <= off2, off2 + w2 <= off), i >= 0, i < w2], r[off2 + i] == b[off2 + i])):
        x, m = solve(hyp + [w >= 0, z3.Not(goal)], 8000)
        if x == z3.sat:
            raise Refuted(f"{what}: {m}")
        if x != z3.unsat:
            raise Unsupported(f"{what}: not decided")
        c += 1
    return c


# -- boxes -------------------------------------------------------------------------------------
def box_type(o):
    """a box type has the fields and the size of its struct"""
    c = 0
    for known in (True, False):
        s = struct()

        def look(ip, name):
            if not known:
                raise PyRaise(KeyError("no such struct"))
            ip.looked = name
            return s

        for r in runs(o, lambda ip: (ip, ip.call(T.BoxType, [text("sname")], {})), {"get_struct": look}):
            if not known:
                if r.kind != "raise":
                    raise Refuted("a box of an unknown struct")
                c += 1
                continue
            ip, b = r.value
            if b.fields is not s.fields or zi(b.size) is None or not zi(b.size).eq(zi(s.size)) or repr(ip.looked) != repr(text("sname")):
                raise Refuted("the fields or the size of a box type")
            c += 1
    return c


def struct_table(o):
    """get_struct finds what define_struct defined under that name, and other names stay"""
    c = 0

    def build(ip):
        s = struct("sname")
        before = MapV("structs", z3.Function("struct defined", STR, z3.BoolSort()), lambda x: Opaque(f"struct {x}"))
        T_structs = T._structs
        ip.grown[id(T_structs)] = (T_structs, before)
        old = before.copy()
        ip.call(T.define_struct, [s], {})
        x = fresh("x", STR)
        try:
            v = ip.call(T.get_struct, [Rope([Atom(x, safe=True)])], {})
        except PyRaise as e:
            if not isinstance(e.exc, KeyError):
                raise Refuted(f"get_struct raises {e.exc!r}")
            check(ip, z3.And(x != z3.String("sname"), z3.Not(old.has(x))), "a defined struct is not found")
            return None
        if v is s:
            check(ip, x == z3.String("sname"), "another struct is found")
        else:
            check(ip, z3.And(x != z3.String("sname"), old.has(x)), "an undefined struct is found, or the old one")
            if not isinstance(v, Opaque) or v.name != f"struct {x}":
                raise Refuted("another struct is found")
        return v

    for r in runs(o, build):
        c += 1
    return c


# -- reading ---------------------------------------------------------------------------------------
VNAME, FLD = text("vname"), text("field")
FT, OFF = TY0(z3.String("field")), OFF0(z3.String("field"))
LAYOUT = [field_type_facts(FT), OFF >= 0, SIZE(FT) >= 1, pow256(z3.IntVal(0)) == 1]


def var_type(kinds=("struct", "box")):
    alts = []
    k = z3.Int("kind of variable")
    if "struct" in kinds:
        alts.append((k == 0, struct()))
    if "box" in kinds:
        alts.append((k == 1, struct(cls=T.BoxType, struct_name=text("sname"))))
    if "other" in kinds:
        t = SymType(z3.Const("vartype", TY))
        alts.append((z3.And(k == 2, z3.Not(isa(t.kind, T.StructType)), z3.Not(isa(t.kind, T.BoxType))), t))
    return OneOf("type of the variable", alts), k


def with_var(vt):
    def f(ip, self, name):
        if repr(ip.resolve(name)) != repr(VNAME):
            raise Refuted("another variable is looked up")
        if not ip.ctx.branch(z3.Bool("declared")):
            raise PyRaise(KeyError("not declared"))
        return var_of(VNAME, vt)
    return f


def get_var_of(vt):
    def f(ip, self, name):
        try:
            return with_var(vt)(ip, self, name)
        except PyRaise:
            return None
    return f


def read(o):
    """the bytes of the field's range, as an integer if the field is one"""
    vt, k = var_type()

    def ref(m, r):
        b = m.load(slot_of(VNAME))
        if m.ctx.branch(k == 0):
            m.require(is_B(b))
            v = sem.OPSEM._extract(m, b, OFF, SIZE(FT))
        else:
            v = m.op("box_extract", [], [b, V.I(OFF), V.I(SIZE(FT))])[0]
        if m.ctx.branch(isa(KIND(FT), T.IntType)):
            v = m.op("btoi", [], [v])[0]
        return m.end(v)

    def post(r):
        ty = r.ip.resolve(r.value.type)
        if not isinstance(ty, SymType) or not ty.term.eq(FT):
            raise Refuted("the type of a field read")
        must_(r, H0(z3.String("field")), "a field that does not exist is read")

    def entry(m, r):
        return ref(m, r)

    return means(o, lambda ip: ip.call(en.StructOrBoxField, [VNAME, FLD, parent()], {}), ref, contracts={"BaseNode.lookup_var": with_var(vt)},
                 base=LAYOUT + [z3.Or(k == 0, k == 1)], post=post)


# -- writing ------------------------------------------------------------------------------------------
def encode(m, v):
    """a value as the bytes of the field: integers big-endian over the width of the field"""
    if m.ctx.branch(isa(KIND(FT), T.IntType)):
        m.require(is_I(v))
        n = V.n(v)
        return V.B(SIZE(FT), n if m.ctx.branch(SIZE(FT) == 8) else n % pow256(SIZE(FT)))
    return v


def assignment_node(ip, vt):
    e = expr("e")
    ip.contracts = {**ip.contracts, "BaseNode.get_var": get_var_of(vt), "BaseNode.lookup_var": with_var(vt),
                    "TealishType.can_hold_with_cast": lambda ip, a, b: SBool(fresh("can_hold_with_cast", z3.BoolSort()))}
    nm_ = Opaque("name", attrs={"value": VNAME}, cls=nodes.Name)
    return node(nodes.StructOrBoxAssignment, name=nm_, field_name=FLD, expression=e(), compiler=compiler(), parent=outer())


def write(o):
    """the value is computed first; then exactly the field's range of the struct or box is replaced by its encoding"""
    e = expr("e")
    vt, k = var_type()

    def ref(m, r):
        v = encode(m, m.eval1(e()))
        b = m.load(slot_of(VNAME))
        if m.ctx.branch(k == 0):
            m.store(slot_of(VNAME), sem.OPSEM._replace(m, b, OFF, v))
        else:
            m.op("box_replace", [], [b, V.I(OFF), v])
        return m.end()

    return means(o, lambda ip: assignment_node(ip, vt), ref, base=LAYOUT + [z3.Or(k == 0, k == 1)])


def write_check(o):
    """accepted if and only if the variable is a struct or box, the field exists and its type holds the value"""
    vt, k = var_type(("struct", "box", "other"))
    t = type_term("e")
    from .oc05 import iff
    cond = z3.And(z3.Bool("declared"), z3.Or(k == 0, k == 1), H0(z3.String("field")), shape("e") == 1, holds(KIND(FT), SIZE(FT), KIND(t), SIZE(t)))
    return iff(o, lambda ip: assignment_node(ip, vt), cond, base=LAYOUT + [SymType(t).facts(), k >= 0, k <= 2])


# -- box declarations --------------------------------------------------------------------------------------
BOXSIZE = z3.Int("struct size")


def box_node(ip, method):
    s = struct()

    def look(ip, name):
        if repr(ip.resolve(name)) != repr(text("sname")):
            raise Refuted("another struct is looked up")
        return s

    def declare(ip, self, name, ty):
        ip.effects.append(Event("declare", self, name, ty))
        return var_of(name)

    ip.contracts = {**ip.contracts, "get_struct": look, "BaseNode.declare_scratch_var": declare}
    nm_ = Opaque("name", attrs={"value": VNAME}, cls=nodes.Name)
    return node(nodes.BoxDeclaration, struct_name=text("sname"), name=nm_, method=method, key=expr("e")(), compiler=compiler(), parent=outer())


def box_declaration(method):
    """the key is kept; CreateBox asserts that a box of the struct's size was made, OpenBox that it exists with that size, Box nothing"""
    def f(o):
        e = expr("e")

        def ref(m, r):
            key = m.eval1(e())
            if method == "Open":
                n, exists = m.op("box_len", [], [key])
                m.require(z3.And(is_I(exists), V.n(exists) != 0))
                m.require(z3.And(is_I(n), V.n(n) == BOXSIZE))
            elif method == "Create":
                made, = m.op("box_create", [], [key, V.I(BOXSIZE)])
                m.require(z3.And(is_I(made), V.n(made) != 0))
            elif method == "OpenOrCreate":
                m.op("box_create", [], [key, V.I(BOXSIZE)])
            m.store(slot_of(VNAME), key)
            return m.end()

        def post(r):
            d = [x for x in r.ip.effects if isinstance(x, Event) and x.what == "declare"]
            if len(d) != 1 or d[0].obj is not r.value or repr(d[0].info) != repr((VNAME, Rope(["box<", text("sname"), ">"]))):
                raise Refuted(f"what is declared: {d}")
            t = type_term("e")
            must_(r, z3.And(shape("e") == 1, holds(z3.IntVal(kind_no(T.BytesType)), z3.IntVal(0), KIND(t), SIZE(t))), "a key that is no byte string")

        return means(o, lambda ip: box_node(ip, method), ref, base=[BOXSIZE >= 0], post=post)
    return f


OBLIGATIONS = [("simple type names", type_names), ("bytes[n]", sized("bytes[", "]", T.BytesType, "bytes[")), ("uint8[n]", sized("uint8[", "]", T.ArrayType, "uint8[")),
               ("a new struct", new_struct), ("add_field", add_field), ("struct definition", definition), ("lemma: fields are contiguous and disjoint", lemma_layout),
               ("lemma: writing one range", lemma_bytes), ("box type", box_type), ("struct table", struct_table), ("reading a field", read), ("writing a field", write),
               ("writing a field: what is accepted", write_check)]
OBLIGATIONS += [(f"{m or ''}Box", box_declaration(m)) for m in (None, "Open", "Create", "OpenOrCreate")]
ASSUMPTIONS = ["field types have a size of at least one byte (unsized fields are outside the property)",
               "values of type uint8 are below 256 (literals, casts and reads of such fields)",
               "extract and replace of byte strings are those of the AVM documentation (ranges of bytes)"]
