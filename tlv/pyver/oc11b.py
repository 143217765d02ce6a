"""C11: an expression is printed as the tokens its grammar rule reads it from, with the same parts.

For every class the grammar makes nodes of: the rule is taken from the real parser (textX's own
model of tealish_expressions.tx), the node is made by its own __init__ from what the rule gives,
processed where that changes what is printed, and printed by the real code.  Its parts print
anything of the language EXPR (oc11); what is printed is the rule's tokens in their order, blanks
aside, no blank is missing between tokens that would be read as one, and it is of EXPR again.
"""
import ast
import re

import z3

from . import oc03, oc15b, oc16, regex
from .domain import *  # noqa: F401,F403
from .domain import isa
from .oc11 import AT, EXPR, I, ITEMS, STR, listed, list_name, pieces, show, term
from .regex import ALL, alt, both, cat, chars, fullmatch, marked, neg, star
from .values import *  # noqa: F401,F403

from tealish import base, expression_nodes as en, nodes, stdlib, tx_expressions

ASSUMPTIONS = [
    "an expression that is printed with the tokens it was read from is read as before (textX tries the rules in a fixed order, on tokens)",
    "the texts of a literal are printed with the escapes of Tealish (C14: what the escapes denote)"]
BLANK = re.compile(r"[ \t]+")
BODY = fullmatch(r'(?:\\[^\n]|[^"\\\n])*')


# -- the grammar -------------------------------------------------------------------------
class Tok:
    def __init__(self, kind, name=None, text=None, texts=None, patterns=None):
        self.kind, self.name, self.text, self.texts, self.patterns = kind, name, text, texts, patterns

    def __repr__(self):
        return repr(self.text) if self.kind == "lit" else f"<{self.kind} {self.name}>"

    def language(self):
        if self.kind == "lit":
            return regex.text(self.text)
        if self.texts:
            return alt(*[regex.text(t) for t in self.texts])
        return alt(*[fullmatch(p.replace(r"\b", "")) for p in self.patterns])  # (they end in a letter or digit)


def kind_of(e):
    return type(e).__name__


def value_of(e, name):
    """the token or part that an assignment of the grammar takes"""
    leaves, todo = [], [e]
    while todo:
        x = todo.pop(0)
        if kind_of(x) == "OrderedChoice" and (x.rule_name in ("", "Name") or x.rule_name.endswith("Operator")):
            todo = list(x.nodes) + todo
        else:
            leaves.append(x)
    if all(kind_of(x) == "StrMatch" for x in leaves):
        return Tok("text", name, texts=[x.to_match for x in leaves])
    if all(kind_of(x) == "RegExMatch" for x in leaves):
        if leaves[0].rule_name == "INT":
            return Tok("int", name, patterns=[leaves[0].to_match])
        return Tok("text", name, patterns=[x.to_match for x in leaves])
    if any(kind_of(x) in ("StrMatch", "RegExMatch") for x in leaves):
        raise Unsupported(f"the grammar: {name}")
    return Tok("expr", name)


def tokens(e):
    """what a rule reads, in order"""
    if kind_of(e) == "StrMatch":
        return [Tok("lit", text=e.to_match)]
    if kind_of(e) == "Sequence" and e.rule_name == "__asgn_plain":
        return [value_of(e.nodes[0], e._attr_name)]
    if kind_of(e) == "ZeroOrMore" and e.rule_name == "__asgn_zeroormore":
        t = Tok("list", e._attr_name, text=e.sep.to_match)
        if kind_of(value_of(e.nodes[0], None)) and value_of(e.nodes[0], None).kind != "expr":
            raise Unsupported(f"the grammar: {e._attr_name}")
        return [t]
    if kind_of(e) == "Sequence":
        return [t for n in e.nodes for t in tokens(n)]
    raise Unsupported(f"the grammar: {kind_of(e)} {e.rule_name}")


def rules():
    """{class: its tokens} of the classes the grammar makes"""
    out = {}
    for c in tx_expressions.tealish_mm:
        k = en.class_provider(c.__name__)
        if k is not None and k is not en.Bytes:
            out[k] = tokens(c._tx_peg_rule)
    return out


RULES = rules()


# -- printing ------------------------------------------------------------------------------
def part(ip, t):
    if t.kind == "expr":
        return Family(t.name, "expr", cls=base.BaseNode)()
    if t.kind == "int":
        return SInt(z3.Int(f"part {t.name}"))
    if t.kind == "list":
        f = Family(t.name, "expr", cls=base.BaseNode)
        ip.ctx.assume(z3.Int(f"n_{t.name}") >= 0)
        return SList(t.name, z3.Int(f"n_{t.name}"), lambda i: f(i))
    a = Rope([Atom(term(t.name), what="part")])
    return a


NUMBER = z3.Function("number of", STR, I)


def int_of(ip, v):
    v = ip.resolve(v)
    n = NUMBER(zs(v))
    ip.ctx.assume(n >= 0)
    return SInt(n)


CONTRACTS_ = {("expr", "tealish"): show, "int of text": int_of, "int.bit_length": lambda ip, x: SInt(z3.Int("bits")),
              ("expr", "process"): lambda ip, h: None}


def made(cls, toks):
    def build(ip):
        ip.contracts.update(CONTRACTS_)
        ip.ctx.assume(z3.Int("bits") >= 0)
        n = ip.call(cls, [], {**{t.name: part(ip, t) for t in toks if t.kind != "lit"}, "parent": parent()})
        return n
    return build


def read(r, ps, toks):
    """the printed parts as tokens; blanks are between them only"""
    out = []
    for p in ps:
        if isinstance(p, str):
            out.append(("lit", p))
        elif isinstance(p, IntText):
            e = z3.simplify(p.e)
            if e.decl().name() == "number of":
                out.append(("part", e.arg(0).decl().name()[5:], None))
            elif e.decl().name().startswith("part "):
                out.append(("part", e.decl().name()[5:], None))
            else:
                raise Unsupported(f"printed: {p!r}")
        elif isinstance(p, Atom) and p.term.decl().name().startswith("part "):
            out.append(("part", p.term.decl().name()[5:], None))
        elif isinstance(p, Many):
            n = list_name(p, r.ctx)
            if n is None:
                raise Unsupported(f"printed: {p!r}")
            out.append(("list", n, p))
        else:
            raise Unsupported(f"printed: {p!r}")
    return out


def joined(ts):
    """literal texts beside each other in one, without blanks"""
    out = []
    for t in ts:
        if t[0] == "lit":
            s = BLANK.sub("", t[1])
            if out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + s)
            elif s:
                out.append(("lit", s))
        else:
            out.append((t[0], t[1]))
    return [t for t in out if t[1]]


def expected(toks, without):
    out = []
    for t in toks:
        if t.kind == "lit":
            out.append(("lit", t.text))
        elif t.kind == "list":
            if t.name not in without:
                out.append(("list", t.name))
        else:
            out.append(("part", t.name))
    return joined(out)


FIRST = [c for c in "abzABZ019_\"(!~"]  # what an expression begins with: first_characters
DIGITS = fullmatch("[0-9]+")


def language_of(t):
    if t.kind == "expr":
        return EXPR
    if t.kind == "list":
        return listed(EXPR)
    return t.language() if t.kind != "int" else fullmatch("-?[0-9]+")


def spelled(cls, t):
    """the texts a part is printed as"""
    return DIGITS if cls is en.Integer and t.name == "value" else language_of(t)


def compare(cls, r, ps, toks, without=()):
    """the printed parts are the tokens of the rule, and are read as such"""
    got = read(r, ps, toks)
    for g in got:
        if g[0] == "list":
            must(r, g[2].n == z3.Int(f"n_{g[1]}"))
    want = expected(toks, without)
    if joined(got) != want:
        raise Refuted(f"a {cls.__name__} is printed as {joined(got)}, read as {want}")
    by = {t.name: t for t in toks if t.kind != "lit"}
    # blanks: none inside a token; where none is printed the token before ends there
    line, inside = EPS_, []
    for i, g in enumerate(got):
        if g[0] == "list":
            glue = g[2].glue
            if BLANK.sub("", glue) != by[g[1]].text:
                raise Refuted(f"the items of a list are put together with {glue!r}")
            line = cat(line, cat(EXPR, star(cat(regex.text(glue), EXPR))))
        elif g[0] == "lit":
            line = cat(line, regex.text(g[1]))
            lits = [t.text for t in toks if t.kind == "lit"]
            for w in g[1].split():
                if not can_be_read(w, lits):
                    raise Refuted(f"a blank inside of a token: {g[1]!r}")
        else:
            t = by[g[1]]
            line = cat(line, spelled(cls, t))
            nxt = got[i + 1] if i + 1 < len(got) else None
            if t.kind == "text" and nxt is not None:
                ends_there(cls, t, nxt, by)
            if t.kind == "expr" and nxt is not None and nxt[0] == "part":
                raise Refuted(f"nothing between {g[1]} and {nxt[1]}")
            if t.kind == "expr" and nxt is not None:
                FOLLOW.add(nxt[1][0])
    t = regex.included(line, EXPR)
    if t is not None:
        raise Refuted(f"a {cls.__name__} is printed as {t!r}")


EPS_ = regex.EPS
FOLLOW = {" ", ")", "]", ","}  # what is printed behind an expression: within another, or by a statement


def can_be_read(w, lits):
    """a text without blanks as one token after the other"""
    if not w:
        return True
    return any(w.startswith(l) and can_be_read(w[len(l):], lits) for l in lits) or any(l.startswith(w) and l == w for l in lits)


def ends_there(cls, t, nxt, by):
    """the token before is not read on into what is printed behind it"""
    if nxt[0] == "lit" and nxt[1][0] in " \t":
        return
    if nxt[0] == "lit":
        follow = [nxt[1][0]]
    else:
        follow = FIRST
    if t.texts:
        for s in t.texts:
            for c in follow:
                if any(x.startswith(s + c) for x in t.texts):
                    raise Refuted(f"{s!r} and {c!r} of a {cls.__name__} are printed without a blank: read as another token")
        return
    stops(t, follow)


def stops(t, follow):
    for p in t.patterns:
        for c in follow:
            tail = cat(regex.text(c), star(chars([(32, 126)])))
            m = regex.marks(["x"])
            pat = f"(?P<x>{re.sub(r'[(](?![?])', '(?:', p)})"
            r = regex.groups(cat(marked(m["x"], fullmatch(p.replace(r"\b", ""))), tail), pat)
            if r is not None:
                raise Refuted(f"{r!r} is not read up to {c!r}")


def expression(cls, toks):
    def f(o):
        c = 0
        for r in runs(o, lambda ip: (lambda n: ip.resolve(ip.call(ip.get_attr(n, "tealish"), [], {})))(made(cls, toks)(ip))):
            if r.kind != "ok":
                raise Refuted(f"printing fails: {r.value!r}")
            without = [t.name for t in toks if t.kind == "list" and not r.ctx.feasible(z3.Int(f"n_{t.name}") > 0)]
            compare(cls, r, pieces(r.value), toks, without)
            c += 1
        return c
    return f


def behind(o):
    """a token that ends an expression is not read on into what is printed behind it; expressions begin with no operator"""
    c = 0
    for cls, toks in RULES.items():
        t = toks[-1]
        if t.kind == "text" and t.patterns:
            follow = sorted(FOLLOW)
            if cls is en.Integer:
                t = Tok("text", "value", patterns=["[0-9]+"])
            stops(t, follow)
            c += 1
    for ch in range(33, 127):
        if chr(ch) not in FIRST and not chr(ch).isalnum():
            # no token that begins an expression begins with it
            for cls, toks in RULES.items():
                t = toks[0]
                if cls in (en.PositiveGroupIndex, en.NegativeGroupIndex) or t.kind == "expr":
                    continue
                l = t.language()
                if both(l, cat(chars([(ch, ch)]), ALL)) is not regex.EMPTY and regex.outcomes([both(l, cat(chars([(ch, ch)]), ALL))]).get((True,)) is not None:
                    raise Unsupported(f"an expression begins with {chr(ch)!r}")
                c += 1
    return c


# -- literals ------------------------------------------------------------------------------
def literal(o):
    """a bytes literal: its body, between double quotes, every quote of it escaped (C14)"""
    c = 0
    body = z3.String("body")
    con = {"re.sub": lambda ip, *a: Rope([Atom(z3.String("escaped body"), what="strbody")]) if ip.resolve(a[-1]).parts[0].term.eq(body) else _no(),
           "string_literal_size": lambda ip, v: SInt(z3.Int("size"))}

    def _no():
        raise Unsupported("re.sub of another text")

    def build(ip):
        n = ip.call(en.Bytes, [Rope([Atom(body, what="strbody")]), parent()], {})
        return ip.resolve(ip.call(ip.get_attr(n, "tealish"), [], {}))
    for r in runs(o, build, con, base=[z3.Int("size") >= 0]):
        c += 1
        ps = pieces(r.value) if r.kind == "ok" else None
        if ps is None or len(ps) != 3 or (ps[0], ps[2]) != ('"', '"') or not isinstance(ps[1], Atom) or str(ps[1].term) != "escaped body":
            raise Refuted(f"a bytes literal is printed as {r.value!r}")
    t = regex.included(cat(regex.text('"'), cat(BODY, regex.text('"'))), EXPR)
    if t is not None:
        raise Refuted(f"a bytes literal is printed as {t!r}")
    return c


def verbatim(cls, value):
    """a literal of a statement, or a name: as it was read"""
    def f(o):
        c = 0
        v = Rope([Atom(z3.String("value"), what="part")])
        for r in runs(o, lambda ip: ip.resolve(ip.to_str(ip.resolve(ip.call(ip.get_attr(mk(cls, value=value(v)), "tealish"), [], {}))))):
            c += 1
            if r.kind != "ok":
                raise Refuted(f"printing fails: {r.value!r}")
            w = mkstr([value(v)]) if not isinstance(value(v), SInt) else None
            ps = pieces(r.value)
            if isinstance(value(v), SInt):
                if len(ps) != 1 or not isinstance(ps[0], IntText) or str(ps[0].e) != "number":
                    raise Refuted(f"a {cls.__name__} is printed as {r.value!r}")
            elif len(ps) != 1 or not isinstance(ps[0], Atom) or str(ps[0].term) != "value":
                raise Refuted(f"a {cls.__name__} is printed as {r.value!r}")
        return c
    return f


def args_list(o):
    """the arguments of a function: each name and type, separated by commas"""
    name, ty = z3.Function("argument name", I, STR), z3.Function("argument type", I, STR)
    n = z3.Int("n_args")
    c = 0

    def build(ip):
        a = SList("args", n, lambda i: (Rope([Atom(name(i), what="part")]), Rope([Atom(ty(i), what="part")])))
        return ip.resolve(ip.call(ip.get_attr(mk(nodes.ArgsList, args=a), "tealish"), [], {}))
    for r in runs(o, build, base=[n >= 0]):
        c += 1
        if r.kind != "ok":
            raise Refuted(f"printing fails: {r.value!r}")
        ps = pieces(r.value)
        if ps in ([], [""]):
            must(r, n == 0)
            continue
        if len(ps) != 1 or not isinstance(ps[0], Many):
            raise Unsupported(f"printed: {ps}")
        m = ps[0]
        x = list(m.rope.parts) if isinstance(m.rope, Rope) else None
        if x is None:
            raise Unsupported(f"printed: {ps}")
        if m.glue != ", " or len(x) != 3 or x[1] != ": " or not (isinstance(x[0], Atom) and isinstance(x[2], Atom) and x[0].term.eq(name(m.k)) and x[2].term.eq(ty(m.k))):
            raise Refuted(f"the arguments of a function are printed as {ps}")
        must(r, m.n == n)
    return c


def must(r, c):
    if not r.ctx.valid(c):
        raise Refuted(f"on a path it does not hold that {c}")


# -- calls -------------------------------------------------------------------------------------
def call(cls, names):
    """the same name, and the arguments in their order"""
    def f(o):
        c = 0
        for which in names:
            def build(ip, which=which):
                def op(ip_, self, name):
                    if which == "opcode":
                        return base.lang_spec.lookup_op("itob")
                    raise PyRaise(KeyError("no such opcode"))
                ip.contracts.update(CONTRACTS_)
                ip.contracts["BaseNode.lookup_op"] = op
                toks = RULES[cls]
                a = {t.name: part(ip, t) for t in toks if t.kind != "lit"}
                if which not in ("opcode", "function"):
                    a["name"] = which
                else:
                    for k in (stdlib.op_overrides if cls is en.FunctionCall else stdlib.functions):
                        ip.ctx.assume(term("name") != z3.StringVal(k))
                n = ip.call(cls, [], {**a, "parent": parent()})
                return ip.resolve(ip.call(ip.get_attr(n, "tealish"), [], {}))
            for r in runs(o, build):
                c += 1
                if r.kind == "raise":
                    if cls is en.StdLibFunctionCall and which == "function" and r.value.__class__.__name__ == "CompileError":
                        continue  # no such function: no program
                    raise Refuted(f"printing fails: {r.value!r}")
                ps = pieces(r.value)
                if which not in ("opcode", "function"):
                    if not isinstance(ps[0], str) or not ps[0].startswith(which):
                        raise Refuted(f"a call of {which} is printed as {ps}")
                    ps = [Atom(term("name"), what="part")] + ([ps[0][len(which):]] if ps[0] != which else []) + ps[1:]
                without = [] if r.ctx.feasible(z3.Int("n_args") > 0) else ["args"]
                compare(cls, r, ps, RULES[cls], without)
        return c
    return f


def after(o):
    """a call of an opcode once it is processed: its immediates as the texts they were, then its arguments"""
    n = z3.Int("nargs")
    c, seen = 0, set()

    def build(ip):
        ip.contracts[("expr", "tealish")] = lambda ip, h: Rope([Atom(AT(z3.StringVal("args"), h.idx[0]), what="printed")])
        m = mk(en.OpCall, name=Rope([Atom(oc16.OPN, safe=True)]), args=oc16.Args(n), nodes=[], type=oc16.T.AVMType.none, immediate_args="", parent=parent())
        ip.call(ip.get_attr(m, "process"), [], {})
        return ip.resolve(ip.call(ip.get_attr(m, "tealish"), [], {}))

    con = {"LangSpec.lookup_op": lambda ip, self, name: oc16.any_op(), "BaseNode.check_arg_types": lambda ip, *a: None}
    for r in runs(o, build, con, {("OpCall.process_op_call", "for"): oc16.each_immediate()}, base=oc16.OPBASE + [n >= 0], limit=3000):
        if r.kind != "ok":
            continue
        c += 1
        ps = pieces(r.value)
        if not isinstance(ps[0], Atom) or not ps[0].term.eq(oc16.OPN) or len(ps) < 2 or not isinstance(ps[1], str) or ps[1][0] != "(" or not isinstance(ps[-1], str) or ps[-1][-1] != ")":
            raise Refuted(f"a call is printed as {ps}")
        mid = ps[1:]
        mid[0] = mid[0][1:]
        mid[-1] = mid[-1][:-1]
        mid = [x for x in mid if x != ""]
        ms = [x for x in mid if isinstance(x, Many)]
        seps = [x for x in mid if not isinstance(x, Many)]
        if len(ms) > 2 or seps not in ([], [", "]) or len(seps) != max(0, len(ms) - 1) or (len(ms) == 2 and not isinstance(mid[1], str)):
            raise Refuted(f"a call is printed as {ps}")
        total, order = z3.IntVal(0), []
        for m in ms:
            if m.glue != ", ":
                raise Refuted(f"the arguments of a call are put together with {m.glue!r}")
            kind = None
            for gs, rope in ([([], m.rope)] if m.rope is not None else m.alts):
                ok = z3.And(m.k >= 0, m.k < m.n, *gs)
                if not r.ctx.feasible(ok):
                    continue
                x = rope.parts if isinstance(rope, Rope) else []
                if len(x) == 1 and isinstance(x[0], Atom) and x[0].term.decl().name() == "item":
                    must(r, z3.Implies(ok, x[0].term.arg(1) == m.k + oc16.SIZ - 1))
                    seen.add("args")
                    kind = "args"
                else:
                    oc16.Imm(m.k).typed(r.ip)
                    must(r, z3.Implies(z3.And(ok, oc16.Imm(m.k).fine()), rope.z() == oc16.Imm(m.k).text()))
                    seen.add("imms")
                    kind = "imms"
            if kind is None:
                raise Unsupported(f"printed: {ps}")
            order.append(kind)
            must(r, m.n == (oc16.NA if kind == "args" else oc16.SIZ - 1))
            total = total + m.n
        must(r, total == oc16.SIZ - 1 + oc16.NA)
        if order == ["args", "imms"]:
            raise Refuted("the arguments of a call are printed before its immediates")
    if seen != {"args", "imms"}:
        raise Unsupported(f"only {seen}")
    return c


def names(o):
    """an assignment once it is processed: its names in their order, and its expression"""
    c = 0
    e = expr("e", shapes=("single", "list"))

    def build(ip):
        ip.contracts = {**ip.contracts, "Name": oc03.name_contract(), ("expr", "tealish"): show}
        n = node(nodes.Assignment, names=oc03.Names(), expression=e(), compiler=oc03.compiler(), parent=oc03.outer())
        ip.call(ip.get_attr(n, "process"), [], {})
        return ip.resolve(ip.call(ip.get_attr(n, "tealish"), [], {}))
    for r in runs(o, build, {"BaseNode.get_var": oc03.get_var, "BaseNode.lookup_var": oc03.lookup_var}, base=[oc03.NN >= 1]):
        if r.kind != "ok":
            continue
        c += 1
        ps = pieces(r.value)
        if len(ps) != 4 or not isinstance(ps[0], Many) or ps[3] != "\n":
            raise Unsupported(f"printed: {ps}")
        m = ps[0]
        x = list(m.rope.parts) if isinstance(m.rope, Rope) else None
        if x is None:
            raise Unsupported(f"printed: {ps}")
        if m.glue.strip(" ") != "," or len(x) != 1 or not isinstance(x[0], Atom) or not x[0].term.eq(oc03.NTEXT(m.k)) or ps[1] != " = " or not isinstance(ps[2], Atom) or not ps[2].term.eq(term("e")):
            raise Refuted(f"an assignment is printed as {ps}")
        must(r, m.n == oc03.NN)
    if not c:
        raise Unsupported("no assignment is accepted")
    return c


# -- what processing changes ---------------------------------------------------------------------
CHANGES = {("OpCall", "args"): "printed: a processed call of an opcode", ("OpCall", "immediates"): None, ("OpCall", "immediate_args"): None,
           ("Assignment", "name_nodes"): "printed: a processed assignment"}
ON = {"condition_text": ("IfThen", "Elif", "WhileStatement")}  # functions of a node that are no methods


def frame(o):
    """printing reads nothing of a node that processing has changed (else it is an obligation of its own)"""
    src = oc15b.Source()
    cut = oc15b.Source()
    for k in ("parse", "consume"):
        cut.functions[k] = []
    printers = src.reachable(["tealish", "_tealish"])
    reads, every = {}, set()
    for _, q, fn in printers:
        k = q.split(".")[0]
        for x in oc15b.own(fn):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                if x.value.id == "self":
                    reads.setdefault(k, set()).add(x.attr)
                every.add(x.attr)
            elif isinstance(x, ast.Attribute):
                every.add(x.attr)
        if k not in src.classes:
            for x in oc15b.own(fn):
                if isinstance(x, ast.Attribute):
                    for c in src.classes:
                        reads.setdefault(c, set()).add(x.attr) if c in ON.get(k, ()) else None
    methods = {f for fs in src.functions.values() for _, q, f in fs}
    c = 0

    def of(k):
        """what printing a node of the class, or of one derived from it or the like, reads"""
        return set().union(*[reads.get(x, set()) for x in src.kin(k)]) & NODE_ATTRS(src)
    for _, q, fn in cut.reachable(["process"]):
        k = q.split(".")[0]
        if k not in src.classes:
            continue
        new = q.endswith(".__init__")
        alias = {}
        for s in oc15b.own(fn):
            for t, v in oc15b.targets(s):
                if isinstance(t, ast.Name) and isinstance(v, ast.Attribute):
                    alias[t.id] = v
        for s in oc15b.own(fn):
            hits = []
            for t, v in oc15b.targets(s):
                if isinstance(v, ast.AST) and ast.unparse(v) in [f.format(ast.unparse(t)) for f in ("{}", "list({})", "{}[:]", "[*{}]", "{}.copy()", "str({})")]:
                    continue  # the same again
                deep = False
                while isinstance(t, ast.Subscript):
                    t, deep = t.value, True
                if isinstance(t, ast.Name) and deep and t.id in alias:
                    t = alias[t.id]
                elif isinstance(t, ast.Name):
                    continue
                hits.append(t)
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in oc15b.MUTATING:
                t = s.func.value
                while isinstance(t, ast.Subscript):
                    t = t.value
                if isinstance(t, ast.Name) and t.id in alias:
                    t = alias[t.id]
                hits.append(t)
            for t in hits:
                if not isinstance(t, ast.Attribute):
                    continue
                mine = isinstance(t.value, ast.Name) and t.value.id == "self"
                if mine and new:
                    continue
                c += 1
                if mine and t.attr not in of(k) or (k, t.attr) in CHANGES:
                    continue
                if not mine and t.attr not in every & NODE_ATTRS(src):
                    continue
                if not mine and new and isinstance(t.value, ast.Name) and t.value.id not in [a.arg for a in fn.args.args]:
                    continue
                if not mine:
                    raise Unsupported(f"{q} changes {ast.unparse(t)}, which may be printed")
                raise Refuted(f"{q} changes {ast.unparse(t)}, which is printed (formatting processes the program first)")
    if not c:
        raise Unsupported("no changes found")
    return c


def NODE_ATTRS(src):
    """the attributes that are no methods"""
    return {a for a in set().union(*[{t.attr for f, q, fn in src.all() for s in oc15b.own(fn) for t, v in oc15b.targets(s) if isinstance(t, ast.Attribute)}])} | \
        {s.target.id for _, cl in src.classes.values() for s in cl.body if isinstance(s, ast.AnnAssign)}


OBLIGATIONS = [(f"printed as its rule: {c.__name__}", expression(c, ts)) for c, ts in RULES.items() if c not in (en.FunctionCall, en.StdLibFunctionCall)]
OBLIGATIONS += [("printed: a processed assignment", names), ("printed as its rule: FunctionCall", call(en.FunctionCall, list(stdlib.op_overrides) + ["opcode", "function"]), 120),
                ("printed as its rule: StdLibFunctionCall", call(en.StdLibFunctionCall, list(stdlib.functions) + ["function"]), 120),
                ("printed as its rule: Bytes", literal), ("tokens end where they are printed to", behind),
                ("printed as read: LiteralInt", verbatim(nodes.LiteralInt, lambda v: SInt(z3.Int("number")))), ("printed as read: LiteralBytes", verbatim(nodes.LiteralBytes, lambda v: v)),
                ("printed as read: LiteralHex", verbatim(nodes.LiteralHex, lambda v: v)), ("printed as read: Name", verbatim(nodes.Name, lambda v: v)),
                ("printed: the arguments of a function", args_list), ("printed: a processed call of an opcode", after, 240), ("processing changes nothing printed", frame)]
