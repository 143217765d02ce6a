"""C02: what the control flow statements do."""
from . import sem
from .domain import *  # noqa: F401,F403
from .sem import Loc, V

CI = z3.Int("conditional_index")


class SymDict:
    """a dictionary, by the changes made to it"""

    pyver_symbolic = True

    def __init__(self):
        self.writes = []

    def sym_setitem(self, ip, key, value):
        ip.journal.append(("call", lambda old=list(self.writes): self.writes.__setitem__(slice(None), old)))
        self.writes.append((key, value))


def compiler(**attrs):
    a = dict(conditional_count=SInt(CI), line_no=SInt(z3.Int("line_no")), error_messages=SymDict(), max_slot=SInt(z3.Int("max_slot")))
    a.update(attrs)
    return Opaque("compiler", attrs=a)


def node_init(**fields):
    """contract of Node.__init__: the parts of the line, parsed (checked against the real parser in C12), no children yet"""
    def f(ip, self, line, parent=None, compiler=None):
        for k, v in dict(parent=parent, compiler=compiler, _line=line, _line_no=SInt(z3.Int("line_no")), child_nodes=[], properties={},
                         current_scope=Opaque("scope", attrs={"name": text("scope")}, cls=scope_mod.Scope)).items():
            ip.set_attr(self, k, v)
        ip.set_attr(self, "nodes", [v for v in fields.values() if isinstance(v, Hole)])
        for k, v in fields.items():
            ip.set_attr(self, k, v)
    return f


def outer():
    p = parent()
    p.attrs["current_scope"] = Opaque("scope", attrs={"name": text("scope")}, cls=scope_mod.Scope)
    return p


def made(ip, cls, **fields):
    """an instance by the class's own constructor, its line parsed as given"""
    ip.contracts = {**ip.contracts, "Node.__init__": node_init(**fields), "Node.new_scope": lambda ip, self, *a, **k: None}
    return ip.call(cls, [text("line", False, "line"), outer(), compiler()], {})


def negated(name, *idx):
    """the modifier of a condition: 'not' or nothing"""
    n = uf(f"not_{name}", [z3.IntSort()] * len(idx), z3.BoolSort())(*idx) if idx else z3.Bool(f"not_{name}")
    return OneOf(f"modifier of {name}", [(n, "not"), (z3.Not(n), None)]), n


def holds_(m, hole, neg):
    """the condition is tested: true if the statement is to run"""
    t = m.is_true(m.eval1(hole))
    n = m.ctx.branch(neg)
    return t != n


def count(name):
    return z3.Int(f"n_{name}")


def with_children(n, body, first=()):
    """what add_child leaves behind (its loop is in C12)"""
    n.__dict__["child_nodes"] = many(body)
    n.__dict__["nodes"] = SeqV([("one", x) for x in first] + [("many", many(body))])
    return n


# -- loops ------------------------------------------------------------------------
COND = expr("cond")
BODY = stmt("body")


def while_(o):
    mod, neg = negated("cond")

    def build(ip):
        return with_children(made(ip, nodes.WhileStatement, condition=COND(), modifier=mod), BODY, [COND()])

    def head(m, p=None):
        if not holds_(m, COND(), neg):
            return m.end()
        r = m.body(BODY(z3.IntVal(0)), (z3.IntVal(0), count("body")))
        if r is None:
            return m.goto("head")
        if r == "break":
            return m.end()
        return r

    def env(r):
        return sem.Env(breaks=r.value.end_label)

    return means(o, build, lambda m, r: m.goto("head"), {"head": Loc(head)}, env, base=[count("body") >= 0])


def while_runs(o):
    """the loop is entered at its head"""
    return while_(o)


def for_(o):
    """for v in a:b: v counts from a up to, but not including, b"""
    a, b = expr("start", shapes=("single",), arity=lambda: 1), expr("stop", shapes=("single",), arity=lambda: 1)
    S = z3.Int("slot(v)")

    def build(ip):
        n = made(ip, nodes.ForStatement, var_name=text("v"), start=a(), end=b())
        return with_children(n, BODY, [a(), b()])

    def start(m, r):
        m.store(S, m.eval1(a()))
        return m.goto("head")

    def head(m, p):
        v = m.load(S)
        e = m.eval1(b())
        m.require(sem.is_I(v) == sem.is_I(e))
        if m.ctx.branch(v == e):
            return m.end()
        r = m.body(BODY(z3.IntVal(0)), (z3.IntVal(0), count("body")))
        if r is not None:
            return r
        w = m.load(S)
        m.require(z3.And(sem.is_I(w), V.n(w) + 1 < sem.U64))
        m.store(S, V.I(V.n(w) + 1))
        return m.goto("head")

    def declare(ip, self, name, ty):
        ip.effects.append(Event("declare", self, name, ty))
        return mk(tealish_builtins.Var, name=name, scratch_slot=SInt(S), tealish_type=T.IntType())

    k = {"BaseNode.declare_scratch_var": declare, "BaseNode.del_var": lambda ip, self, name: ip.effects.append(Event("delete", self, name))}
    return means(o, build, start, {"head": Loc(head)}, contracts=k, base=[count("body") >= 0])


# -- conditionals -------------------------------------------------------------------
THEN, EBODY, LAST = stmt("then"), stmt("ebody"), stmt("last")
ECOND = expr("econd")
NE = z3.Int("n_elifs")


def ntext(*parts):
    return mkstr(Rope(list(parts)))


def elif_label(i):
    return ntext("l", IntText(CI), "_elif_", IntText(i))


def neg_elif(i):
    return uf("not_elif", [z3.IntSort()], z3.BoolSort())(i)


def elif_store():
    p = outer()

    def f(make):
        return lambda i: make(i)

    fields = dict(
        label=f(elif_label), next_label=f(lambda i: ""), condition=f(lambda i: ECOND(i)),
        modifier=f(lambda i: OneOf(f"modifier of elif {i}", [(neg_elif(i), "not"), (z3.Not(neg_elif(i)), None)])),
        child_nodes=f(lambda i: SList("ebody", uf("n_ebody", [z3.IntSort()], z3.IntSort())(i), lambda j, i=i: EBODY(i, j))),
        parent=f(lambda i: p), _line_no=f(lambda i: SInt(uf("elif_line", [z3.IntSort()], z3.IntSort())(i))),
        _line=f(lambda i: Rope([Atom(uf("elif_text", [z3.IntSort()], z3.StringSort())(i), what="line")])),
    )
    return Store("elifs", cls=nodes.Elif, fields=fields)


def if_chain(with_else):
    def f(o):
        mod, neg = negated("cond")
        bn = lambda i: uf("n_ebody", [z3.IntSort()], z3.IntSort())(i)  # noqa: E731

        def build(ip):
            n = made(ip, nodes.IfStatement, condition=COND(), modifier=mod)
            st = elif_store()
            elifs = SList("elifs", NE, lambda i: SElem(st, i))
            p = outer()
            then = node(nodes.IfThen, label="", next_label="", child_nodes=many(THEN), nodes=many(THEN), parent=p)
            kids = [("one", then), ("many", elifs)]
            if with_else:
                els = node(nodes.Else, label=ntext("l", IntText(CI), "_else"), next_label="", child_nodes=many(LAST), nodes=many(LAST), parent=p)
                kids.append(("one", els))
                n.else_ = els
            n.__dict__.update(if_then=then, elifs=elifs, child_nodes=SeqV(kids), nodes=SeqV([("one", COND())] + kids))
            return n

        def rest(m):
            """no condition holds"""
            if with_else:
                r = m.body(LAST(z3.IntVal(0)), (z3.IntVal(0), count("last")))
                if r is not None:
                    return r
            return m.end()

        def start(m, r):
            if holds_(m, COND(), neg):
                x = m.body(THEN(z3.IntVal(0)), (z3.IntVal(0), count("then")))
                return m.end() if x is None else x
            if m.ctx.branch(NE > 0):
                return m.goto("elif", i=z3.IntVal(0))
            return rest(m)

        def elif_(m, p):
            if holds_(m, ECOND(p.i), neg_elif(p.i)):
                x = m.body(EBODY(p.i, z3.IntVal(0)), (z3.IntVal(0), bn(p.i)))
                return m.end() if x is None else x
            if m.ctx.branch(p.i + 1 < NE):
                return m.goto("elif", i=p.i + 1)
            return rest(m)

        locs = {"elif": Loc(elif_, {"i": z3.IntSort()}, lambda p: z3.And(p.i >= 0, p.i < NE), ks=lambda p: [p.i])}
        j = z3.Int("j!b")
        base = [NE >= 0, count("then") >= 0, count("last") >= 0, z3.ForAll([j], bn(j) >= 0)]

        def env(r):
            return sem.Env()

        total, some = 0, False
        for r in runs(o, lambda ip: compile_node(ip, build(ip)), base=base):
            if r.kind != "ok":
                continue
            some = True
            possible = r.ctx.feasible(NE > 0) and not r.ctx.valid(NE <= 0)
            total += sem.simulate(r.ip.out, lambda m, r=r: start(m, r), locs if possible else {}, env(r), r.facts())
        if not some:
            raise Refuted("never accepted")
        return total
    return f


def shape_of(n, attrs, methods):
    """the names the contract speaks of are those of the code"""
    for a in attrs:
        if a not in n.__dict__:
            raise Unsupported(f"no attribute {a}")
    for m in methods:
        if not hasattr(type(n), m):
            raise Unsupported(f"no method {m}")


def labels_of_parts(o):
    """add_if_then, add_elif, add_else: the labels the proof of the chain starts from"""
    def build(ip):
        n = made(ip, nodes.IfStatement, condition=COND(), modifier=None)
        st = elif_store()
        shape_of(n, ("elifs", "else_"), ("add_if_then", "add_elif", "add_else"))
        n.__dict__["elifs"] = SeqV([("many", SList("elifs", NE, lambda i: SElem(st, i)))])
        ip.contracts["Node.add_child"] = lambda ip, self, x: ip.effects.append(Event("child", x))
        e, t, x = node(nodes.Elif, label="", next_label=""), node(nodes.IfThen, label="", next_label=""), node(nodes.Else, label="", next_label="")
        for f, a in (("add_if_then", t), ("add_elif", e), ("add_else", x)):
            ip.call(ip.get_attr(n, f), [a], {})
        return n, e, t, x

    c = 0
    for r in runs(o, build, base=[NE >= 0]):
        if r.kind != "ok":
            raise Refuted(f"rejected: {r.value}")
        n, e, t, x = r.value
        want = repr(elif_label(NE))
        # the label must be new: distinct for distinct positions, and none of the others
        if not isinstance(e.label, Rope):
            raise Refuted(f"the label of an elif does not depend on its position: {e.label!r}")
        if repr(e.label) != want or repr(x.label) != repr(ntext("l", IntText(CI), "_else")) or t.label != "":
            raise Unsupported(f"labels of another form: {e.label!r} {x.label!r} {t.label!r}")
        if n.if_then is not t or n.else_ is not x or n.elifs.segs[-1] != ("one", e) or len(n.elifs.segs) != 2:
            raise Refuted("a part of the conditional is not kept")
        if [v.obj for v in r.ip.effects if isinstance(v, Event) and v.what == "child"] != [t, e, x]:
            raise Refuted("a part of the conditional is not added to its children in order")
        c += 1
    return c


# -- switch, jump, block ---------------------------------------------------------------
SUBJ, OPT = expr("subject"), expr("option")
NO = z3.Int("n_options")


def target(i):
    return uf("target", [z3.IntSort()], z3.StringSort())(i)


def block_label(ip, self, name):
    """contract of get_block: the block of that name visible here, with its own label, or KeyError"""
    name = ip.resolve(name)
    if isinstance(name, str):
        t = z3.StringVal(name)
    else:
        t = name.z()
    known = z3.Function("is_block", z3.StringSort(), z3.BoolSort())(t)
    if not ip.ctx.branch(known):
        raise PyRaise(KeyError("block"))
    return Opaque("block", attrs={"label": Rope([Atom(z3.Function("label_of", z3.StringSort(), z3.StringSort())(t), safe=True)])}, cls=nodes.Block)


BLOCKS = {"BaseNode.get_block": block_label}


def lab(t):
    return Rope([Atom(z3.Function("label_of", z3.StringSort(), z3.StringSort())(t), safe=True)])


def switch(with_else):
    def f(o):
        st = Store("options", cls=nodes.SwitchOption, fields=dict(
            expression=lambda i: OPT(i), block_name=lambda i: Rope([Atom(target(i), safe=True)]), parent=lambda i: parent(),
            _line_no=lambda i: SInt(z3.Int("line_no")), _line=lambda i: text("line", False, "line")))

        def build(ip):
            n = made(ip, nodes.Switch, expression=SUBJ())
            n.__dict__["options"] = SList("options", NO, lambda i: SElem(st, i))
            if with_else:
                n.__dict__["else_"] = node(nodes.SwitchElse, block_name=Rope([Atom(z3.String("else_target"), safe=True)]))
            return n

        def end(m):
            if with_else:
                return sem.Outcome("jump", label=lab(z3.String("else_target")))
            return m.fail()

        def start(m, r):
            if m.ctx.branch(NO > 0):
                return m.goto("option", i=z3.IntVal(0))
            return end(m)

        def option(m, p):
            x = m.eval1(SUBJ())
            y = m.eval1(OPT(p.i))
            m.require(sem.is_I(x) == sem.is_I(y))
            if m.ctx.branch(x == y):
                return sem.Outcome("jump", label=lab(target(p.i)))
            if m.ctx.branch(p.i + 1 < NO):
                return m.goto("option", i=p.i + 1)
            return end(m)

        locs = {"option": Loc(option, {"i": z3.IntSort()}, lambda p: z3.And(p.i >= 0, p.i < NO), ks=lambda p: [p.i])}
        total = ok = 0
        for r in runs(o, lambda ip: compile_node(ip, build(ip)), BLOCKS, base=[NO >= 0]):
            if r.kind != "ok":
                continue
            ok += 1
            total += sem.simulate(r.ip.out, lambda m, r=r: start(m, r), locs if not r.ctx.valid(NO <= 0) else {}, sem.Env(), r.facts())
        if not ok:
            raise Refuted("never accepted")
        return total
    return f


def options_kept(o):
    """add_option, add_else: every option line is an option, in order, whether or not there is an else line already"""
    c = 0
    for has in (False, True):
        def build(ip, has=has):
            st = Store("options", cls=nodes.SwitchOption, fields=dict(expression=lambda i: OPT(i)))
            n = made(ip, nodes.Switch, expression=SUBJ())
            shape_of(n, ("options", "else_"), ("add_option", "add_else"))
            old = node(nodes.SwitchElse, block_name=text("else_target")) if has else None
            n.__dict__["options"] = SeqV([("many", SList("options", NO, lambda i: SElem(st, i)))])
            n.__dict__["else_"] = old
            ip.contracts["Node.add_child"] = lambda ip, self, x: ip.effects.append(Event("child", x))
            a, b = node(nodes.SwitchOption, block_name=text("target")), node(nodes.SwitchElse, block_name=text("other_target"))
            ip.call(ip.get_attr(n, "add_option"), [a], {})
            if not has:
                ip.call(ip.get_attr(n, "add_else"), [b], {})
            return n, a, (old if has else b), ([a] if has else [a, b])

        for r in runs(o, build, base=[NO >= 0]):
            if r.kind != "ok":
                raise Refuted(f"rejected: {r.value}")
            n, a, e, kids = r.value
            if not isinstance(n.options, SeqV):
                raise Unsupported(f"options of another form: {n.options!r}")
            if len(n.options.segs) != 2 or n.options.segs[0][0] != "many" or n.options.segs[-1] != ("one", a) or n.else_ is not e:
                raise Refuted("a line of a switch is not kept" + (", with an else line before it" if has else ""))
            if [v.obj for v in r.ip.effects if isinstance(v, Event) and v.what == "child"] != kids:
                raise Refuted("a line of a switch is not added to its children in order")
            c += 1
    return c


def jump(o):
    t = z3.String("block")

    def build(ip):
        return made(ip, nodes.Jump, block_name=Rope([Atom(t, safe=True)]))

    return means(o, build, lambda m, r: sem.Outcome("jump", label=lab(t)), contracts=BLOCKS)


def block_label_of(o):
    """a block's label is made of the name of its enclosing scope and its own name, and the block is declared there under its name"""
    c = 0
    for sname in ("", text("scopename")):
        def build(ip, sname=sname):
            ip.contracts = {**ip.contracts, "Node.__init__": node_init(name=text("blockname")), "Node.new_scope": lambda ip, self, name, *a: ip.effects.append(Event("scope", self, name)),
                            "Scope.declare_block": lambda ip, self, name, b: ip.effects.append(Event("declare", b, name))}
            ip.scope = Opaque("scope", attrs={"name": sname}, cls=scope_mod.Scope)
            ip.contracts["BaseNode.get_current_scope"] = ip.contracts["Node.get_current_scope"] = lambda ip, self: ip.scope
            return ip.call(nodes.Block, [text("line", False, "line"), parent(), compiler()], {})

        for r in runs(o, build):
            if r.kind != "ok":
                raise Refuted(f"rejected: {r.value}")
            b = r.value
            want = repr(ntext(*([sname, "__"] if sname else []), *text("blockname").parts))
            if repr(b.label) != want:
                raise Unsupported(f"label {b.label!r}")
            ev = [e for e in r.ip.effects if isinstance(e, Event)]
            if [(e.what, e.obj is b, repr(e.info[0])) for e in ev] != [("declare", True, repr(text("blockname"))), ("scope", True, repr(text("blockname")))]:
                raise Refuted(f"how the block is declared: {ev}")
            c += 1
    return c


def block(o):
    """a block is its label, then its statements"""
    def build(ip):
        n = node(nodes.Block, name=text("blockname"), label=text("blocklabel"))
        return with_children(n, BODY)

    def write(ip, n):
        ip.call(ip.get_attr(n, "write_teal"), [SymWriter()], {})
        return n

    def ref(m, r):
        x = m.body(BODY(z3.IntVal(0)), (z3.IntVal(0), count("body")))
        return m.end() if x is None else x

    def post(r):
        code = sem.compile_items(r.ip.out)
        if not code or not isinstance(code[0], sem.Label) or repr(code[0].text) != repr(text("blocklabel")):
            raise Refuted("the code of a block does not start with its label")
        if sum(isinstance(x, sem.Label) for x in code) != 1:
            raise Refuted("labels of a block")

    return means(o, build, ref, base=[count("body") >= 0], prepare=write, post=post)


def sequence(cls):
    """the statements are written, and processed, all and in order"""
    def f(o):
        def build(ip):
            return with_children(node(cls, label="", next_label="", name=text("n")), BODY)

        def ref(m, r):
            x = m.body(BODY(z3.IntVal(0)), (z3.IntVal(0), count("body")))
            return m.end() if x is None else x

        return means(o, build, ref, base=[count("body") >= 0])
    return f


def program(o):
    """without inner groups the program's code is that of its statements, in order"""
    def build(ip):
        n = node(nodes.Program, compiler=compiler(use_inner_txns_macro=None))
        return with_children(n, BODY)

    def write(ip, n):
        ip.call(ip.get_attr(n, "write_teal"), [SymWriter()], {})
        return n

    def ref(m, r):
        x = m.body(BODY(z3.IntVal(0)), (z3.IntVal(0), count("body")))
        return m.end() if x is None else x

    return means(o, build, ref, base=[count("body") >= 0], prepare=write)


def exit_(o):
    e = expr("e")

    def build(ip):
        return made(ip, nodes.Exit, expression=e())

    def ref(m, r):
        v = m.eval1(e())
        m.require(sem.is_I(v))
        return sem.Outcome("return", value=v)

    return means(o, build, ref)


def assert_(o):
    """assert fails the program unless the value is a non-zero integer"""
    e = expr("e")
    msg = OneOf("message", [None, Rope([Atom(z3.String("message"), safe=True, what="comment")])])

    def build(ip):
        return made(ip, nodes.Assert, arg=e(), message=msg)

    def ref(m, r):
        v = m.eval1(e())
        m.require(z3.And(sem.is_I(v), V.n(v) != 0))
        return m.end()

    def post(r):
        m = r.ip.resolve(msg)
        got = r.value.compiler.attrs["error_messages"]
        want = [] if m is None else [("<line_no>", repr(m))]
        if [(repr(k), repr(r.ip.resolve(x))) for k, x in got.writes] != want:
            raise Refuted(f"the message of line <line_no>: {got.writes}")

    return means(o, build, ref, post=post)


def callstmt(o):
    """a call as a statement leaves nothing behind"""
    e = expr("e")

    def build(ip):
        n = made(ip, nodes.FunctionCallStatement, expression=e())
        return n

    def ref(m, r):
        v = m.eval(e())
        return m.end(*(v if isinstance(v, list) else [sem.Seg(v, 0, m.arity(e()), desc=True)])) if not m.ctx.valid(m.arity(e()) == 0) else m.end()

    k = {("expr", "get_current_scope"): lambda ip, h: Opaque("scope", attrs={"name": text("scope")})}
    return means(o, build, lambda m, r: (m.eval(e()), m.end())[1], contracts=k)


def break_(o):
    """break leaves the innermost while loop around it; without one it is rejected"""
    depth = z3.Int("depth")
    c = 0
    # chains of ancestors: for every k, k nodes that are no while loops, then a while loop or the top
    for top in (True, False):
        def build(ip, top=top):
            loop = node(nodes.WhileStatement, end_label=text("loopend"), parent=None) if top else None

            def find(ip, self, cls):
                if cls is not nodes.WhileStatement:
                    raise Unsupported(f"find_parent {cls}")
                return loop

            ip.contracts = {**ip.contracts, "Node.__init__": node_init(), "BaseNode.find_parent": find}
            ip.loop = loop
            n = ip.call(nodes.Break, [text("line", False, "line"), parent(), compiler()], {})
            ip.call(ip.get_attr(n, "process"), [], {})
            ip.call(ip.get_attr(n, "write_teal"), [SymWriter()], {})
            return n

        for r in runs(o, build):
            if not top:
                if r.kind != "raise":
                    raise Refuted("a break outside of a while loop is accepted")
                c += 1
                continue
            if r.kind != "ok":
                raise Refuted(f"rejected: {r.value}")
            c += sem.simulate(r.ip.out, lambda m: sem.Outcome("jump", label=text("loopend")), facts=r.facts())
    return c


def find_parent(o):
    """find_parent: the nearest ancestor of the class (invariant: no ancestor passed is one)"""
    # one step from an arbitrary ancestor: either it is returned, or the search goes on with its parent
    c = 0
    for k in range(4):
        def build(ip, k=k):
            w = node(nodes.WhileStatement, parent=node(nodes.WhileStatement, parent=None))
            p = w
            for i in range(k):
                p = node([nodes.ForStatement, nodes.IfThen, nodes.IfStatement, nodes.Elif][i], parent=p)
            n = node(nodes.Break, parent=p)
            ip.want = w
            return ip.call(ip.get_attr(n, "find_parent"), [nodes.WhileStatement], {})

        for r in runs(o, build):
            if r.kind != "ok" or r.value is not r.ip.want:
                raise Refuted(f"not the nearest ancestor at distance {k}")
            c += 1
    return c


OBLIGATIONS = [
    ("while", while_), ("for v", for_), ("if, elif chain", if_chain(False)), ("if, elif chain, else", if_chain(True)), ("labels of the parts of a conditional", labels_of_parts),
    ("switch", switch(False)), ("switch with else", switch(True)), ("lines of a switch are kept", options_kept), ("jump", jump), ("label and scope of a block", block_label_of), ("block", block),
    ("then", sequence(nodes.IfThen)), ("else", sequence(nodes.Else)), ("program", program), ("exit", exit_), ("assert", assert_),
    ("call statement", callstmt), ("break", break_), ("find_parent (bounded: 4 ancestors)", find_parent),
]
