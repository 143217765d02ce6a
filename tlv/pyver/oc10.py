"""C10: source maps and error maps."""
import importlib

import z3

import tealish
from tealish import utils

from . import domain, sem
from .domain import *  # noqa: F401,F403
from .domain import Event
from .interp import ForEach, fresh
from .maps import Inv, MapV, check
from .sem import Emit, Line, OneLine, Refuted
from .values import *  # noqa: F401,F403

STR, I = z3.StringSort(), z3.IntSort()
HERE = z3.Int("line_no")


# -- the lines of what is written ---------------------------------------------------
class WrongLine(Exception):
    pass


def elif_line(t):
    return z3.is_app(t) and t.decl().name() == "elif_line"


class Lines:
    """every line is mapped to the line of its statement"""

    def __init__(self):
        self.n = 0

    def __call__(self, r):
        self.items(r.ip.out, None)

    def items(self, items, before):
        for it in items:
            if isinstance(it, (Line, OneLine)):
                before = self.one(it, before)
            elif isinstance(it, ForEach):
                ends = {self.items(body, before) for _, body in it.alts}
                for e in ends - {before}:  # the next iteration follows one
                    for _, body in it.alts:
                        self.items(body, e)
                before = next(iter(ends - {"own"}), before)
            elif isinstance(it, Emit):
                before = "another statement" if it.hole.kind == "stmt" else "own"
        return before

    def one(self, it, before):
        self.n += 1
        t = it.line_no
        if isinstance(t, str) and t == "before":
            if before != "own":
                raise WrongLine(f"{it!r} has no line of its own, and follows {before or 'nothing'}")
            return before
        t = z3.simplify(zi(t))
        owner = it.owner
        cls = getattr(getattr(owner, "store", None), "cls", None) or type(owner)
        if cls is nodes.Elif:
            if not (elif_line(t) and z3.simplify(t.arg(0) - owner.idx).eq(z3.IntVal(0))):
                raise WrongLine(f"{it!r} of an elif is mapped to {t}")
            return "own"
        if not t.eq(HERE):
            raise WrongLine(f"{it!r} is mapped to {t}")
        return "own"


def lines_of(mod, only=None):
    def f(o):
        m = importlib.import_module(f"tlv.pyver.{mod}")
        hook = Lines()
        bad = []
        domain.MODE["lines"] = hook
        sem.SKIP.append(1)
        try:
            for name, fn, *_ in m.OBLIGATIONS:
                if only is not None and not only(name):
                    continue
                try:
                    fn(o)
                except WrongLine as e:
                    raise Refuted(f"{name}: {e}")
                except Unsupported as e:
                    bad.append(f"{name}: {e}")
                except Refuted as e:
                    bad.append(f"{name}: {e} (of another property)")
        finally:
            domain.MODE["lines"] = None
            sem.SKIP.pop()
        if bad:
            raise Unsupported(f"not evaluated: {bad[:3]}")
        if not hook.n:
            raise Refuted("no line is written")
        return hook.n
    return f


# -- the writer -----------------------------------------------------------------------
N = z3.Int("lines written")
WRITTEN = z3.Function("line written", I, STR)
MAPPED = z3.Function("mapped", I, I)
CODE, COMMENT = z3.Function("code of", STR, STR), z3.Function("comment of", STR, STR)
HASC = z3.Function("has a comment", STR, z3.BoolSort())
LEVEL = z3.Int("level")


def split(ip, t):
    """contract of split_comment (proved in C14): the parts before and after the marker, or the text"""
    t = ip.resolve(t)
    if isinstance(t, str):
        return utils.split_comment(t)
    try:
        z = zs(t)
    except Unsupported:  # a text of unknown many parts
        z = z3.String(f"text:{t!r}")
    if ip.ctx.branch(HASC(z)):
        code, comment = Rope([Atom(CODE(z))]), Rope([Atom(COMMENT(z))])
        ip.ctx.assume(z == z3.Concat(zs(code), z3.StringVal("//"), zs(comment)))
        return code, comment
    return t, None


def ljust(ip, o, n):
    """str.ljust: spaces added"""
    return mkstr(Rope([o, Atom(fresh("spaces", STR), what="spaces")]))


def stripped(ip, o, *a):
    if isinstance(o, str):
        return o.strip(*a)
    try:
        return mkstr(Rope([Atom(z3.Function("strip", STR, STR)(zs(o)))]))
    except Unsupported:
        return mkstr(Rope([Atom(z3.String(f"strip:{o!r}"))]))



def writer():
    """a writer after any number of lines: the map is defined exactly on the lines written"""
    w = mk(tealish.TealWriter, level=SInt(LEVEL), output=SeqV([("many", SList("output", N, lambda i: Rope([Atom(WRITTEN(i))])))]),
           source_map=MapV("source_map", lambda k: z3.And(k >= 1, k <= N), lambda k: SInt(MAPPED(k)), sort=I),
           current_output_line=SInt(N + 1), current_input_line=SInt(z3.Int("before")))
    return w


def invariant(ip, w, n, where, what):
    """n lines, all mapped, the map of the lines before unchanged; where(k) is the line number k is mapped to"""
    out = ip.resolve(w.output)
    ln = ip.length(out)
    check(ip, (ln if z3.is_expr(ln) else zi(ln)) == n, f"{what}: the number of lines")
    check(ip, zi(ip.resolve(w.current_output_line)) == n + 1, f"{what}: the number of the next line")
    k = fresh("k", I)
    f, v = w.source_map.look(ip, k)
    check(ip, z3.BoolVal(bool(f)) == z3.And(k >= 1, k <= n), f"{what}: which lines are mapped")
    if f:
        check(ip, zi(ip.resolve(v)) == where(k), f"{what}: what a line is mapped to")
    segs = ip.segs(out)
    if not segs or segs[0][0] != "many" or repr(segs[0][1].at(k)) != repr(Rope([Atom(WRITTEN(k))])):
        raise Refuted(f"{what}: lines written before are changed")


K = {"split_comment": split, "str.ljust": ljust, "str.strip": stripped}


def line_written(o):
    """a text becomes exactly one more line, mapped to the line of its node, with the same code and comment"""
    c = 0

    def build(ip):
        w = writer()
        owner = parent()
        ip.call(ip.get_attr(w, "write"), [owner, Rope([Atom(z3.String("teal"), what="line")])], {})
        return w

    for r in runs(o, build, K, base=[N >= 0, LEVEL >= 0]):
        if r.kind != "ok":
            raise Refuted(f"{r.value!r}")
        ip, w = r.ip, r.value
        invariant(ip, w, N + 1, lambda k: z3.If(k == N + 1, HERE, MAPPED(k)), "a line")
        segs = ip.segs(ip.resolve(w.output))
        if len(segs) != 2 or segs[1][0] != "one":
            raise Unsupported("output")
        same_code(ip, segs[1][1])
        c += 1
    return c


def same_code(ip, got):
    """the line is the indented text, or that with spaces before its comment"""
    parts = [p for p in (got.parts if isinstance(got, Rope) else (got,)) if not (isinstance(p, Atom) and p.what == "spaces")]
    z = zs(Rope(parts))
    check(ip, z3.SuffixOf(z3.String("teal"), z), "the line written is another")


M = z3.Int("lines of the child")
OPTEXT = z3.Function("text of op", I, STR)
CHILD = stmt("child")


def child_writes(ip, h, w):
    """contract of a child: it writes M lines of its own"""
    if isinstance(w, tealish.OneLineTealWriter):
        if w.teal != []:
            raise Refuted("the one-line writer is not empty at the start")
        ip.set_attr(w, "teal", SList("ops", M, lambda i: Rope([Atom(OPTEXT(i), what="line")])))
        return None
    invariant(ip, w, N, MAPPED, "before a child")
    if not ip.ctx.valid(zi(ip.resolve(w.level)) == LEVEL):
        raise Refuted("the level")
    left = dict(output=SeqV([("many", SList("output", N + M, lambda i: Rope([Atom(WRITTEN(i))])))]), current_output_line=SInt(N + M + 1),
                source_map=MapV("source_map", lambda k: z3.And(k >= 1, k <= N + M), lambda k: SInt(MAPPED(k)), sort=I), current_input_line=SInt(z3.Int("after")))
    for k, v in left.items():
        ip.set_attr(w, k, v)
    ip.effects.append(Event("child", h))
    return None


KC = {**K, ("stmt", "write_teal"): child_writes}


def child_written(o):
    """a child is written once, at this place, and nothing else"""
    def build(ip):
        w = writer()
        ip.call(ip.get_attr(w, "write"), [parent(), CHILD()], {})
        return w

    c = 0
    for r in runs(o, build, KC, base=[N >= 0, M >= 0, LEVEL >= 0]):
        if r.kind != "ok":
            raise Refuted(f"{r.value!r}")
        if [e.what for e in r.ip.effects] != ["child"]:
            raise Refuted(f"a child is written {len(r.ip.effects)} times")
        invariant(r.ip, r.value, N + M, MAPPED, "after a child")
        c += 1
    return c


def one_line(o):
    """the code of a node on one line: all its instructions in order, mapped to the line of the writing node"""
    def build(ip):
        w = writer()
        ip.call(ip.get_attr(w, "write"), [parent(), CHILD()], {"one_line": True})
        return w

    c = 0
    for r in runs(o, build, KC, base=[N >= 0, M >= 1, LEVEL >= 0]):
        if r.kind != "ok":
            raise Refuted(f"{r.value!r}")
        invariant(r.ip, r.value, N + 1, lambda k: z3.If(k == N + 1, HERE, MAPPED(k)), "a line")
        c += 1
    return c



def one_line_writer(o):
    """writing on one line: a text adds its code, without its comment, after those before; texts in order; a child at this place"""
    ops = SList("before", N, lambda i: Rope([Atom(OPTEXT(i), what="line")]))
    teal = Rope([Atom(z3.String("teal"), what="line")])
    c = 0

    def build(what):
        def f(ip):
            w = mk(tealish.OneLineTealWriter, teal=SeqV([("many", ops)]))
            ip.call(ip.get_attr(w, "write"), [parent(), what], {})
            return w
        return f

    def same(r, want):
        segs = r.ip.segs(r.ip.resolve(r.value.teal))
        if len(segs) != 1 + len(want) or segs[0][0] != "many" or segs[0][1] is not ops:
            raise Refuted("the instructions before are changed")
        for (kind, x), y in zip(segs[1:], want):
            if kind != "one":
                raise Unsupported("output")
            check(r.ip, zs(r.ip.resolve(x)) == zs(y), "another instruction is added")

    for r in runs(o, build(teal), K, base=[N >= 0]):
        if r.kind != "ok":
            raise Refuted(f"{r.value!r}")
        has = r.ip.ctx.branch(HASC(zs(teal)))
        same(r, [Rope([Atom(CODE(zs(teal)))]) if has else teal])
        c += 1
    a, b = (Rope([Atom(z3.String(x), what="line")]) for x in ("t1", "t2"))
    for r in runs(o, build([a, b]), K, base=[N >= 0]):
        if r.kind != "ok":
            raise Refuted(f"{r.value!r}")
        same(r, [a, b])
        c += 1

    def writes(ip, h, w):
        ip.effects.append(Event("child", w))
        return None

    for r in runs(o, build(CHILD()), {**K, ("stmt", "write_teal"): writes}, base=[N >= 0]):
        if r.kind != "ok":
            raise Refuted(f"{r.value!r}")
        if [e.obj for e in r.ip.effects] != [r.value]:
            raise Refuted("a child is not written once to the same writer")
        same(r, [])
        c += 1
    return c


# -- the maps ---------------------------------------------------------------------------
def dmap(name, sort=I, get=None, wrapper=None):
    """an unknown dictionary"""
    h = z3.Function(f"in {name}", I, z3.BoolSort())
    g = z3.Function(f"value in {name}", I, I)
    m = MapV(name, lambda k: h(k), get or (lambda k: SInt(g(k))), sort=sort)
    m.wrapper, m.h, m.g, m.lazy = wrapper, h, g, True
    return m


MESSAGE = z3.Function("message", I, STR)


def error_map(name="errors", **kw):
    return dmap(name, get=lambda k: Rope([Atom(MESSAGE(k))]), **kw)


def tealish_map(**fields):
    a = dict(pc_teal=dmap("pc_teal"), teal_tealish=dmap("teal_tealish"), errors=error_map())
    a.update(fields)
    return mk(utils.TealishMap, **a)


def same_value(ip, a, b, what):
    a, b = ip.resolve(a), ip.resolve(b)
    if is_str(a) and is_str(b):
        return check(ip, zs(a) == zs(b), what)
    if is_int(a) and is_int(b):
        return check(ip, zi(a) == zi(b), what)
    if a is None and b is None:
        return None
    raise Refuted(f"{what}: {a!r}, not {b!r}")


def agree(ip, got, want, what):
    """the two dictionaries agree on every key"""
    got = ip.resolve(got)
    if isinstance(got, dict):
        got = MapV.of(got, sort=I)
    if not isinstance(got, MapV):
        raise Refuted(f"{what} is {got!r}")
    if got.sort != I:
        raise Refuted(f"{what}: the keys are no numbers")
    x = fresh("x", I)
    fa, va = got.look(ip, x)
    if isinstance(want, MapV):
        fb, vb = want.look(ip, x)
    else:
        fb, vb = False, None
    if fa != fb:
        raise Refuted(f"{what}: a key is in one only")
    if fa:
        same_value(ip, va, vb, what)


def looked_up(method, spec):
    """a lookup: spec(ip, map, key) -> value or None"""
    def f(o):
        key = SInt(z3.Int("key"))

        def build(ip):
            m = tealish_map()
            got = ip.call(ip.get_attr(m, method), [key], {})
            want = spec(ip, m, key)
            same_value(ip, got, want, method)
            return m

        rs = runs(o, build)
        for r in rs:
            if r.kind != "ok":
                raise Refuted(f"{r.value!r}")
        return len(rs)
    return f


def get(ip, m, k):
    if k is None:
        return None
    f, v = m.look(ip, ip.resolve(k))
    return v if f else None


LOOKUPS = [
    ("get_teal_line_for_pc", lambda ip, m, k: get(ip, m.pc_teal, k)),
    ("get_tealish_line_for_teal", lambda ip, m, k: get(ip, m.teal_tealish, k)),
    ("get_tealish_line_for_pc", lambda ip, m, k: get(ip, m.teal_tealish, get(ip, m.pc_teal, k))),
    ("get_error_for_pc", lambda ip, m, k: get(ip, m.errors, get(ip, m.teal_tealish, get(ip, m.pc_teal, k)))),
]

# the reverse map, after k entries of the map: how many of them map to a line, and the j-th of these
COUNT = z3.Function("entries of a line", I, I, I)
ENTRY = z3.Function("entry of a line", I, I, I)


def reverse(method):
    """the reverse map lists, for each Tealish line, exactly the entries that map to it, each once, in their order"""
    def f(o):
        c = 0
        tt = dmap("teal_tealish")

        def axioms(ip, k):
            n, key, pos = tt.enumeration(ip)
            x = z3.Int("x!rev")
            out = [z3.ForAll([x], COUNT(0, x) == 0)]
            for kk in (k - 1, k):
                v = tt.g(key(kk))
                out += [z3.Implies(kk >= 0, z3.And(z3.ForAll([x], COUNT(kk + 1, x) == COUNT(kk, x) + z3.If(x == v, 1, 0)), ENTRY(v, COUNT(kk, v)) == key(kk)))]
            out.append(z3.ForAll([x], COUNT(k, x) >= 0))
            return out

        def listed(k, x, many=False):
            l = SList(f"entries of {x}", COUNT(k, x), lambda j: SInt(ENTRY(x, j)))
            return SeqV([("many", l)]) if many else l

        def dictionary(ip, fr):
            got = [v for v, x in fr.loc.items() if isinstance(ip.resolve(x), (dict, MapV))]
            if len(got) != 1:
                raise Unsupported("the dictionary of the loop is not found")
            return got[0]

        def put(ip, fr, k):
            n, key, pos = tt.enumeration(ip)
            m = MapV("reverse", lambda x: COUNT(k, x) > 0, lambda x: listed(k, x), sort=I)
            # the list that may be changed by this iteration
            v = tt.g(key(k))
            if ip.ctx.branch(z3.And(k < n, COUNT(k, v) > 0)):
                m.layers.append(("set", v, listed(k, v, True)))
            fr.loc[dictionary(ip, fr)] = m

        def chk(ip, fr, k):
            whole(ip, fr.loc[dictionary(ip, fr)], k)

        def whole(ip, d, k):
            d = ip.resolve(d)
            d = MapV.of(d, sort=I) if isinstance(d, dict) else d
            x = fresh("x", I)
            found, l = d.look(ip, x)
            check(ip, z3.BoolVal(bool(found)) == (COUNT(k, x) > 0), "which lines are in the reverse map")
            if found:
                listing(ip, l, k, x)

        def listing(ip, l, k, x):
            l = ip.resolve(l)
            ln = ip.length(l)
            check(ip, (ln if z3.is_expr(ln) else zi(ln)) == COUNT(k, x), "how many lines are listed")
            j = fresh("j", I)
            ip.ctx.assume(z3.And(j >= 0, j < COUNT(k, x)))
            if not ip.ctx.feasible():
                return
            check(ip, zi(ip.resolve(ip.index(l, j))) == ENTRY(x, j), "which lines are listed")

        def build(ip):
            m = tealish_map(teal_tealish=tt)
            n, key, pos = tt.enumeration(ip)
            if method == "tealish_teal":
                whole(ip, ip.get_attr(m, method), n)
            else:
                x = z3.Int("line")
                listing(ip, ip.call(ip.get_attr(m, method), [SInt(x)], {}), n, x)
            return m

        rs = runs(o, build, loops={("TealishMap.tealish_teal", "for"): Inv(put, chk, axioms)})
        if not any(r.kind == "ok" for r in rs):
            raise Refuted("the reverse map is never made")
        for r in rs:
            if r.kind == "raise":
                raise Refuted(f"{r.value!r}")
        return len(rs)
    return f


def reverse_is_inverse(o):
    """by induction: ENTRY(x, .) enumerates exactly the keys before k whose value is x, each once"""
    key, val, at = z3.Function("key", I, I), z3.Function("val", I, I), z3.Function("at", I, I, I)
    k, x, j, i, q = z3.Ints("k x j i q")
    ax = [z3.ForAll([x], COUNT(0, x) == 0), k >= 0, z3.ForAll([x], COUNT(k + 1, x) == COUNT(k, x) + z3.If(x == val(k), 1, 0)),
          ENTRY(val(k), COUNT(k, val(k))) == key(k), z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j), key(i) != key(j)))]

    def sound(n, y):  # every entry is a key of value x
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < COUNT(n, y)), z3.Exists([i], z3.And(i >= 0, i < n, val(i) == y, ENTRY(y, j) == key(i)))))

    def complete(n, y):
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, val(i) == y), z3.Exists([j], z3.And(j >= 0, j < COUNT(n, y), ENTRY(y, j) == key(i)))))

    def once(n, y):
        return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < COUNT(n, y)), ENTRY(y, i) != ENTRY(y, j)))

    def pos(n):
        return z3.ForAll([x], COUNT(n, x) >= 0)

    y = z3.Int("y")
    c = 0
    for what, hyp, goal in [
        ("counts", [pos(k)], pos(k + 1)),
        ("sound: base", [], sound(z3.IntVal(0), y)), ("sound: step", [pos(k), sound(k, y)], sound(k + 1, y)),
        ("complete: base", [], complete(z3.IntVal(0), y)), ("complete: step", [pos(k), complete(k, y)], complete(k + 1, y)),
        ("once: base", [], once(z3.IntVal(0), y)), ("once: step", [pos(k), sound(k, y), once(k, y)], once(k + 1, y)),
    ]:
        r, m = solve(ax + hyp + [z3.Not(goal)], 20000)
        if r == z3.unknown:
            raise Unsupported(f"{what}: not decided")
        if r != z3.unsat:
            raise Refuted(f"{what}: {m}"[:500])
        c += 1
    return c


def assembled(o):
    """update_from_teal_sourcemap: program counter p belongs to TEAL line (line of p in the assembler's map) + 1; nothing else changes"""
    pcs = dmap("pc_to_line")
    want = MapV("want", lambda k: pcs.h(k), lambda k: SInt(pcs.g(k) + 1), sort=I)
    c = 0
    sm = Opaque("sourcemap", attrs={"pc_to_line": pcs}, cls=utils.SourceMap)
    for given in (sm, {"version": 3}):
        def build(ip):
            m = tealish_map()
            before = m.teal_tealish, m.errors
            ip.call(ip.get_attr(m, "update_from_teal_sourcemap"), [given], {})
            agree(ip, m.pc_teal, want, "pc_teal")
            for a, b, w in zip((m.teal_tealish, m.errors), before, ("teal_tealish", "errors")):
                agree(ip, a, b, w)
            return m

        for r in runs(o, build, {utils.SourceMap: lambda ip, d: sm, "SourceMap": lambda ip, d: sm}):
            if r.kind != "ok":
                raise Refuted(f"{r.value!r}")
            c += 1
    return c


def loaded(o):
    """as_dict, saved as JSON (whose keys are the decimal texts of the numbers) and loaded: the same map"""
    dec = lambda k: Rope([IntText(k)])  # noqa: E731
    c = 0

    def build(ip):
        m = tealish_map()
        d = ip.resolve(ip.call(ip.get_attr(m, "as_dict"), [], {}))
        if not isinstance(d, dict) or any(not isinstance(k, str) for k in d):
            raise Refuted(f"as_dict gives {d!r}")
        if saved:
            texts = {}
            for k, v in d.items():
                if not isinstance(v, MapV) or v.layers:
                    raise Unsupported(f"as_dict: {v!r}")
                texts[k] = MapV(f"{v.name} in JSON", v.has, v.get, sort=I)
                texts[k].wrapper, texts[k].lazy = dec, True
            d = texts
        n = ip.call(utils.TealishMap, [d], {})
        for a in ("pc_teal", "teal_tealish", "errors"):
            agree(ip, ip.get_attr(n, a), getattr(m, a), a)
        return n

    for saved in (False, True):
        for r in runs(o, build):
            if r.kind != "ok":
                raise Refuted(f"{r.value!r}")
            c += 1
    for args in ([], [None], [{}]):
        def empty(ip):
            n = ip.call(utils.TealishMap, args, {})
            for a in ("pc_teal", "teal_tealish", "errors"):
                agree(ip, ip.get_attr(n, a), None, a)
            return n
        for r in runs(o, empty):
            if r.kind != "ok":
                raise Refuted(f"{r.value!r}")
            c += 1
    return c


def compiled(o):
    """compile: a new writer is given to the program node; output and map are this writer's, and get_map gives that map and the messages"""
    c = 0

    def writes(ip, h, w):
        if ip.resolve(ip.get_attr(w, "output")) != [] or ip.resolve(ip.get_attr(w, "source_map")) != {} or ip.get_attr(w, "current_output_line") != 1 or ip.get_attr(w, "level") != 0:
            raise Refuted("the writer is not new")
        ip.set_attr(w, "output", SeqV([("many", SList("output", N, lambda i: Rope([Atom(WRITTEN(i))])))]))
        ip.set_attr(w, "source_map", dmap("source map"))
        ip.effects.append(Event("program", w))
        return None

    def build(ip):
        comp = ip.call(tealish.TealishCompiler, [SList("source", z3.Int("m"), lambda i: Rope([Atom(WRITTEN(i))]))], {})
        ip.set_attr(comp, "nodes", [CHILD()])
        ip.set_attr(comp, "processed", True)
        ip.set_attr(comp, "error_messages", error_map("messages"))
        for _ in range(times):
            out = ip.call(ip.get_attr(comp, "compile"), [], {})
        w = [e.obj for e in ip.effects if isinstance(e, Event) and e.what == "program"]
        if len(w) != times:
            raise Refuted(f"the program is written {len(w)} times")
        if ip.resolve(out) is not ip.resolve(w[-1].output):
            raise Refuted("compile does not return what was written")
        m = ip.call(ip.get_attr(comp, "get_map"), [], {})
        agree(ip, ip.get_attr(m, "teal_tealish"), dmap("source map"), "teal_tealish")
        agree(ip, ip.get_attr(m, "errors"), error_map("messages"), "errors")
        agree(ip, ip.get_attr(m, "pc_teal"), None, "pc_teal")
        return comp

    for times in (1, 2):
        for r in runs(o, build, {("stmt", "write_teal"): writes}):
            if r.kind != "ok":
                raise Refuted(f"{r.value!r}")
            c += 1
    return c


ASSUMPTIONS = [
    "a child's own lines are mapped by the obligations about its own class (induction over the program)",
    "the line number of a node is that of its first line: Node.__init__ (C12)",
    "split_comment returns the text before and after the marker (C14)",
    "the assembler's SourceMap.pc_to_line numbers lines from 0",
    "JSON writes a number used as a key as its decimal text",
]

OBLIGATIONS = [("a text becomes one line", line_written), ("a child is written in place", child_written), ("a node on one line", one_line), ("the one-line writer", one_line_writer),
               ("the compiler's map", compiled), ("reverse map", reverse("tealish_teal")), ("lines of a Tealish line", reverse("get_teal_lines_for_tealish")),
               ("reverse map: induction", reverse_is_inverse), ("assembler's map", assembled), ("save and load", loaded)] + [
    (f"lookup: {name}", looked_up(name, spec)) for name, spec in LOOKUPS] + [(f"lines of the statements of {m}", lines_of(m, lambda name: "routines" not in name), 200) for m in ("oc01", "oc02", "oc03", "oc05", "oc06", "oc07", "oc08", "oc09")]
