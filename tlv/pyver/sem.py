"""Symbolic execution of emitted TEAL (with unknown parts) against a reference semantics.

The reference of a node is a small state machine over the same machine state; the proof is a
simulation: from every location of the reference, the emitted code and the reference are run
until the next location, and must then agree.  The meaning of an unknown child (a hole) is an
arbitrary function of the state it is run in, the same for both sides.
"""
import re

import z3

from ..avm import OPS
from .interp import ForEach, fresh
from .values import *  # noqa: F401,F403

U64 = 1 << 64
V = z3.Datatype("V")
V.declare("I", ("n", z3.IntSort()))
V.declare("B", ("blen", z3.IntSort()), ("bnum", z3.IntSort()))
V = V.create()
W = z3.DeclareSort("W")
TXT = z3.DeclareSort("Txt")
SCR = z3.ArraySort(z3.IntSort(), V)
ARR = z3.ArraySort(z3.IntSort(), V)
pow256 = z3.Function("pow256", z3.IntSort(), z3.IntSort())


SHAPES = {"code": set(), "reference": set()}  # the expressions run one by one and in sequence by both sides


def split_differently():
    """the code runs some of a sequence's expressions by themselves, the reference runs the sequence"""
    one = {n for kind, n in SHAPES["code"] if kind == "one"}
    seq = {n for kind, n in SHAPES["code"] if kind == "seq"}
    return sorted(n for n in one & seq if ("one", n) not in SHAPES["reference"])


class Refuted(Exception):
    """the emitted code does not do what the reference does"""


# -- emitted items ------------------------------------------------------------
class Line:
    def __init__(self, text, owner, line_no=None):
        self.text, self.owner, self.line_no = text, owner, line_no

    def __repr__(self):
        return f"Line({self.text!r})"

    def subst(self, k, t):
        return Line(subst(self.text, k, t), self.owner, subst(self.line_no, k, t))


class OneLine:
    """items written on a single line"""

    def __init__(self, items, owner, line_no=None):
        self.items, self.owner, self.line_no = items, owner, line_no

    def __repr__(self):
        return f"OneLine({self.items!r})"

    def subst(self, k, t):
        return OneLine([x.subst(k, t) for x in self.items], self.owner, subst(self.line_no, k, t))


class Emit:
    """the code of a child"""

    def __init__(self, hole):
        self.hole = hole

    def __repr__(self):
        return f"Emit({self.hole!r})"

    def subst(self, k, t):
        return Emit(subst(self.hole, k, t))


class Instr:
    def __init__(self, op, imms, src):
        self.op, self.imms, self.src = op, imms, src

    def __repr__(self):
        return " ".join(str(x) for x in [self.op] + list(self.imms))

    def subst(self, k, t):
        return Instr(subst(self.op, k, t), [subst(x, k, t) for x in self.imms], self.src)


class Label:
    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return f"{self.text}:"

    def subst(self, k, t):
        return Label(subst(self.text, k, t))


def parse_line(text, src=None):
    """the instructions of one line of TEAL: tokens, ';' and '//' as the assembler reads them"""
    parts = text.parts if isinstance(text, Rope) else (text,)
    toks, cur, instr_sep = [], [], []
    quoted = esc = False

    def flush():
        if cur:
            toks.append(mkstr(Rope(cur)))
            cur.clear()

    done = False
    for pi, p in enumerate(parts):
        if done:
            break
        if isinstance(p, str):
            i = 0
            while i < len(p):
                c = p[i]
                if quoted:
                    cur.append(c)
                    if esc:
                        esc = False
                    elif c == "\\":
                        esc = True
                    elif c == '"':
                        quoted = False
                        flush()
                    i += 1
                    continue
                if c == "/" and p.startswith("//", i):
                    done = True
                    break
                if c == "/" and i == len(p) - 1 and pi + 1 < len(parts):
                    raise Unsupported("a / before an unknown text")
                if c in " \t\r\n":
                    if c == "\n":
                        raise Unsupported("line break in a line")
                    flush()
                elif c == ";":
                    flush()
                    toks.append(";")
                elif c == '"':
                    if cur:
                        flush()
                    cur.append(c)
                    quoted = True
                else:
                    cur.append(c)
                i += 1
            continue
        if quoted:
            if isinstance(p, Atom) and (p.what == "strbody" or p.safe):
                cur.append(p)
                continue
            if isinstance(p, IntText):
                cur.append(p)
                continue
            raise Refuted(f"the text {p!r} is written into a byte string without being known to stay inside it")
        if isinstance(p, Many):
            flush()
            if p.rope is None or p.glue.strip():
                raise Unsupported("list of texts in code")
            sub = parse_line(p.rope)
            if len(sub) != 1 or not isinstance(sub[0], Instr) or sub[0].imms:
                raise Unsupported("list of texts in code")
            toks.append(Many(p.k, p.n, sub[0].op if isinstance(sub[0].op, Rope) else Rope([sub[0].op])))
            continue
        if isinstance(p, IntText) or p.safe or p.what == "token":
            cur.append(p)
            continue
        if isinstance(p, Atom) and p.what == "spaces":
            flush()
            continue
        raise Refuted(f"the text {p!r} is written where it would be read as code")
    if quoted:
        raise Refuted("unterminated byte string")
    flush()
    out, cur = [], []
    for t in toks + [";"]:
        if isinstance(t, str) and t == ";":
            if cur:
                out += _instr(cur, src)
                cur = []
        else:
            cur.append(t)
            if len(cur) == 1 and _endcolon(t):
                out += _instr(cur, src)
                cur = []
    return out


def _endcolon(t):
    if isinstance(t, str):
        return t.endswith(":") and not t.startswith('"')
    if isinstance(t, Rope):
        return isinstance(t.parts[-1], str) and t.parts[-1].endswith(":") and not (isinstance(t.parts[0], str) and t.parts[0].startswith('"'))
    return False


def _instr(toks, src):
    if len(toks) == 1 and _endcolon(toks[0]):
        t = toks[0]
        t = t[:-1] if isinstance(t, str) else mkstr(Rope(list(t.parts[:-1]) + [t.parts[-1][:-1]]))
        return [Label(t)]
    return [Instr(toks[0], toks[1:], src)]


def compile_items(items):
    """items -> nodes: Instr | Label | Emit | ForEach | Seq"""
    out = []
    for it in items:
        if isinstance(it, Line):
            out += parse_line(it.text, it)
        elif isinstance(it, OneLine):
            out += compile_items(it.items)
        elif isinstance(it, Emit):
            out.append(it)
        elif isinstance(it, (Instr, Label)):
            out.append(it)
        elif isinstance(it, ForEach):
            alts = [(g, compile_items(b)) for g, b in it.alts]
            if not any(b for _, b in alts):
                continue
            if len(alts) == 1 and len(alts[0][1]) == 1 and isinstance(alts[0][1][0], Emit):
                h = alts[0][1][0].hole
                if isinstance(h, Hole) and h.idx:
                    last = z3.simplify(h.idx[-1])
                    if last.eq(it.k):
                        out.append(Seq(h, it.k, it.n, False))
                        continue
                    if z3.simplify(last - (it.n - 1 - it.k)).eq(z3.IntVal(0)):
                        out.append(Seq(h, it.k, it.n, True))
                        continue
                    off = z3.simplify(last - it.k)
                    if not _mentions(off, it.k):
                        out.append(Seq(Hole(h.family, list(h.idx[:-1]) + [it.k]), it.k, it.n, False, off))
                        continue
            out.append(ForEach(it.k, it.n, alts))
        else:
            raise Unsupported(f"emitted {it!r}")
    return out


def _mentions(e, k):
    todo = [e]
    while todo:
        x = todo.pop()
        if x.eq(k):
            return True
        todo += x.children()
    return False


class Seq:
    """the codes of the children hole[off .. off+n-1], one after the other (rev: last first)"""

    def __init__(self, hole, k, n, rev=False, off=None):
        self.hole, self.k, self.n, self.rev = hole, k, n, rev
        self.off = off if off is not None else z3.IntVal(0)

    def __repr__(self):
        return f"Seq({self.hole!r} x {self.n}{' reversed' if self.rev else ''})"

    def subst(self, k, t):
        if k.eq(self.k):
            return self
        return Seq(subst(self.hole, k, t), self.k, z3.simplify(z3.substitute(self.n, (k, t))), self.rev, z3.substitute(self.off, (k, t)))


# -- machine state --------------------------------------------------------------
class Seg:
    """arr[lo..hi-1] pushed in order (desc: arr[hi-1] first, arr[lo] on top)"""

    def __init__(self, arr, lo, hi, desc=False):
        self.arr, self.lo, self.hi, self.desc = arr, z3.simplify(_z(lo)), z3.simplify(_z(hi)), desc

    def __repr__(self):
        return f"Seg({self.arr},{self.lo}..{self.hi}{'v' if self.desc else ''})"


def _z(x):
    return z3.IntVal(x) if isinstance(x, int) else x


class State:
    def __init__(self, scr, w, stack=()):
        self.scr, self.w, self.stack = scr, w, list(stack)
        self.ok = []


def is_I(v):
    return V.is_I(v)


def is_B(v):
    return V.is_B(v)


def uf(name, dom, rng):
    return z3.Function(name, *dom, rng)


def txt(rope):
    """the text as an opaque term that depends on its unknown parts"""
    r = rope if isinstance(rope, Rope) else Rope([rope])
    shape, args = [], []
    for p in r.parts:
        if isinstance(p, str):
            shape.append(p)
        elif isinstance(p, IntText):
            shape.append("\0i")
            args.append(p.e)
        elif isinstance(p, Atom):
            if p.term.sort() == z3.StringSort():
                # texts enter the proofs only through equality: keep them out of the string theory
                shape.append("\0t" + _shape(p.term, args))
            else:
                shape.append("\0a")
                args.append(p.term)
        else:
            raise Unsupported(f"text {p!r}")
    name = "txt:" + "".join(shape)
    if not args:
        return z3.Const(name, TXT)
    return uf(name, [a.sort() for a in args], TXT)(*args)


def _shape(t, args):
    """a name for a string term, its integer arguments added to args"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        name = t.decl().name()
        for c in t.children():
            args.append(c)
        return name
    return t.sexpr()


def int_of(imm):
    """the z3 int an immediate denotes, or None"""
    if isinstance(imm, str):
        try:
            return z3.IntVal(int(imm, 0) if not (imm.startswith("0") and len(imm) > 1) else int(imm, 8))
        except ValueError:
            return None
    if isinstance(imm, Rope) and len(imm.parts) == 1 and isinstance(imm.parts[0], IntText):
        return imm.parts[0].e
    return None


class Machine:
    side = "reference"

    """what both sides share: state, holes and operations"""

    def __init__(self, ctx, scr, w, stack=(), env=None):
        self.ctx = ctx
        self.scr, self.w = scr, w
        self.stack = list(stack)
        self.ok = []
        self.env = env

    # stack
    def push(self, v):
        self.stack.append(v)

    def normal_top(self):
        """make the top of the stack a single value"""
        while self.stack and isinstance(self.stack[-1], Seg):
            s = self.stack[-1]
            if self.ctx.valid(s.hi > s.lo):
                self.stack.pop()
                if s.desc:
                    self.stack.append(Seg(s.arr, s.lo + 1, s.hi, True))
                    self.stack.append(z3.Select(s.arr, s.lo))
                else:
                    self.stack.append(Seg(s.arr, s.lo, s.hi - 1))
                    self.stack.append(z3.Select(s.arr, s.hi - 1))
                return
            if self.ctx.valid(s.hi <= s.lo):
                self.stack.pop()
                continue
            # the number is open: decide
            if self.ctx.branch(s.hi > s.lo):
                continue
        if not self.stack:
            raise Refuted("the code uses values of the stack below its own")

    def pop(self):
        self.normal_top()
        return z3.simplify(self.stack.pop())

    def popn(self, n):
        """n values (z3 int) as an array with the first pushed at 0"""
        n = z3.simplify(_z(n))
        if z3.is_int_value(n) and n.as_long() <= 8 and not (self.stack and isinstance(self.stack[-1], Seg)):
            vs = [self.pop() for _ in range(n.as_long())][::-1]
            a = z3.K(z3.IntSort(), V.I(0))
            for i, v in enumerate(vs):
                a = z3.Store(a, i, v)
            return a
        s = self.stack[-1] if self.stack else None
        if isinstance(s, Seg) and self.ctx.valid(s.hi - s.lo == n):
            self.stack.pop()
            if s.desc:
                j = z3.Int("j!rev")
                return z3.Lambda([j], z3.Select(s.arr, s.hi - 1 - j))
            if z3.simplify(s.lo).eq(z3.IntVal(0)):
                return s.arr
            j = z3.Int("j!off")
            return z3.Lambda([j], z3.Select(s.arr, s.lo + j))
        if self.ctx.valid(n == 0):
            return z3.K(z3.IntSort(), V.I(0))
        if z3.is_int_value(n):
            vs = [self.pop() for _ in range(n.as_long())][::-1]
            a = z3.K(z3.IntSort(), V.I(0))
            for i, v in enumerate(vs):
                a = z3.Store(a, i, v)
            return a
        raise Unsupported(f"{n} values from {self.stack}")

    def require(self, c):
        c = z3.simplify(c)
        if not z3.is_true(c):
            self.ok.append(c)

    # holes
    def _h(self, hole):
        return list(hole.idx)

    def arity(self, hole):
        """1, 0, or a z3 int: how many values the expression leaves"""
        f = hole.family.fields.get("arity")
        if f is None:
            return 1
        a = f(*hole.idx)
        if not isinstance(a, tuple):
            return a
        _, sh, n = a
        if self.ctx.valid(sh == 1):
            return 1
        if self.ctx.valid(sh == 0):
            return 0
        if self.ctx.valid(sh == 2):
            return n
        if self.ctx.branch(sh == 1):
            return 1
        if self.ctx.branch(sh == 0):
            return 0
        self.ctx.assume(z3.And(sh == 2, n >= 0))
        return n

    def eval(self, hole):
        """run the code of an expression: its value(s), pushed by the caller"""
        ix = self._h(hole)
        dom = [i.sort() for i in ix] + [SCR, W]
        args = ix + [self.scr, self.w]
        n = self.arity(hole)
        nm = hole.name
        SHAPES[self.side].add(("one", nm))
        self.require(uf(f"ok_{nm}", dom, z3.BoolSort())(*args))
        if isinstance(n, int):
            vals = [uf(f"val{i}_{nm}", dom, V)(*args) for i in range(n)]
        else:
            vals = uf(f"vals_{nm}", dom, ARR)(*args)
        scr, w = uf(f"scr_{nm}", dom, SCR)(*args), uf(f"w_{nm}", dom, W)(*args)
        self.scr, self.w = scr, w
        return vals

    def eval1(self, hole):
        n = self.arity(hole)
        if n != 1:
            raise Refuted(f"{hole.name}: an expression that yields no value, or several, is used as one value")
        return self.eval(hole)[0]

    def eval_seq(self, hole, n, rev=False, off=None):
        """the values of hole[0..n-1], each run in the state its predecessor left: an array"""
        off = z3.IntVal(0) if off is None else off
        nm = f"{hole.name}{'~' if rev else ''}"
        SHAPES[self.side].add(("seq", hole.name))
        ix = list(hole.idx[:-1]) + [z3.simplify(off), z3.simplify(_z(n))]
        dom = [i.sort() for i in ix] + [SCR, W]
        args = ix + [self.scr, self.w]
        f = hole.family.fields.get("arity")
        if f is not None:
            j = z3.Int("j!ar")
            a = f(*(list(hole.idx[:-1]) + [off + j]))
            if isinstance(a, tuple):
                c = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < _z(n)), a[1] == 1))
                if not self.ctx.valid(c):
                    raise Refuted(f"values of {hole.name} used without a check that each yields exactly one")
            elif a != 1:
                raise Unsupported("one value each expected")
        self.empty(_z(n), uf(f"okseq_{nm}", dom, z3.BoolSort())(*args), uf(f"scrseq_{nm}", dom, SCR)(*args), uf(f"wseq_{nm}", dom, W)(*args))
        self.require(uf(f"okseq_{nm}", dom, z3.BoolSort())(*args))
        vals = uf(f"valseq_{nm}", dom, ARR)(*args)
        self.scr, self.w = uf(f"scrseq_{nm}", dom, SCR)(*args), uf(f"wseq_{nm}", dom, W)(*args)
        return vals

    def empty(self, n, ok, scr, w):
        """no items: nothing happens"""
        if not self.ctx.valid(n > 0):
            self.ctx.assume(z3.Implies(n <= 0, z3.And(ok, scr == self.scr, w == self.w)))

    def exec(self, hole, seq=None):
        """run the code of a statement; None, 'break' or ('exit', term)"""
        nm = hole.name + ("" if seq is None else "*")
        ix = self._h(hole) if seq is None else list(hole.idx[:-1]) + [z3.simplify(x) for x in seq]
        dom = [i.sort() for i in ix] + [SCR, W]
        args = ix + [self.scr, self.w]
        self.require(uf(f"ok_{nm}", dom, z3.BoolSort())(*args))
        kind = uf(f"exit_{nm}", dom, z3.IntSort())(*args)
        if seq is not None:
            self.empty(_z(seq[1]), kind == 0, uf(f"scr_{nm}", dom, SCR)(*args), uf(f"w_{nm}", dom, W)(*args))
            self.ctx.assume(z3.Implies(_z(seq[1]) <= 0, uf(f"ok_{nm}", dom, z3.BoolSort())(*args)))
        self.ctx.assume(z3.And(kind >= 0, kind <= 2))
        self.scr, self.w = uf(f"scr_{nm}", dom, SCR)(*args), uf(f"w_{nm}", dom, W)(*args)
        if self.ctx.branch(kind == 0):
            return None
        if self.env.breaks is not None and self.ctx.branch(kind == 1):
            return "break"
        return ("exit", kind)

    # operations
    def op(self, name, imms, args):
        """an opcode applied to values: its results (a list of values), given how many it has"""
        return OPSEM.apply(self, name, imms, args)

    def apply(self, opname, imms, argarr, nargs, nres):
        """an opcode known only by name, on nargs values: an array of nres results"""
        key = [txt(opname)] + [txt(i) for i in imms]
        dom = [k.sort() for k in key] + [z3.IntSort(), ARR, SCR, W]
        n = z3.simplify(_z(nargs))
        if z3.is_int_value(n):
            a = z3.K(z3.IntSort(), V.I(0))
            for i in range(n.as_long()):
                a = z3.Store(a, i, z3.simplify(z3.Select(argarr, i)))
            argarr = a
        args = key + [n, argarr, self.scr, self.w]
        t = f"{len(imms)}"
        self.require(uf("opok" + t, dom, z3.BoolSort())(*args))
        r = uf("opres" + t, dom, ARR)(*args)
        self.scr, self.w = uf("opscr" + t, dom, SCR)(*args), uf("opw" + t, dom, W)(*args)
        return r

    def load(self, slot):
        return z3.Select(self.scr, _z(slot))

    def store(self, slot, v):
        self.scr = z3.Store(self.scr, _z(slot), v)

    def is_true(self, v):
        """the truth of a value (a branch instruction); fails on byte strings"""
        v = z3.simplify(v)
        self.require(is_I(v))
        return self.ctx.branch(V.n(v) != 0)


class OpSem:
    """the meaning of the opcodes the compiler itself emits"""

    PURE = {
        "+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "!", "&", "|", "^", "~", "len", "bitlen", "itob",
        "btoi", "concat", "bzero", "extract", "extract3", "replace2", "replace3", "substring3", "b+", "b|", "b&", "b^", "b-", "b*", "b/",
        "b%", "sha256", "getbyte", "setbyte", "getbit", "setbit", "exp", "sqrt", "mulw", "addw", "divw", "shl", "shr",
    }

    def apply(self, m, name, imms, args):
        f = getattr(self, "o_" + NAMES.get(name, name), None) if name in NAMES or name.isidentifier() else None
        if f is not None:
            return f(m, imms, *args)
        spec = OPS.get(name)
        if spec is None:
            raise Unsupported(f"opcode {name}")
        nret = len(spec.get("Returns", ""))
        if len(args) != len(spec.get("Args", "")):
            raise Unsupported(f"{name} with {len(args)} operands")
        key = [txt(i) for i in imms]
        pure = name in self.PURE
        dom = [k.sort() for k in key] + [V] * len(args) + ([] if pure else [SCR, W])
        a = key + list(args) + ([] if pure else [m.scr, m.w])
        nm = f"{name}/{len(imms)}"

        def app(fn, sort):
            return uf(fn, dom, sort)(*a) if a else z3.Const(fn, sort)

        m.require(app(f"ok_{nm}", z3.BoolSort()))
        res = [app(f"res{i}_{nm}", V) for i in range(nret)]
        if not pure:
            m.w = app(f"w_{nm}", W)
        return res

    # integers
    def o_add(self, m, imms, a, b):
        m.require(z3.And(is_I(a), is_I(b), V.n(a) + V.n(b) < U64))
        return [V.I(V.n(a) + V.n(b))]

    def o_sub(self, m, imms, a, b):
        m.require(z3.And(is_I(a), is_I(b), V.n(a) >= V.n(b)))
        return [V.I(V.n(a) - V.n(b))]

    def o_eq(self, m, imms, a, b):
        m.require(is_I(a) == is_I(b))
        return [V.I(z3.If(a == b, z3.IntVal(1), z3.IntVal(0)))]

    def o_le(self, m, imms, a, b):
        m.require(z3.And(is_I(a), is_I(b)))
        return [V.I(z3.If(V.n(a) <= V.n(b), z3.IntVal(1), z3.IntVal(0)))]

    def o_not(self, m, imms, a):
        m.require(is_I(a))
        return [V.I(z3.If(V.n(a) == 0, z3.IntVal(1), z3.IntVal(0)))]

    # bytes: length and big-endian value
    def o_len(self, m, imms, a):
        m.require(is_B(a))
        return [V.I(V.blen(a))]

    def o_bitlen(self, m, imms, a):
        # of integers: the number of bits; of byte strings: the same for their value
        f = uf("bitlen", [z3.IntSort()], z3.IntSort())
        n = z3.If(is_I(a), V.n(a), V.bnum(a))
        return [V.I(f(n))]

    def o_itob(self, m, imms, a):
        m.require(is_I(a))
        return [V.B(8, V.n(a))]

    def o_btoi(self, m, imms, a):
        m.require(z3.And(is_B(a), V.blen(a) <= 8))
        return [V.I(V.bnum(a))]

    def o_bzero(self, m, imms, a):
        m.require(z3.And(is_I(a), V.n(a) <= 4096))
        return [V.B(V.n(a), 0)]

    def o_concat(self, m, imms, a, b):
        m.require(z3.And(is_B(a), is_B(b), V.blen(a) + V.blen(b) <= 4096))
        return [V.B(V.blen(a) + V.blen(b), V.bnum(a) * pow256(V.blen(b)) + V.bnum(b))]

    def o_bor(self, m, imms, a, b):
        m.require(z3.And(is_B(a), is_B(b)))
        f = uf("bitor", [z3.IntSort(), z3.IntSort()], z3.IntSort())
        n = z3.If(V.bnum(b) == 0, V.bnum(a), z3.If(V.bnum(a) == 0, V.bnum(b), f(V.bnum(a), V.bnum(b))))
        return [V.B(z3.If(V.blen(a) > V.blen(b), V.blen(a), V.blen(b)), n)]

    def _extract(self, m, b, s, l):
        m.require(z3.And(is_B(b), s + l <= V.blen(b)))
        r = (V.bnum(b) / pow256(V.blen(b) - s - l)) % pow256(l)
        return V.B(l, r)

    def o_extract(self, m, imms, b):
        s, l = int_of(imms[0]), int_of(imms[1])
        if s is None or l is None:
            raise Unsupported("extract")
        if not m.ctx.valid(z3.And(s >= 0, s < 256, l >= 0, l < 256)):
            raise Refuted(f"extract {imms[0]} {imms[1]}: an immediate may not fit a byte")
        l = z3.If(l == 0, V.blen(b) - s, l)
        return [self._extract(m, b, s, z3.simplify(l))]

    def o_extract3(self, m, imms, b, s, l):
        m.require(z3.And(is_I(s), is_I(l)))
        return [self._extract(m, b, V.n(s), V.n(l))]

    def _replace(self, m, b, s, v):
        m.require(z3.And(is_B(b), is_B(v), s + V.blen(v) <= V.blen(b)))
        return V.B(V.blen(b), uf("replaced", [V, z3.IntSort(), V], z3.IntSort())(b, s, v))

    def o_replace(self, m, imms, *args):
        if imms:
            s = int_of(imms[0])
            if not m.ctx.valid(z3.And(s >= 0, s < 256)):
                raise Refuted(f"replace {imms[0]}: the immediate may not fit a byte")
            return [self._replace(m, args[0], s, args[1])]
        m.require(is_I(args[1]))
        return [self._replace(m, args[0], V.n(args[1]), args[2])]

    def o_replace3(self, m, imms, b, s, v):
        m.require(is_I(s))
        return [self._replace(m, b, V.n(s), v)]


NAMES = {"+": "add", "-": "sub", "==": "eq", "<=": "le", "!": "not", "b|": "bor"}
ARITY = {"replace": None, "extract": 1}
OPSEM = OpSem()


class Outcome:
    def __init__(self, what, /, **info):
        self.kind, self.info = what, info

    def __repr__(self):
        return f"{self.kind}{self.info or ''}"


class Cut(Exception):
    def __init__(self, pos):
        self.pos = pos


class Env:
    def __init__(self, breaks=None, calls=None, ops=None):
        self.breaks, self.calls, self.ops = breaks, calls or {}, ops or {}


# -- running the emitted code ------------------------------------------------------
class Code:
    """the nodes, addressed by paths: (index, alternative, index, alternative, ..., index)"""

    def __init__(self, nodes):
        self.nodes = nodes
        self.order = []
        self._walk(nodes, ())
        self.loop_heads = set()
        seen = {}
        for n, (path, node) in enumerate(self.order):
            if isinstance(node, Label):
                seen[repr(_generic(node.text))] = (n, path)
        for n, (path, node) in enumerate(self.order):
            if isinstance(node, Instr) and isinstance(node.op, str) and node.op in ("b", "bz", "bnz"):
                t = repr(_generic(node.imms[0])) if node.imms else ""
                if t in seen and seen[t][0] <= n:
                    self.loop_heads.add(seen[t][1])

    def _walk(self, nodes, path):
        for i, n in enumerate(nodes):
            self.order.append((path + (i,), n))
            if isinstance(n, ForEach):
                for j, (g, body) in enumerate(n.alts):
                    self._walk(body, path + (i, j))

    def body(self, path):
        """the node list a path's last index points into, and the enclosing loops"""
        nodes, loops = self.nodes, []
        for a in range(0, len(path) - 1, 2):
            fe = nodes[path[a]]
            loops.append((path[: a + 1], fe, path[a + 1]))
            nodes = fe.alts[path[a + 1]][1]
        return nodes, loops

    def guards(self, path, ks):
        """what holds where the code of the given iterations is that of the path (the start of an
        iteration may be of any form)"""
        _, loops = self.body(path)
        out, sub = [], []
        for i, ((p, fe, j), k) in enumerate(zip(loops, ks)):
            sub.append((fe.k, k))
            if i == len(loops) - 1 and path[-1] == 0:
                break
            if len(fe.alts) > 1:
                out += [z3.substitute(g, *sub) for g in fe.alts[j][0]]
        return out

    def find_label(self, target, ctx):
        """(path, ks) of the definition of a label, or None if it is not in this code"""
        hits = []
        for path, node in self.order:
            if not isinstance(node, Label):
                continue
            _, loops = self.body(path)
            ks = [fe.k for _, fe, _ in loops]
            sol = unify(node.text, target, ks)
            if sol is not None:
                hits.append((path, sol))
        good = []
        for path, sol in hits:
            _, loops = self.body(path)
            cond = [z3.BoolVal(True)]
            sub = []
            for (p, fe, j), e in zip(loops, sol):
                n = z3.substitute(fe.n, *sub) if sub else fe.n
                cond += [e >= 0, e < n]
                sub.append((fe.k, e))
                cond += [z3.substitute(g, *sub) for g in fe.alts[j][0]]
            if ctx.valid(z3.And(*cond)):
                good.append((path, sol))
            elif ctx.feasible(*cond):
                if ctx.branch(z3.And(*cond)):
                    good.append((path, sol))
        if not good:
            return None
        return good[0]


def _generic(t):
    if isinstance(t, Rope):
        return tuple(p if isinstance(p, str) else ("#" if isinstance(p, IntText) else repr(p)) for p in t.parts)
    return (t,)


def digits(t):
    """the parts of a text, with the numbers in its known parts taken as numbers"""
    out = []
    for p in t.parts if isinstance(t, Rope) else (t,):
        if isinstance(p, str):
            out += [IntText(z3.IntVal(int(x))) if x.isdigit() and str(int(x)) == x else x for x in re.split(r"([0-9]+)", p) if x]
        else:
            out.append(p)
    return out


def unify(pattern, target, ks):
    """values of ks for which the two texts are equal, or None"""
    if isinstance(pattern, str) and isinstance(target, str):
        return [] if pattern == target and not ks else ([_unknown() for _ in ks] if pattern == target else None)
    a, b = digits(pattern), digits(target)
    if len(a) != len(b):
        return None
    eqs = []
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return None
        elif isinstance(x, IntText) and isinstance(y, IntText):
            eqs.append((x.e, y.e))
        elif isinstance(x, Atom) and isinstance(y, Atom):
            if x.term.eq(y.term):
                continue
            if z3.is_app(x.term) and z3.is_app(y.term) and x.term.decl().eq(y.term.decl()):
                eqs += list(zip(x.term.children(), y.term.children()))
                continue
            return None
        else:
            return None
    sol = {}
    for x, y in eqs:
        x = z3.simplify(x)
        y = z3.simplify(y)
        if x.sort() != z3.IntSort():
            if not x.eq(y):
                return None
            continue
        todo = [k for k in ks if _mentions(x, k)]
        if not todo:
            if not z3.simplify(x - y).eq(z3.IntVal(0)):
                return None
            continue
        k = todo[0]
        d = z3.simplify(x - k)
        if _mentions(d, k):
            return None
        sol[k.sexpr()] = z3.simplify(y - d)
    if any(k.sexpr() not in sol for k in ks):
        return None
    return [sol[k.sexpr()] for k in ks]


def _unknown():
    raise Unsupported("a label defined once for each iteration")


class Teal(Machine):
    side = "code"

    def __init__(self, ctx, code, scr, w, stack, env):
        super().__init__(ctx, scr, w, stack, env)
        self.code = code
        self.started = None
        self.steps = 0

    def run(self, path, ks, first=True):
        """from a position to the next cut or the end: Outcome"""
        path, ks = tuple(path), list(ks)
        while True:
            self.steps += 1
            if self.steps > 400:
                raise Unsupported("too many TEAL steps")
            nodes, loops = self.code.body(path)
            i = path[-1]
            if i >= len(nodes):
                if not loops:
                    return Outcome("end")
                p, fe, j = loops[-1]
                k = z3.simplify(ks[-1] + 1)
                n = self.inst(fe.n, loops[:-1], ks[:-1])
                if self.ctx.branch(k < n):
                    r = self.enter_iter(p, ks[:-1] + [k])
                    return Outcome("cut", path=r, ks=ks[:-1] + [k])
                path, ks = p[:-1] + (p[-1] + 1,), ks[:-1]
                first = False
                continue
            node = nodes[i]
            for (p, fe, j), k in zip(loops, ks):
                node = node.subst(fe.k, k)
            if isinstance(node, Label):
                if path in self.code.loop_heads and not first:
                    return Outcome("cut", path=path, ks=ks)
                first = False
                path = path[:-1] + (i + 1,)
                continue
            first = False
            if isinstance(node, ForEach):
                if self.ctx.branch(node.n > 0):
                    r = self.enter_iter(path, ks + [z3.IntVal(0)])
                    return Outcome("cut", path=r, ks=ks + [z3.IntVal(0)])
                path = path[:-1] + (i + 1,)
                continue
            if isinstance(node, Emit):
                r = self.hole(node.hole)
                if r == "break":
                    r = self.jump(self.env.breaks)
                    if isinstance(r, Outcome):
                        return r
                    path, ks = r
                    continue
                if r is not None:
                    return r
                path = path[:-1] + (i + 1,)
                continue
            if isinstance(node, Seq):
                r = self.seq(node)
                if r == "break":
                    r = self.jump(self.env.breaks)
                    if isinstance(r, Outcome):
                        return r
                    path, ks = r
                    continue
                if r is not None:
                    return r
                path = path[:-1] + (i + 1,)
                continue
            r = self.instr(node)
            if r is None:
                path = path[:-1] + (i + 1,)
            elif isinstance(r, Outcome):
                return r
            else:
                npath, nks = r
                if npath in self.code.loop_heads or len(npath) > 1:
                    return Outcome("cut", path=npath, ks=nks)
                path, ks = npath, nks

    def inst(self, e, loops, ks):
        for (p, fe, j), k in zip(loops, ks):
            e = z3.substitute(e, (fe.k, k))
        return z3.simplify(e)

    def enter_iter(self, p, ks):
        """the path of the start of an iteration: picks the alternative"""
        nodes, loops = self.code.body(p)
        fe = nodes[p[-1]]
        if len(fe.alts) == 1:
            return p + (0, 0)
        for j, (g, _) in enumerate(fe.alts):
            gs = []
            for x in g:
                for (pp, f, jj), k in zip(loops, ks):
                    x = z3.substitute(x, (f.k, k))
                gs.append(z3.substitute(x, (fe.k, ks[-1])))
            if self.ctx.branch(z3.And(*gs) if gs else z3.BoolVal(True)):
                return p + (j, 0)
        raise Infeasible()

    def hole(self, hole):
        if hole.kind == "expr":
            v = self.eval(hole)
            if isinstance(v, list):
                self.stack += v
            else:
                # the first of several values is on top
                self.stack.append(Seg(v, 0, self.arity(hole), desc=True))
            return None
        if hole.kind == "stmt":
            self.stack = _trim(self.ctx, self.stack)
            if self.stack:
                raise Refuted(f"a statement of the body runs with {len(self.stack)} values of the construct left on the stack")
            r = self.exec(hole)
            return r if r is None or r == "break" else Outcome("exit", kind=r[1])
        f = self.env.ops.get(("hole", hole.kind))
        if f is not None:
            return f(self, hole)
        raise Unsupported(f"hole of kind {hole.kind}")

    def seq(self, node):
        if node.hole.kind == "expr":
            v = self.eval_seq(node.hole, node.n, node.rev, node.off)
            self.stack.append(Seg(v, 0, node.n))
            return None
        if node.hole.kind == "stmt":
            self.stack = _trim(self.ctx, self.stack)
            if self.stack:
                raise Refuted(f"statements of the body run with {len(self.stack)} values of the construct left on the stack")
            if node.rev:
                raise Refuted("the statements of the body run in reverse order")
            r = self.exec(node.hole, seq=(node.off, node.n))
            return r if r is None or r == "break" else Outcome("exit", kind=r[1])
        f = self.env.ops.get(("seq", node.hole.kind))
        if f is not None:
            return f(self, node)
        raise Unsupported(f"holes of kind {node.hole.kind}")

    def jump(self, label):
        r = self.code.find_label(label, self.ctx)
        if r is None:
            return Outcome("jump", label=label)
        return r[0], r[1]

    def instr(self, ins):
        op, imms = ins.op, ins.imms
        if not isinstance(op, str):
            f = self.env.ops.get("symbolic")
            if f is None:
                raise Unsupported(f"opcode {op}")
            return f(self, op, imms)
        f = self.env.ops.get(op)
        if f is not None:
            return f(self, imms)
        if op == "#pragma" or op == "#define":
            return None
        if op in ("b", "bz", "bnz"):
            if len(imms) != 1:
                raise Refuted(f"{op} with {len(imms)} targets")
            if op != "b":
                t = self.is_true(self.pop())
                if t != (op == "bnz"):
                    return None
            return self.jump(imms[0])
        if op == "return":
            v = self.pop()
            self.require(is_I(v))
            return Outcome("return", value=v)
        if op == "err":
            return Outcome("fail")
        if op == "assert":
            v = self.pop()
            self.require(z3.And(is_I(v), V.n(v) != 0))
            return None
        if op == "retsub":
            return Outcome("retsub")
        if op == "callsub":
            key = repr(imms[0])
            h = self.env.calls.get(key)
            if h is None:
                r = self.jump(imms[0])
                raise Unsupported(f"callsub {imms[0]}")
            return h(self)
        if op in ("pushint", "int"):
            n = int_of(imms[0])
            if n is None:
                if isinstance(imms[0], Rope) and not (isinstance(imms[0].parts[0], str)):
                    n = uf("namedint", [TXT], z3.IntSort())(txt(imms[0]))
                else:
                    raise Unsupported(f"pushint {imms[0]}")
            self.push(V.I(n))
            return None
        if op in ("pushbytes", "byte", "method", "addr"):
            self.push(literal(" ".join([op]), imms))
            return None
        if op == "load":
            self.push(self.load(self.slot(imms[0])))
            return None
        if op == "store":
            self.store(self.slot(imms[0]), self.pop())
            return None
        if op == "pop":
            self.pop()
            return None
        if op == "dup":
            v = self.pop()
            self.stack += [v, v]
            return None
        if op == "swap":
            b, a = self.pop(), self.pop()
            self.stack += [b, a]
            return None
        if op == "dig":
            self.push(self.dig(int_of(imms[0])))
            return None
        if op == "uncover":
            self.push(self.uncover(int_of(imms[0])))
            return None
        if op == "cover":
            n = z3.simplify(int_of(imms[0]))
            if not z3.is_int_value(n):
                raise Unsupported("cover")
            v = self.pop()
            rest = [self.pop() for _ in range(n.as_long())][::-1]
            self.stack += [v] + rest
            return None
        if op == "switch":
            v = self.pop()
            self.require(is_I(v))
            for j, l in enumerate(imms):
                if self.ctx.branch(V.n(v) == j):
                    return self.jump(l)
            return None
        if op == "match":
            return self.match(imms)
        if op == "replace":  # the assembler's name for replace2 and replace3
            args = [self.pop() for _ in range(2 if imms else 3)][::-1]
            self.stack += self.op(op, imms, args)
            return None
        spec = OPS.get(op)
        if spec is None:
            raise Refuted(f"unknown opcode {op}")
        nargs = len(spec.get("Args", ""))
        args = [self.pop() for _ in range(nargs)][::-1]
        self.stack += self.op(op, imms, args)
        return None

    def slot(self, imm):
        n = int_of(imm)
        if n is None:
            raise Unsupported(f"slot {imm}")
        return n

    def dig(self, n):
        """value n below the top"""
        d = z3.simplify(n)
        for s in reversed(self.stack):
            if isinstance(s, Seg):
                ln = s.hi - s.lo
                if self.ctx.branch(d < ln):
                    return z3.simplify(z3.Select(s.arr, s.lo + d if s.desc else s.hi - 1 - d))
                d = z3.simplify(d - ln)
            else:
                if self.ctx.branch(d == 0):
                    return s
                d = z3.simplify(d - 1)
        raise Refuted("dig below the values of the construct")

    def uncover(self, n):
        d = z3.simplify(n)
        for i in range(len(self.stack) - 1, -1, -1):
            s = self.stack[i]
            if isinstance(s, Seg):
                ln = s.hi - s.lo
                if self.ctx.branch(ln == 0):
                    continue
                if self.ctx.branch(d == 0):
                    if s.desc:
                        self.stack[i] = Seg(s.arr, s.lo + 1, s.hi, True)
                        return z3.Select(s.arr, s.lo)
                    self.stack[i] = Seg(s.arr, s.lo, s.hi - 1)
                    return z3.Select(s.arr, s.hi - 1)
                if self.ctx.branch(d >= ln):
                    d = z3.simplify(d - ln)
                    continue
                # inside the segment: split it
                if s.desc:
                    self.stack[i:i + 1] = [Seg(s.arr, s.lo + d + 1, s.hi, True), Seg(s.arr, s.lo, s.lo + d, True)]
                    return z3.Select(s.arr, s.lo + d)
                p = z3.simplify(s.hi - 1 - d)
                self.stack[i:i + 1] = [Seg(s.arr, s.lo, p), Seg(s.arr, p + 1, s.hi)]
                return z3.Select(s.arr, p)
            if self.ctx.branch(d == 0):
                del self.stack[i]
                return s
            d = z3.simplify(d - 1)
        raise Refuted("uncover below the values of the construct")

    def match(self, imms):
        v = self.pop()
        if len(imms) == 1 and isinstance(imms[0], Many):
            many = imms[0]
            self.gather(many.n)
            s = self.stack[-1] if self.stack else None
            if not (isinstance(s, Seg) and self.ctx.valid(s.hi - s.lo == many.n)) or s.desc:
                if self.ctx.valid(many.n == 0):
                    return None
                raise Refuted("match with a different number of values and labels")
            self.stack.pop()
            k0 = first_match(self, s.arr, s.lo, many.n, v)
            if k0 is None:
                return None
            return self.jump(subst(many.rope, many.k, k0))
        if any(isinstance(x, Many) for x in imms):
            raise Unsupported("match")
        vals = [self.pop() for _ in imms][::-1]
        for x, l in zip(vals, imms):
            self.require(is_I(x) == is_I(v))
            if self.ctx.branch(x == v):
                return self.jump(l)
        return None


    def gather(self, n):
        """join a segment and the single values pushed after it"""
        i = len(self.stack)
        while i and not isinstance(self.stack[i - 1], Seg):
            i -= 1
        if not i or i == len(self.stack) or self.stack[i - 1].desc:
            return
        s = self.stack[i - 1]
        arr, hi = s.arr, s.hi
        for v in self.stack[i:]:
            if not self.ctx.valid(z3.Select(arr, hi) == v):
                arr = z3.Store(arr, hi, v)
            hi = hi + 1
        if self.ctx.valid(hi - s.lo == n):
            self.stack[i - 1:] = [Seg(arr, s.lo, hi)]


def first_match(m, arr, lo, n, v):
    """the index of the first element equal to v, or None"""
    j = z3.Int("j!m")
    some = z3.Exists([j], z3.And(j >= 0, j < n, z3.Select(arr, lo + j) == v))
    memo = m.ctx.__dict__.setdefault("matches", {})
    key = (arr.sexpr(), z3.simplify(_z(lo)).sexpr(), z3.simplify(_z(n)).sexpr(), v.sexpr())
    if key in memo:
        return memo[key]
    if m.ctx.decide(2, "match") == 0:
        k0 = fresh("k")
        m.ctx.assume(z3.And(k0 >= 0, k0 < n, z3.Select(arr, lo + k0) == v))
        m.ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k0), z3.Select(arr, lo + j) != v)))
        memo[key] = k0
    else:
        m.ctx.assume(z3.Not(some))
        memo[key] = None
    if not m.ctx.feasible():
        raise Infeasible()
    return memo[key]


def literal(op, imms):
    """the value of a literal: a function of its text"""
    t = txt(mkstr(Rope([x for i in imms for x in (i, " ")])))
    t2 = uf("litlen", [TXT], z3.IntSort())(t), uf("litnum", [TXT], z3.IntSort())(t)
    return V.B(*t2)


# -- reference --------------------------------------------------------------------
class Ref(Machine):
    """the reference's side: the same machine without code"""

    def fail(self):
        return Outcome("fail")

    def goto(self, loc, **params):
        return Outcome("goto", loc=loc, params={k: _z(v) if isinstance(v, int) else v for k, v in params.items()})

    def end(self, *stack):
        return Outcome("end", stack=list(stack))

    def body(self, hole, seq=None):
        """run statements: None to go on, else the outcome ('break' is left to the caller)"""
        r = self.exec(hole, seq)
        if r is None or r == "break":
            return r
        return Outcome("exit", kind=r[1])


class Loc:
    """a location: its parameters with sorts, what holds of them, the stack there, the loop indices"""

    def __init__(self, run, params=None, assume=None, stack=None, ks=None):
        self.run, self.params = run, params or {}
        self.assume = assume or (lambda p: z3.BoolVal(True))
        self.stack = stack or (lambda p: [])
        self.ks = ks or (lambda p: [])


class P:
    def __init__(self, d):
        self.__dict__.update(d)


SKIP = []  # C10 looks at the lines of what is written only


def simulate(items, start, locs=None, env=None, facts=(), entry=None, limit=400):
    """check that the emitted items do what the reference does; raises Refuted or Unsupported.

    start(m) is the reference from the beginning; locs: name -> Loc.  Returns the number of paths compared.
    """
    if SKIP:
        return 1
    env = env or Env()
    locs = locs or {}
    code = Code(compile_items(items))
    # a location is proved once for every place of the code it is reached at
    todo, done, n = [("start", None)], set(), 0
    while todo:
        name, place = todo.pop()
        if (name, place) in done:
            continue
        done.add((name, place))

        def path(ctx, name=name, place=place):
            for f in facts:
                ctx.assume(f)
            scr, w = z3.Const("scr", SCR), z3.Const("w", W)
            if name == "start":
                stack = list(entry or [])
                pos, ks, p = (0,), [], None
            else:
                l = locs[name]
                p = P({q: z3.Const(f"{name}.{q}", s) for q, s in l.params.items()})
                ctx.assume(l.assume(p))
                stack = list(l.stack(p))
                pos, ks = place, [_z(x) for x in l.ks(p)]
                for g in code.guards(pos, ks):
                    ctx.assume(g)
            if not ctx.feasible():
                raise Refuted(f"contradictory assumptions at {name}")
            r = Ref(ctx, scr, w, stack, env)
            ro = start(r) if name == "start" else locs[name].run(r, p)
            t = Teal(ctx, code, scr, w, stack, env)
            if ks and pos[-1] == 0:
                pos = t.enter_iter(pos[:-2], ks)
            to = t.run(pos, ks, name != "start")
            return compare(ctx, r, ro, t, to, name)

        def compare(ctx, r, ro, t, to, name):
            okr, okt = z3.And(*r.ok) if r.ok else z3.BoolVal(True), z3.And(*t.ok) if t.ok else z3.BoolVal(True)
            if ro.kind == "fail":
                if to.kind == "fail":
                    return
                must(ctx, z3.Not(okt), f"from {name}: the reference fails, the code does not")
                return
            if to.kind == "fail":
                must(ctx, z3.Not(okr), f"from {name}: the code fails, the reference does not")
                return
            must(ctx, okr == okt, f"from {name}: the code and the reference fail in different cases")
            ctx.assume(okr)
            if not ctx.feasible():
                return
            if ro.kind == "goto":
                if to.kind != "cut":
                    raise Refuted(f"from {name}: the code ends with {to} where the reference goes on to {ro.info['loc']}")
                loc = ro.info["loc"]
                l = locs[loc]
                p = P(ro.info["params"])
                at = to.info["path"]
                if to.info["ks"] and at[-1] == 0:
                    at = at[:-2] + (0, 0)  # the start of an iteration, of whatever form
                todo.append((loc, at))
                must(ctx, l.assume(p), f"from {name}: what must hold at {loc}")
                ks = [_z(x) for x in l.ks(p)]
                if len(ks) != len(to.info["ks"]):
                    raise Unsupported(f"loop indices at {loc}: {to.info['ks']}")
                for a, b in zip(ks, to.info["ks"]):
                    must(ctx, a == b, f"from {name}: the iteration reached at {loc}")
                same_stack(ctx, t.stack, list(l.stack(p)), f"from {name}: stack at {loc}")
            elif ro.kind == "end":
                if to.kind != "end":
                    raise Refuted(f"from {name}: the code leaves by {to} where the reference falls through")
                same_stack(ctx, t.stack, ro.info["stack"], f"from {name}: stack at the end")
            elif ro.kind == "exit":
                if to.kind != "exit":
                    raise Refuted(f"from {name}: {to} where a statement of the body leaves")
                must(ctx, ro.info["kind"] == to.info["kind"], f"from {name}: how the body leaves")
            elif ro.kind == "jump":
                if to.kind != "jump" or repr(to.info["label"]) != repr(ro.info["label"]):
                    raise Refuted(f"from {name}: {to} instead of a jump to {ro.info['label']}")
                same_stack(ctx, t.stack, ro.info.get("stack", []), f"from {name}: stack at the jump")
            elif ro.kind in ("return", "retsub"):
                if to.kind != ro.kind:
                    raise Refuted(f"from {name}: {to} instead of {ro.kind}")
                if ro.kind == "return":
                    must(ctx, ro.info["value"] == to.info["value"], f"from {name}: the value returned")
                    return  # the program is over: the stack does not matter
                same_stack(ctx, t.stack, ro.info.get("stack", []), f"from {name}: stack at retsub")
            else:
                raise Unsupported(f"{ro}")
            must(ctx, z3.And(r.scr == t.scr, r.w == t.w), f"from {name}: the state")

        for ctx, _ in explore(path, limit):
            n += 1
    unreached = [l for l in locs if all(l != d for d, _ in done)]
    if unreached:
        raise Refuted(f"the code never reaches {unreached}")
    if not n:
        raise Refuted("no path")
    return n


def must(ctx, c, what):
    if isinstance(c, bool):
        c = z3.BoolVal(c)
    c = z3.simplify(c)
    if z3.is_true(c):
        return
    r, model = solve(ctx.constraints() + [z3.Not(c)], 8000)
    if r == z3.unsat:
        return
    if r == z3.unknown:
        raise Unsupported(f"{what}: not decided")
    raise Refuted(f"{what}\n  not implied: {str(c)[:300]}\n  path: {[str(x)[:80] for x in ctx.local][:12]}")


def same_stack(ctx, a, b, what):
    a, b = _trim(ctx, a), _trim(ctx, b)
    if not a and not b:
        return
    while a or b:
        if not a or not b:
            raise Refuted(f"{what}: {a} left on the stack" if a else f"{what}: {b} missing on the stack")
        x, y = a[-1], b[-1]
        if isinstance(x, Seg) and isinstance(y, Seg):
            if x.desc == y.desc:
                j = z3.Int("j!s")
                if ctx.valid(z3.And(x.lo == y.lo, x.hi == y.hi)):
                    must(ctx, z3.Or(x.arr == y.arr, z3.ForAll([j], z3.Implies(z3.And(j >= x.lo, j < x.hi), z3.Select(x.arr, j) == z3.Select(y.arr, j)))), what + ": values")
                    a.pop(), b.pop()
                    a, b = _trim(ctx, a), _trim(ctx, b)
                    continue
                must(ctx, x.hi - x.lo == y.hi - y.lo, what + ": number of values")
                must(ctx, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < x.hi - x.lo), z3.Select(x.arr, x.lo + j) == z3.Select(y.arr, y.lo + j))), what + ": values")
                a.pop(), b.pop()
                a, b = _trim(ctx, a), _trim(ctx, b)
                continue
            for l in a, b:  # a single value reads the same in both directions
                if ctx.valid(l[-1].hi - l[-1].lo == 1):
                    l[:] = _peel(ctx, l, what)[1]
                    break
            else:
                raise Unsupported(what)
            continue
        if isinstance(x, Seg):
            x, a = _peel(ctx, a, what)
        if isinstance(y, Seg):
            y, b = _peel(ctx, b, what)
        must(ctx, x == y, what + ": value")
        a, b = _trim(ctx, a[:-1]), _trim(ctx, b[:-1])


def _peel(ctx, a, what):
    s = a[-1]
    if not ctx.valid(s.hi > s.lo):
        raise Refuted(what + ": a value is missing")
    if s.desc:
        v, rest = z3.Select(s.arr, s.lo), Seg(s.arr, s.lo + 1, s.hi, True)
    else:
        v, rest = z3.Select(s.arr, s.hi - 1), Seg(s.arr, s.lo, s.hi - 1)
    return v, a[:-1] + [rest, v]


def _trim(ctx, a):
    a = list(a)
    while a and isinstance(a[-1], Seg) and ctx.valid(a[-1].hi <= a[-1].lo):
        a.pop()
    return a
