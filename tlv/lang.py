"""Abstract syntax of Tealish, a renderer, and a reference evaluator written from the
language guide (docs/language.rst), independently of the compiler."""
from . import avm
from .avm import Fail, need, isint, isb, U64

# ------------------------------------------------------------------ types

INT, BYTES, ANY = ("int", 8), ("bytes", 0), ("any",)


class Struct:
    def __init__(self, name, fields):
        self.name, self.fields = name, fields  # [(field, type name, structs)]

    def layout(self):
        off, out = 0, {}
        for f, t in self.fields:
            n = tsize(t)
            out[f] = (off, n, t)
            off += n
        return out

    @property
    def size(self):
        return sum(tsize(t) for _, t in self.fields)


def tsize(t):
    """width in bytes of a type name (or Struct) as a struct field"""
    if isinstance(t, Struct):
        return t.size
    if isinstance(t, BoxT):
        return t.struct.size
    if t in ("int", "uint64"):
        return 8
    if t == "uint8":
        return 1
    if t == "addr":
        return 32
    if t.startswith(("bytes[", "uint8[")):
        return int(t[6:-1])
    return 0


class BoxT:
    def __init__(self, struct):
        self.struct = struct


def tname(t):
    if isinstance(t, Struct):
        return t.name
    if isinstance(t, BoxT):
        return f"box<{t.struct.name}>"
    return t


def tval(t):
    """value type of a declared type"""
    if t in ("int", "uint64"):
        return INT
    if t == "uint8":
        return ("int", 1)
    if t in ("bytes", "bigint"):
        return BYTES
    return ("bytes", tsize(t))


def is_int_type(t):
    return t in ("int", "uint64", "uint8")


def can_hold(t, v):
    """The property: may a place of declared type t hold a value of type v"""
    if isinstance(v, list) or v is None:
        return False
    if is_int_type(t):
        if v == ANY:
            return t != "uint8"
        return v[0] == "int" and v[1] <= tval(t)[1]
    size = tval(t)[1]
    sized = not (t in ("bytes", "bigint"))
    if v == ANY:
        return not sized
    return v[0] == "bytes" and (not sized or v[1] == size)


# ------------------------------------------------------------------ expressions


class E:
    """expression; ty is the static type: (kind, size), ANY, None (no value) or a list"""

    ty = None
    atom = True  # may be an operand without brackets

    def __repr__(self):
        return self.src()


class Int(E):
    def __init__(self, v):
        self.v = v
        self.ty = ("int", max(1, (v.bit_length() + 7) // 8))

    def src(self):
        return str(self.v)

    def ev(self, s):
        return self.v


class Bytes(E):
    """raw: the text between the quotes"""

    def __init__(self, raw, quote='"'):
        self.raw, self.quote = raw, quote
        self.v = avm.parse_string('"' + raw.replace('\\"', '"').replace('"', '\\"') + '"')
        self.ty = ("bytes", len(self.v))

    def src(self):
        return f"{self.quote}{self.raw}{self.quote}"

    def ev(self, s):
        return self.v


class ConstRef(E):
    def __init__(self, c):
        self.c = c
        self.ty = INT if isinstance(c.v, int) else ("bytes", len(c.v))

    def src(self):
        return self.c.name

    def ev(self, s):
        return self.c.v


class Var(E):
    def __init__(self, d):
        self.d = d
        self.ty = tval(d.t)

    def src(self):
        return self.d.name

    def ev(self, s):
        return s.cells.get(self.d, 0)


class Un(E):
    def __init__(self, op, a):
        self.op, self.a = op, a
        self.ty = BYTES if op == "b~" else INT

    def src(self):
        return f"{self.op}{self.a.src()}"

    def ev(self, s):
        return s.w.op(self.op, (), [one(self.a, s)])[0]


class Bin(E):
    atom = False

    def __init__(self, a, op, b):
        self.a, self.op, self.b = a, op, b
        self.ty = BYTES if op in ("b+", "b-", "b/", "b*", "b%", "b|", "b&", "b^") else INT

    def src(self):
        return f"{self.a.src()} {self.op} {self.b.src()}"

    def ev(self, s):
        a = one(self.a, s)
        b = one(self.b, s)
        return s.w.op(self.op, (), [a, b])[0]


class Grp(E):
    def __init__(self, e):
        self.e = e
        self.ty = e.ty

    def src(self):
        return self.e.src() if self.e.atom else f"({self.e.src()})"

    def ev(self, s):
        return self.e.ev(s)


def optype(c):
    return {"U": INT, "B": BYTES, ".": ANY}[c]


class Op(E):
    """opcode call: immediates (ints, names or Bytes) then stack arguments"""

    def __init__(self, name, imms, args, rets=None):
        self.name, self.imms, self.args = name, imms, args
        rets = avm.OPS[name].get("Returns", "") if rets is None else rets
        tys = [optype(c) for c in rets][::-1]
        self.ty = tys[0] if len(tys) == 1 else tys
        if not tys:
            self.ty = None

    def src(self):
        parts = [i.src() if isinstance(i, E) else str(i) for i in self.imms] + [a.src() for a in self.args]
        return f"{self.name}({', '.join(parts)})"

    def ev(self, s):
        args = [one(a, s) for a in self.args]
        imms = [i.c.lit if isinstance(i, ConstRef) else i.src() if isinstance(i, E) else str(i) for i in self.imms]
        r = s.w.op(self.name, imms, args)
        r = r[::-1]  # last pushed first
        return r[0] if len(r) == 1 else r


class Bzero(E):
    def __init__(self, n):
        self.n = n
        self.ty = ("bytes", n.v) if isinstance(n, (Int, SizeOf)) else BYTES

    def src(self):
        return f"bzero({self.n.src()})"

    def ev(self, s):
        return s.w.op("bzero", (), [one(self.n, s)])[0]


class SizeOf(E):
    ty = INT

    def __init__(self, t):
        self.t = t
        self.v = tsize(t)

    def src(self):
        return f"SizeOf({tname(self.t)})"

    def ev(self, s):
        return self.v


class Call(E):
    def __init__(self, f, args):
        self.f, self.args = f, args

    @property
    def ty(self):
        r = [tval(t) for t in self.f.rets]
        return None if not r else r[0] if len(r) == 1 else r

    def src(self):
        return f"{self.f.name}({', '.join(a.src() for a in self.args)})"

    def ev(self, s):
        vals = [one(a, s) for a in self.args]
        r = s.call(self.f, vals)
        return r[0] if len(r) == 1 else r


class Field(E):
    """ns: Txn, Itxn, Global, Gtxn; gi: None, int literal, ('+', n), ('-', n) or E; ai: None, Int or E"""

    def __init__(self, ns, f, gi=None, ai=None):
        self.ns, self.f, self.gi, self.ai = ns, f, gi, ai
        if ns == "Global":
            o = avm.OPS["global"]
            self.ty = optype(o["ArgEnumTypes"][o["ArgEnum"].index(f)])
        else:
            self.ty = ("bytes", 32) if f == "Sender" else optype(avm.FIELD_TYPES[f])

    def src(self):
        s = self.ns
        if self.gi is not None:
            g = f"{self.gi[0]}{self.gi[1]}" if isinstance(self.gi, tuple) else self.gi.src()
            s += f"[{g}]"
        s += "." + self.f
        if self.ai is not None:
            s += f"[{self.ai.src()}]"
        return s

    def ev(self, s):
        own = s.w.ctx.get("group_index", 2)
        gi = own
        if isinstance(self.gi, tuple):
            gi = s.w.op(self.gi[0], (), [own, self.gi[1]])[0]
        elif self.gi is not None:
            gi = isint(one(self.gi, s))
        ai = None if self.ai is None else isint(one(self.ai, s))
        if self.ns == "Global":
            return s.w.global_(self.f)
        if self.ns == "Itxn":
            return s.w.itxn(self.f, ai)
        return s.w.txn(gi, self.f, ai)


class SField(E):
    def __init__(self, d, f):
        self.d, self.f = d, f
        st = d.t.struct if isinstance(d.t, BoxT) else d.t
        self.off, self.n, self.t = st.layout()[f]
        self.ty = tval(self.t)
        if self.ty[0] == "bytes" and not is_int_type(self.t):
            self.ty = ("bytes", self.n)

    def src(self):
        return f"{self.d.name}.{self.f}"

    def ev(self, s):
        v = isb(s.cells.get(self.d, 0))
        if isinstance(self.d.t, BoxT):
            v = s.w.op("box_extract", (), [v, self.off, self.n])[0]
        else:
            need(self.off + self.n <= len(v))
            v = v[self.off : self.off + self.n]
        return avm.big(v) if is_int_type(self.t) else v


def fits(v, t):
    """does the run-time value fit the declared type"""
    if isinstance(v, int) != is_int_type(t):
        raise Unspecified("a value of unknown type was declared as the other kind")
    if is_int_type(t):
        return isint(v).bit_length() <= 8 * tsize(t)
    n = tsize(t)
    return not n or len(isb(v)) == n


class Std(E):
    """Cast, UncheckedCast, Convert, EnsureType (type arguments), Rpad, Lpad, ToBytes (size),
    FromBytes, Concat, ARC28Event, Error"""

    def __init__(self, name, args, types=(), n=None):
        self.name, self.args, self.types, self.n = name, args, list(types), n
        if name in ("Cast", "Convert"):
            self.ty = tval(types[0])
        elif name in ("UncheckedCast", "EnsureType"):
            ts = [tval(t) for t in types]
            self.ty = ts[0] if len(ts) == 1 else ts
        elif name == "FromBytes":
            self.ty = INT if is_int_type(types[0]) else tval(types[0])
        elif name in ("Rpad", "Lpad", "ToBytes"):
            self.ty = ("bytes", n)
        elif name in ("Concat", "ARC28Event"):
            self.ty = BYTES
        else:
            self.ty = None

    def src(self):
        parts = [a.src() for a in self.args] + [tname(t) for t in self.types]
        if self.n is not None:
            parts.append(str(self.n))
        return f"{self.name}({', '.join(parts)})"

    def ev(self, s):
        name = self.name
        if name == "Error":
            raise Fail("Error()")
        if name in ("UncheckedCast", "EnsureType"):
            v = self.args[0].ev(s)
            if name == "EnsureType":
                vs = v if isinstance(v, list) else [v]
                src = self.args[0].ty
                src = src if isinstance(src, list) else [src]
                for x, t, st in zip(vs, self.types, src):
                    if t == "uint8" or tval(t)[0] == "bytes":
                        need(fits(x, t))
            return v
        if name == "Concat":
            vs = [one(a, s) for a in self.args]
            out = vs[0]
            for v in vs[1:]:
                out = isb(out) + isb(v)
            if len(vs) == 1:
                return out
            need(len(out) <= 4096)
            return out
        if name == "ARC28Event":
            import hashlib

            sig = self.args[0].raw
            d = hashlib.new("sha512_256", sig.encode()).digest()[:4]
            vs = [isb(one(a, s)) for a in self.args[1:]]
            return d + b"".join(vs)
        v = one(self.args[0], s)
        if name in ("Convert", "ToBytes"):
            # chosen by the static type; a value of the other kind fails
            v = isint(v) if self.args[0].ty[0] == "int" else isb(v)
        if name == "Cast":
            need(fits(v, self.types[0]))
            return v
        if name == "Convert":
            t = self.types[0]
            if isinstance(v, int):
                n = tsize(t)
                if t in ("bytes", "bigint"):
                    return v.to_bytes(8, "big")
                need(v.bit_length() <= 8 * n)
                return v.to_bytes(n, "big")
            need(len(isb(v)) <= 8)
            v = avm.big(v)
            need(v.bit_length() <= 8 * tsize(t))
            return v
        if name == "FromBytes":
            if is_int_type(self.types[0]):
                need(len(isb(v)) <= 8)
                return avm.big(v)
            return v
        if name == "Rpad":
            need(len(isb(v)) <= self.n)
            return v.ljust(self.n, b"\0")
        if name == "Lpad":
            need(len(isb(v)) <= self.n)
            return v.rjust(self.n, b"\0")
        if name == "ToBytes":
            x = v if isinstance(v, int) else avm.big(v)
            if x.bit_length() > 8 * self.n:
                raise Unspecified("ToBytes of a value that does not fit")
            if not isinstance(v, int) and len(v) > self.n:
                raise Unspecified("ToBytes of a longer bigint")
            return x.to_bytes(self.n, "big")
        raise AssertionError(name)


class Addr(E):
    ty = BYTES

    def __init__(self, a):
        self.a = a

    def src(self):
        return f'Address("{self.a}")'

    def ev(self, s):
        return s.w.op("addr", [self.a], [])[0]


class Pop(E):
    ty = ANY

    def src(self):
        return "pop()"

    def ev(self, s):
        if not s.stack:
            raise Fail("stack underflow")
        return s.stack.pop()


class Unspecified(Exception):
    """the guide does not say what happens; the case is skipped"""


def one(e, s):
    v = e.ev(s)
    assert not isinstance(v, list), e
    return v


# ------------------------------------------------------------------ statements


class D:
    """declaration of a variable"""

    def __init__(self, name, t):
        self.name, self.t = name, t

    def __repr__(self):
        return f"{tname(self.t)} {self.name}"


class Const:
    def __init__(self, name, v, lit):
        self.name, self.v, self.lit = name, v, lit

    def lines(self):
        return [f"const {'int' if isinstance(self.v, int) else 'bytes'} {self.name} = {self.lit}"]

    def run(self, s):
        pass


class S:
    """statement: lines() is the source, run() the reference meaning"""


class Decl(S):
    def __init__(self, d, e=None):
        self.d, self.e = d, e

    def lines(self):
        return [f"{tname(self.d.t)} {self.d.name}" + (f" = {self.e.src()}" if self.e else "")]

    def run(self, s):
        if self.e:
            s.cells[self.d] = one(self.e, s)


class Assign(S):
    """names: list of D or None for _"""

    def __init__(self, names, e):
        self.names, self.e = names, e

    def lines(self):
        return [", ".join(d.name if d else "_" for d in self.names) + f" = {self.e.src()}"]

    def run(self, s):
        v = self.e.ev(s)
        vs = v if isinstance(v, list) else [v]
        assert len(vs) == len(self.names), (self.lines(), vs)
        for d, x in zip(self.names, vs):
            if d:
                s.cells[d] = x


class FieldSet(S):
    def __init__(self, d, f, e):
        self.d, self.f, self.e = d, f, e
        self.ref = SField(d, f)

    def lines(self):
        return [f"{self.d.name}.{self.f} = {self.e.src()}"]

    def run(self, s):
        v = one(self.e, s)
        r = self.ref
        if is_int_type(r.t):
            if isint(v).bit_length() > 8 * r.n:
                raise Unspecified("no run-time checks when assigning to a field")
            v = v.to_bytes(r.n, "big")
        elif len(isb(v)) != r.n:
            raise Unspecified("no run-time checks when assigning to a field")
        cur = s.cells.get(self.d, 0)
        if isinstance(self.d.t, BoxT):
            s.w.op("box_replace", (), [isb(cur), r.off, v])
        else:
            need(r.off + r.n <= len(isb(cur)))
            s.cells[self.d] = cur[: r.off] + v + cur[r.off + r.n :]


class BoxDecl(S):
    def __init__(self, d, method, key):
        self.d, self.method, self.key = d, method, key

    def lines(self):
        return [f"box<{self.d.t.struct.name}> {self.d.name} = {self.method}Box({self.key.src()})"]

    def run(self, s):
        k = isb(one(self.key, s))
        n = self.d.t.struct.size
        if self.method == "Open":
            ln, ex = s.w.op("box_len", (), [k])
            need(ex)
            need(ln == n)
        elif self.method == "Create":
            need(s.w.op("box_create", (), [k, n])[0])
        s.cells[self.d] = k


def body_lines(body, extra=1):
    return ["    " * extra + l for st in body for l in st.lines()]


class If(S):
    """branches: [(negated, condition, body)], else_: body or None"""

    def __init__(self, branches, else_=None):
        self.branches, self.else_ = branches, else_

    def lines(self):
        out = []
        for i, (neg, c, b) in enumerate(self.branches):
            out.append(f"{'elif' if i else 'if'} {'not ' if neg else ''}{c.src()}:")
            out += body_lines(b)
        if self.else_ is not None:
            out += ["else:"] + body_lines(self.else_)
        return out + ["end"]

    def run(self, s):
        for neg, c, b in self.branches:
            if bool(isint(one(c, s))) != neg:
                return s.run_body(b)
        if self.else_ is not None:
            s.run_body(self.else_)


class BreakEx(Exception):
    pass


class While(S):
    def __init__(self, neg, c, body):
        self.neg, self.c, self.body = neg, c, body

    def lines(self):
        return [f"while {'not ' if self.neg else ''}{self.c.src()}:"] + body_lines(self.body) + ["end"]

    def run(self, s):
        while bool(isint(one(self.c, s))) != self.neg:
            s.tick()
            try:
                s.run_body(self.body)
            except BreakEx:
                break


class For(S):
    def __init__(self, d, start, end, body):
        self.d, self.start, self.end, self.body = d, start, end, body

    def lines(self):
        return [f"for {self.d.name} in {self.start.src()}:{self.end.src()}:"] + body_lines(self.body) + ["end"]

    def run(self, s):
        s.cells[self.d] = isint(one(self.start, s))
        while True:
            s.tick()
            if s.cells[self.d] == isint(one(self.end, s)):
                return
            s.run_body(self.body)
            s.cells[self.d] = avm.u64(s.cells[self.d] + 1)


class For_(S):
    """leak: model of the known finding (the counter stays on the operand stack)"""

    def __init__(self, start, end, body):
        self.start, self.end, self.body = start, end, body

    def lines(self):
        return [f"for _ in {self.start.src()}:{self.end.src()}:"] + body_lines(self.body) + ["end"]

    def run(self, s):
        i = isint(one(self.start, s))
        s.used_for_ = True
        if s.leak:
            s.stack.append(i)
        while True:
            s.tick()
            if i == isint(one(self.end, s)):
                return
            s.run_body(self.body)
            i = avm.u64(i + 1)
            if s.leak:
                s.stack[-1] = i


class Break(S):
    def lines(self):
        return ["break"]

    def run(self, s):
        raise BreakEx()


class ExitEx(Exception):
    pass


class Exit(S):
    def __init__(self, e):
        self.e = e

    def lines(self):
        return [f"exit({self.e.src()})"]

    def run(self, s):
        s.exit_value = isint(one(self.e, s))
        raise ExitEx()


class Assert(S):
    def __init__(self, e, msg=None):
        self.e, self.msg = e, msg

    def lines(self):
        return [f'assert({self.e.src()}' + (f', "{self.msg}")' if self.msg else ")")]

    def run(self, s):
        need(isint(one(self.e, s)))


class ExprStmt(S):
    def __init__(self, e):
        self.e = e

    def lines(self):
        return [self.e.src()]

    def run(self, s):
        self.e.ev(s)


class Push(S):
    def __init__(self, args):
        self.args = args

    def lines(self):
        return [f"push({', '.join(a.src() for a in self.args)})"]

    def run(self, s):
        for a in self.args:
            s.stack.append(one(a, s))


class JumpEx(Exception):
    def __init__(self, block):
        self.block = block


class Jump(S):
    def __init__(self, block):
        self.block = block

    def lines(self):
        return [f"jump {self.block.name}"]

    def run(self, s):
        raise JumpEx(self.block)


class Switch(S):
    def __init__(self, e, options, else_=None, else_at=None):
        self.e, self.options, self.else_, self.else_at = e, options, else_, else_at

    def lines(self):
        out = [f"switch {self.e.src()}:"] + [f"    {v.src()}: {b.name}" for v, b in self.options]
        if self.else_:
            out.insert(len(out) if self.else_at is None else 1 + self.else_at, f"    else: {self.else_.name}")
        return out + ["end"]

    def run(self, s):
        for v, b in self.options:
            a = one(self.e, s)  # side-effect free by construction
            if s.w.op("==", (), [a, one(v, s)])[0]:
                raise JumpEx(b)
        if self.else_:
            raise JumpEx(self.else_)
        raise Fail("switch")


class ReturnEx(Exception):
    def __init__(self, vals):
        self.vals = vals


class Return(S):
    def __init__(self, vals):
        self.vals = vals

    def lines(self):
        return ["return" + (" " + ", ".join(v.src() for v in self.vals) if self.vals else "")]

    def run(self, s):
        # the guide does not fix the order among the values of one return;
        # the compiler pushes the last first
        vs = [one(v, s) for v in self.vals[::-1]][::-1]
        raise ReturnEx(vs)


class InnerTxn(S):
    """fields: [(name, index or None, expression)]"""

    def __init__(self, fields):
        self.fields = fields

    def lines(self):
        return (
            ["inner_txn:"]
            + [f"    {f}{'' if i is None else f'[{i}]'}: {e.src()}" for f, i, e in self.fields]
            + ["end"]
        )

    def run(self, s):
        vals = []
        if s.filling:
            raise Unspecified("an inner transaction made while evaluating the fields of another")
        if s.group is None:
            need(s.w.cur is None)
            s.w.cur = [vals]
        else:
            need(len(s.group) < 16)
            s.group.append(vals)
            s.w.cur = s.group
        s.filling = True
        for f, i, e in self.fields:
            vals.append((f, one(e, s)))
        s.filling = False
        if s.group is None:
            s.w.itxn_submit()


class InnerGroup(S):
    def __init__(self, body):
        self.body = body

    def lines(self):
        return ["inner_group:"] + body_lines(self.body) + ["end"]

    def run(self, s):
        if s.filling:
            raise Unspecified("an inner group made while evaluating the fields of a transaction")
        need(s.group is None)
        s.group = []
        s.run_body(self.body)
        need(s.group)
        s.w.itxn_submit()
        s.group = None


class Teal(S):
    """inline TEAL, with its meaning given as a Python function of the state"""

    def __init__(self, teal, f):
        self.teal, self.f = teal, f

    def lines(self):
        return ["teal:"] + ["    " + t for t in self.teal] + ["end"]

    def run(self, s):
        self.f(s)


class Comment(S):
    def __init__(self, text):
        self.text = text

    def lines(self):
        return ["#" + self.text]

    def run(self, s):
        pass


class Blank(S):
    def lines(self):
        return [""]

    def run(self, s):
        pass


class Block(S):
    def __init__(self, name):
        self.name, self.body = name, []

    def lines(self):
        return [f"block {self.name}:"] + body_lines(self.body) + ["end"]

    def run(self, s):
        pass


class Func(S):
    """deco: None or the text of decorator parameters of @public(...)"""

    def __init__(self, name, params, rets):
        self.name, self.params, self.rets, self.body = name, params, rets, []
        self.deco = None
        self.decls = []

    def lines(self):
        out = [f"@public({self.deco})"] if self.deco is not None else []
        ps = ", ".join(f"{d.name}: {tname(d.t)}" for d in self.params)
        rs = ", ".join(tname(t) for t in self.rets)
        return out + [f"func {self.name}({ps}){' ' + rs if rs else ''}:"] + body_lines(self.body) + ["end"]

    def run(self, s):
        pass


OC = {"NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4, "DeleteApplication": 5}


class Router(S):
    def __init__(self, funcs):
        self.funcs = funcs

    def lines(self):
        return ["router:"] + [f"    {f.name}" for f in self.funcs] + ["end"]

    def run(self, s):
        w = s.w
        own = w.ctx.get("group_index", 2)
        arg0 = w.txn(own, "ApplicationArgs", 0)
        f = next((f for f in self.funcs if f.name.encode() == arg0), None)
        need(f is not None)
        oc = "NoOp"
        if "=" in f.deco:
            oc = f.deco.split("=")[1]
        if oc == "CreateApplication":
            need(w.txn(own, "ApplicationID") == 0)
        else:
            need(w.txn(own, "OnCompletion") == OC[oc])
        vals = []
        for i, d in enumerate(f.params):
            v = w.txn(own, "ApplicationArgs", i + 1)
            if is_int_type(d.t):
                need(len(v) <= 8)
                v = avm.big(v)
            need(fits(v, d.t))
            vals.append(v)
        rets = s.call(f, vals)
        if rets:
            if any(isinstance(v, int) != is_int_type(t) for v, t in zip(rets, f.rets)):
                raise Unspecified("a value of unknown type was returned as the other kind")
            out = b"".join(v.to_bytes(8, "big") if isinstance(v, int) else v for v in rets)
            need(len(out) + 4 <= 4096)
            w.op("log", (), [bytes.fromhex("151f7c75") + out])
        s.exit_value = 1
        raise ExitEx()


class Prog:
    def __init__(self, version, structs, consts, body):
        self.version, self.structs, self.consts, self.body = version, structs, consts, body

    def lines(self):
        out = [f"#pragma version {self.version}"] if self.version else []
        for st in self.structs:
            out.append(f"struct {st.name}:")
            out += [f"    {f}: {tname(t)}" for f, t in st.fields] + ["end"]
        for c in self.consts:
            out += c.lines()
        for st in self.body:
            out += st.lines()
        return out

    def source(self):
        return "\n".join(self.lines()) + "\n"


# ------------------------------------------------------------------ reference evaluator


class State:
    def __init__(self, world, leak=False, budget=4000):
        self.w, self.cells, self.stack = world, {}, []
        self.group = None
        self.filling = False
        self.exit_value = None
        self.leak, self.used_for_ = leak, False
        self.ticks, self.budget = 0, budget
        self.depth = 0

    def tick(self):
        self.ticks += 1
        if self.ticks > self.budget:
            raise avm.Budget()

    def run_body(self, body):
        for st in body:
            self.tick()
            st.run(self)

    def call(self, f, vals):
        self.depth += 1
        need(self.depth < 30)
        for d, v in zip(f.params, vals):
            self.cells[d] = v
        try:
            self.run_body(f.body)
        except ReturnEx as r:
            self.depth -= 1
            return r.vals
        raise AssertionError("function fell off its end")


def evaluate(prog, ctx, leak=False):
    """Reference outcome of a program as an avm.Result"""
    w = avm.World(ctx)
    s = State(w, leak)
    body = prog.body
    try:
        while True:
            try:
                s.run_body(body)
                # fell off the end: blocks and functions never start by themselves
                raise Unspecified("end of program without exit")
            except JumpEx as j:
                body = j.block.body
    except ExitEx:
        v = s.exit_value
        # an exit inside a call leaves the operands of unfinished expressions behind
        return avm.Result("approve" if v else "reject", w, s.stack if not s.depth else None, v), s
    except Fail as e:
        return avm.Result("fail", w, s.stack, None, reason=str(e)), s
