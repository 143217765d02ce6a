"""C07: casts, conversions, padding, concatenation, type assertions."""
import z3

from . import sem
from .domain import *  # noqa: F401,F403
from .domain import Event
from .interp import fresh
from .oc03 import must_
from .oc06 import KNOWN, NAMED, field_type_facts, named
from .sem import Loc, Refuted, Seg, V, is_B, is_I, pow256
from .values import *  # noqa: F401,F403

STR, I = z3.StringSort(), z3.IntSort()
E = expr("e")
TT = NAMED(z3.String("tname"))
ET = type_term("e")
SZ = z3.Int("size")
BITLEN = z3.Function("bitlen", I, I)
ARITH = [pow256(z3.IntVal(0)) == 1, pow256(z3.IntVal(8)) == 2 ** 64]


def fits_width(m, n, s):
    """n < 256^s, with the definition of bitlen for this number: bitlen(n) <= 8 s exactly if n < 256^s"""
    m.ctx.assume(z3.And(pow256(s) >= 1, z3.Implies(z3.And(n >= 0, s >= 0), (BITLEN(n) <= 8 * s) == (n < pow256(s)))))
    return n < pow256(s)


def tname(name="tname"):
    return Opaque("type name", attrs={"name": text(name), "type": T.AVMType.none})


def literal(name="size"):
    return mk(en.Integer, value=SInt(z3.Int(name)), type=T.IntType(), parent=parent())


def quiet(ip, *a, **k):
    return None


def bits(ip, x):
    b = fresh("bits")
    ip.ctx.assume(b >= 0)
    return SInt(b)


KNOW = {"get_type_instance": named, "warning": quiet, "int.bit_length": bits}


def well_typed(m, v, t, mine=True):
    """a value of static type t: what the type promises (the induction hypothesis of typing)"""
    k, s = KIND(t), SIZE(t)
    m.ctx.assume(z3.Implies(isa(k, T.IntType), z3.And(is_I(v), V.n(v) >= 0, V.n(v) < pow256(s))))
    m.ctx.assume(z3.Implies(isa(k, T.BytesType), z3.And(is_B(v), V.blen(v) >= 0, V.bnum(v) >= 0, V.bnum(v) < pow256(V.blen(v)), z3.Or(s == 0, V.blen(v) == s))))
    m.ctx.assume(z3.Implies(is_I(v), z3.And(V.n(v) >= 0, V.n(v) < 2 ** 64)))


def arg(m):
    v = m.eval1(E())
    well_typed(m, v, ET)
    return v


def call(cls, *args):
    return lambda ip: ip.call(cls, [list(args), parent()], {})


def type_is(t):
    def post(r):
        got = r.ip.resolve(r.value.type)
        if not isinstance(got, SymType) or not got.term.eq(t):
            raise Refuted(f"the type of the result is {got!r}")
    return post


def size_is(n):
    def post(r):
        got = r.ip.resolve(r.value.type)
        if type(got) is not T.BytesType:
            raise Refuted(f"the type of the result is {got!r}")
        must_(r, zi(r.ip.resolve(got.size)) == n, "the size of the result's type")
    return post


def int_(t):
    return isa(KIND(t), T.IntType)


def byts(t):
    return isa(KIND(t), T.BytesType)


TYPED = ARITH + [SymType(ET).facts(), field_type_facts(TT)]


def cast(o):
    """succeeds exactly if the value fits, and then yields it; integers only to integers, bytes to bytes"""
    def ref(m, r):
        v = arg(m)
        if m.ctx.branch(int_(TT)):
            m.require(z3.And(is_I(v), fits_width(m, V.n(v), SIZE(TT))))
        else:
            m.require(z3.And(is_B(v), z3.Or(SIZE(TT) == 0, V.blen(v) == SIZE(TT))))
        return m.end(v)

    def post(r):
        type_is(TT)(r)
        must_(r, z3.And(shape("e") == 1, z3.Or(z3.And(int_(TT), int_(ET)), z3.And(byts(TT), byts(ET)))), "a cast between integers and bytes is accepted")

    return means(o, call(stdlib.Cast, E(), tname()), ref, contracts=KNOW, base=TYPED, post=post)


def convert(o):
    """integers become exactly that many big-endian bytes (8 without a size), bytes the integer they encode; fails if it does not fit"""
    def ref(m, r):
        v = arg(m)
        s = SIZE(TT)
        if m.ctx.branch(int_(ET)):
            m.require(is_I(v))
            if m.ctx.branch(s == 0):
                return m.end(V.B(8, V.n(v)))
            m.require(z3.And(fits_width(m, V.n(v), s), z3.Or(s <= 8, s <= 4096)))
            return m.end(V.B(s, V.n(v)))
        m.require(z3.And(is_B(v), V.blen(v) <= 8, fits_width(m, V.bnum(v), s)))
        return m.end(V.I(V.bnum(v)))

    def post(r):
        type_is(TT)(r)
        must_(r, z3.And(shape("e") == 1, z3.Or(z3.And(int_(TT), byts(ET)), z3.And(byts(TT), int_(ET)))), "a conversion between types of the same kind is accepted")

    return means(o, call(stdlib.Convert, E(), tname()), ref, contracts=KNOW, base=TYPED, post=post)


def accepted(cls, cond, args):
    """accepted if and only if the types are those"""
    from .oc05 import iff

    def f(o):
        return iff(o, call(cls, *args), cond, KNOW, base=TYPED)
    return f


def to_bytes(o):
    """values that fit become exactly that many big-endian bytes"""
    def ref(m, r):
        v = arg(m)
        if m.ctx.branch(int_(ET)):
            m.require(is_I(v))
            if m.ctx.branch(SZ == 0):
                return m.end(V.B(8, V.n(v)))
            m.ctx.assume(V.n(v) < pow256(SZ))
            m.require(z3.Or(SZ <= 8, SZ <= 4096))
            return m.end(V.B(SZ, V.n(v)))
        m.require(z3.And(is_B(v), SZ <= 4096))
        m.ctx.assume(V.blen(v) <= SZ)
        return m.end(V.B(SZ, V.bnum(v)))

    return means(o, call(stdlib.ToBytes, E(), literal()), ref, contracts=KNOW, base=TYPED + [SZ >= 0], post=size_is(SZ))


def from_bytes(o):
    def ref(m, r):
        v = arg(m)
        if m.ctx.branch(int_(TT)):
            m.require(z3.And(is_B(v), V.blen(v) <= 8))
            return m.end(V.I(V.bnum(v)))
        return m.end(v)

    def post(r):
        got = r.ip.resolve(r.value.type)
        if isinstance(got, SymType):
            type_is(TT)(r)
            must_(r, z3.Not(int_(TT)), "an integer of unchecked width")
        elif type(got) is not T.IntType or got.size != 8:
            raise Refuted(f"the type of the result is {got!r}")
        else:
            must_(r, int_(TT), "the type of the result")
        must_(r, z3.And(shape("e") == 1, byts(ET)), "something else than bytes is decoded")

    return means(o, call(stdlib.FromBytes, E(), tname()), ref, contracts=KNOW, base=TYPED, post=post)


def unchecked(o):
    """no code but the expression's"""
    def ref(m, r):
        return m.end(m.eval1(E()))

    return means(o, call(stdlib.UncheckedCast, E(), tname()), ref, contracts=KNOW, base=TYPED, post=type_is(TT))


def pad(cls, left):
    def f(o):
        def ref(m, r):
            v = arg(m)
            m.require(z3.And(is_B(v), V.blen(v) <= SZ, SZ - V.blen(v) <= 4096, SZ <= 4096))
            return m.end(V.B(SZ, V.bnum(v) if left else V.bnum(v) * pow256(SZ - V.blen(v))))

        def post(r):
            size_is(SZ)(r)
            must_(r, z3.And(shape("e") == 1, byts(ET)), "something else than bytes is padded")

        return means(o, call(cls, E(), literal()), ref, contracts=KNOW, base=TYPED + [SZ >= 0], post=post)
    return f


def sizeof(o):
    """the size of the type; no code of its argument"""
    def ref(m, r):
        return m.end(V.I(SIZE(TT)))

    def post(r):
        t = r.ip.resolve(r.value.type)
        if not isinstance(t, T.IntType) or t.size != 8:
            raise Refuted("the type of SizeOf")

    return means(o, call(stdlib.SizeOf, tname()), ref, contracts=KNOW, base=TYPED, post=post)


def bzero(o):
    """that many zero bytes; the length is in the type if it is known"""
    c = 0
    for lit in (True, False):
        def ref(m, r):
            if lit:
                n = SZ
            else:
                v = m.eval1(E())
                m.require(is_I(v))
                n = V.n(v)
            m.require(n <= 4096)
            return m.end(V.B(n, 0))

        def post(r):
            got = r.ip.resolve(r.value.type)
            if type(got) is not T.BytesType:
                raise Refuted(f"the type is {got!r}")
            must_(r, zi(r.ip.resolve(got.size)) == (SZ if lit else 0), "the length in the type")

        c += means(o, call(stdlib.Bzero, literal() if lit else NOVALUE()), ref, contracts=KNOW, base=TYPED + [SZ >= 0], post=post)
    return c


NOVALUE = expr("e", value=lambda: None)


def error(o):
    return means(o, call(stdlib.Error), lambda m, r: m.fail())


# -- several values ---------------------------------------------------------------------------
K = z3.Int("n_types")
TNAME = z3.Function("tname of", I, STR)


def tk(i):
    return NAMED(TNAME(i))


def type_args():
    return SList("type names", K, lambda i: Opaque("type name", attrs={"name": Rope([Atom(TNAME(i), safe=True)]), "type": T.AVMType.none}))


def many_args(e):
    return SeqV([("one", e()), ("many", type_args())])


def satisfies(m, v, t):
    return z3.And(z3.Implies(z3.And(byts(t), SIZE(t) > 0), z3.And(is_B(v), V.blen(v) == SIZE(t))), z3.Implies(isa(KIND(t), T.UIntType), z3.And(is_I(v), fits_width(m, V.n(v), SIZE(t)))))


def kinds_agree(m, v, t):
    """nothing is claimed for values of the other AVM type"""
    m.ctx.assume(z3.Implies(int_(t), is_I(v)))
    m.ctx.assume(z3.Implies(byts(t), is_B(v)))
    m.ctx.assume(z3.Implies(is_I(v), z3.And(V.n(v) >= 0, V.n(v) < 2 ** 64)))


def ensure_one(o):
    def ref(m, r):
        v = arg(m)
        kinds_agree(m, v, TT)
        m.require(satisfies(m, v, TT))
        return m.end(v)

    return means(o, call(stdlib.EnsureType, E(), tname()), ref, contracts=KNOW, base=TYPED, post=type_is(TT))


def ensure_many(o):
    """each value against the type of its position, for any number of values; all are left as they were"""
    e = expr("e", shapes=("list",))
    j = z3.Int("j!t")
    facts = [K >= 2]

    def values(m):
        v = m.eval(e())
        return v

    def start(m, r):
        v = values(m)
        return m.goto("check", i=z3.IntVal(0), a=v)

    def check(m, p):
        x = z3.Select(p.a, p.i)
        m.ctx.assume(z3.And(field_type_facts(tk(p.i)), SymType(type_terms("e", p.i)).facts()))
        well_typed(m, x, type_terms("e", p.i))
        kinds_agree(m, x, tk(p.i))
        m.require(satisfies(m, x, tk(p.i)))
        if m.ctx.branch(p.i + 1 < K):
            return m.goto("check", i=p.i + 1, a=p.a)
        m.stack = []
        return m.end(Seg(p.a, 0, K, desc=True))

    loc = Loc(check, {"i": I, "a": sem.ARR}, lambda p: z3.And(p.i >= 0, p.i < K), stack=lambda p: [Seg(p.a, 0, K, desc=True)], ks=lambda p: [p.i])

    def post(r):
        must_(r, K == nvals("e"), "another number of types than values is accepted")
        got = r.ip.resolve(r.value.type)
        if not isinstance(got, (SList, SeqV)):
            raise Refuted(f"the types are {got!r}")
        segs = r.ip.segs(got)
        if len(segs) != 1 or not segs[0][1].at(j).term.eq(tk(j)):
            raise Refuted("the types of the result")
        must_(r, segs[0][1].n == K, "the number of types of the result")

    return means(o, lambda ip: ip.call(stdlib.EnsureType, [many_args(e), parent()], {}), start, {"check": loc}, contracts=KNOW, base=ARITH + facts, post=post)


def unchecked_many(o):
    e = expr("e", shapes=("list",))
    j = z3.Int("j!t")

    def ref(m, r):
        return m.end(Seg(m.eval(e()), 0, K, desc=True))

    def post(r):
        must_(r, K == nvals("e"), "another number of types than values is accepted")
        segs = r.ip.segs(r.ip.resolve(r.value.type))
        if len(segs) != 1 or not segs[0][1].at(j).term.eq(tk(j)):
            raise Refuted("the types of the result")

    return means(o, lambda ip: ip.call(stdlib.UncheckedCast, [many_args(e), parent()], {}), ref, contracts=KNOW, base=[K >= 2], post=post)


ARG = expr("a")
N = z3.Int("n_args")


def concat(o):
    """the arguments, left to right, one behind the other"""
    def start(m, r):
        v = m.eval_seq(ARG(z3.IntVal(0)), N)
        if not m.ctx.branch(N > 1):
            return m.end(z3.Select(v, 0))
        return m.goto("join", i=z3.IntVal(0), a=v, acc=z3.Select(v, N - 1))

    def join(m, p):
        acc = m.op("concat", [], [z3.Select(p.a, N - 2 - p.i), p.acc])[0]
        if m.ctx.branch(p.i + 1 < N - 1):
            return m.goto("join", i=p.i + 1, a=p.a, acc=acc)
        m.stack = []
        return m.end(acc)

    loc = Loc(join, {"i": I, "a": sem.ARR, "acc": V}, lambda p: z3.And(p.i >= 0, p.i < N - 1), stack=lambda p: [Seg(p.a, 0, N - 1 - p.i), p.acc], ks=lambda p: [p.i])

    def post(r):
        j = z3.Int("j!t")
        must_(r, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), shape("a", j) == 1)), "an argument of no or several values is accepted")

    return means(o, lambda ip: ip.call(stdlib.Concat, [many(ARG, N), parent()], {}), start, {"join": loc}, base=[N >= 2], post=post)


def lemma_concat(o):
    """concatenation is associative: joining from the right is joining from the left"""
    a, b, c = (V.B(*z3.Ints(f"l{i} n{i}")) for i in range(3))
    m = type("M", (), {"require": lambda self, c: None})()
    lp = sem.OPSEM
    x = lp.o_concat(m, [], lp.o_concat(m, [], a, b)[0], c)[0]
    y = lp.o_concat(m, [], a, lp.o_concat(m, [], b, c)[0])[0]
    lb, lc = V.blen(b), V.blen(c)
    ax = [pow256(lb + lc) == pow256(lb) * pow256(lc)]
    r, mo = solve(ax + [z3.Not(x == y)], 10000)
    if r == z3.sat:
        raise Refuted(f"{mo}")
    if r != z3.unsat:
        raise Unsupported("not decided")
    return 1


def address(o):
    v = Rope([Atom(z3.String("address"), what="addr", safe=True)])
    a = mk(en.Bytes, value=v, type=T.BytesType(), parent=parent())
    return means(o, call(stdlib.Address, a), lambda m, r: m.end(sem.literal("addr", [v])))


class Hash:
    pyver_symbolic = True

    def __init__(self, t, stage):
        self.t, self.stage = t, stage

    def sym_getattr(self, ip, name):
        if name == "hexdigest" and self.stage == "hash":
            return Hash(self.t, "hexdigest")
        raise Unsupported(f"{name} of a hash")

    def sym_call(self, ip, args, kwargs):
        if self.stage != "hexdigest" or args or kwargs:
            raise Unsupported("hash")
        return Hash(self.t, "hex")

    def sym_getitem(self, ip, i):
        if self.stage != "hex" or not isinstance(i, slice) or i.start not in (None, 0) or i.step is not None or i.stop != 8:
            raise Refuted(f"not the first 4 bytes of the hash: {i}")
        return prefix_of(self.t)


def prefix_of(t):
    return Rope([Atom(z3.Function("first 4 bytes of SHA512/256", STR, STR)(zs(t)), safe=True)])


class Encoded:
    pyver_symbolic = True

    def __init__(self, t):
        self.t = t


def sha(ip, data=None, truncate=None, **k):
    if not isinstance(data, Encoded) or truncate != "256":
        raise Refuted(f"not the SHA512/256 of the signature: {data!r} {truncate!r}")
    return Hash(data.t, "hash")


SIG = Rope([Atom(z3.String("signature"), what="strbody")])


def event(o):
    """the first 4 bytes of SHA512/256 of the signature, then the arguments"""
    def start(m, r):
        p = sem.literal("pushbytes", [Rope(["0x", prefix_of(SIG)])])
        if not m.ctx.branch(N > 0):
            return m.end(p)
        v = m.eval_seq(ARG(z3.IntVal(0)), N)
        return m.goto("join", i=z3.IntVal(0), a=v, p=p, acc=z3.Select(v, N - 1))

    def join(m, q):
        last = q.i + 1 == N
        if m.ctx.branch(last):
            m.stack = []
            return m.end(m.op("concat", [], [q.p, q.acc])[0])
        acc = m.op("concat", [], [z3.Select(q.a, N - 2 - q.i), q.acc])[0]
        return m.goto("join", i=q.i + 1, a=q.a, p=q.p, acc=acc)

    loc = Loc(join, {"i": I, "a": sem.ARR, "p": V, "acc": V}, lambda p: z3.And(p.i >= 0, p.i < N), stack=lambda p: [p.p, Seg(p.a, 0, N - 1 - p.i), p.acc], ks=lambda p: [p.i])
    lit = mk(en.Bytes, value=SIG, type=T.BytesType(), parent=parent())

    def build(ip):
        return ip.call(stdlib.ARC28Event, [SeqV([("one", lit), ("many", many(ARG, N))]), parent()], {})

    return means(o, build, start, lambda r: {} if r.ctx.valid(N <= 0) else {"join": loc}, contracts={"Cryptodome.Hash.SHA512.new": sha, "new": sha, "str.encode": lambda ip, t, *a: Encoded(t)}, base=[N >= 0])


OK1 = shape("e") == 1
OBLIGATIONS = [("Cast", cast), ("Convert", convert), ("ToBytes", to_bytes), ("FromBytes", from_bytes), ("UncheckedCast", unchecked), ("Rpad", pad(stdlib.Rpad, False)),
               ("Lpad", pad(stdlib.Lpad, True)), ("SizeOf", sizeof), ("bzero", bzero), ("Error", error),
               ("EnsureType of one value", ensure_one), ("EnsureType of several values", ensure_many, 240), ("UncheckedCast of several values", unchecked_many),
               ("Concat", concat), ("lemma: concatenation is associative", lemma_concat), ("Address", address), ("ARC28Event", event)]
OBLIGATIONS += [(f"{c.__name__}: what is accepted", accepted(c, cond, args)) for c, cond, args in (
    (stdlib.Cast, z3.And(KNOWN(z3.String("tname")), OK1, z3.Or(z3.And(int_(TT), int_(ET)), z3.And(byts(TT), byts(ET)))), (E(), tname())),
    (stdlib.Convert, z3.And(KNOWN(z3.String("tname")), OK1, z3.Or(z3.And(int_(TT), byts(ET)), z3.And(byts(TT), int_(ET)))), (E(), tname())),
    (stdlib.ToBytes, z3.And(OK1, z3.Or(int_(ET), isa(KIND(ET), T.BigIntType))), (E(), literal())),
    (stdlib.FromBytes, z3.And(KNOWN(z3.String("tname")), OK1, byts(ET)), (E(), tname())),
    (stdlib.EnsureType, z3.And(KNOWN(z3.String("tname")), OK1), (E(), tname())),
    (stdlib.UncheckedCast, z3.And(KNOWN(z3.String("tname")), OK1), (E(), tname())),
    (stdlib.Rpad, z3.And(OK1, byts(ET)), (E(), literal())), (stdlib.Lpad, z3.And(OK1, byts(ET)), (E(), literal())))]
ASSUMPTIONS = ["a value has the static type of its expression (integers below 256^width, byte strings of the promised length): the induction hypothesis of typing (C05)",
               "bitlen(n) <= 8 s exactly if n < 256^s; 256^(a+b) = 256^a 256^b; SHA512/256 is an uninterpreted function",
               "integers are encoded as in the AVM documentation: itob is 8 big-endian bytes, b| of a zero string extends on the left"]
