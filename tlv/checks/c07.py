"""C07 Casts, conversions and padding do what the guide says at run time"""
import random

from .. import forms
from ..harness import Violation, key
from ..lang import *  # noqa
from . import common
from .common import prog, run_prog, compile_

ARG = Field("Txn", "ApplicationArgs", ai=Int(0))
ARG1 = Field("Txn", "ApplicationArgs", ai=Int(1))
SMALL = Struct("Sm", [("a", "int"), ("b", "uint8")])
BIG = Struct("Lg", [("a", "bytes[300]"), ("b", "addr")])
ITEM8 = Struct("Ei", [("a", "int")])
TYPES = ["int", "uint64", "uint8", "bytes", "bigint", "addr"] + [f"bytes[{n}]" for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 31, 32, 33, 64, 255, 256, 300, 1000)] + [SMALL, BIG, ITEM8]
LENS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 254, 255, 256, 257, 299, 300, 301, 331, 332, 333, 999, 1000, 1001]
INTS = sorted({0, 1, 2, 127, 128, 2**64 - 1, 2**63} | {2 ** (8 * k) + d for k in range(1, 8) for d in (-1, 0, 1)})


def out(e):
    return [ExprStmt(Op("log", [], [Op("itob", [], [e]) if e.ty[0] == "int" else e]))]


def ints():
    return [dict(salt=n, nolog=True, txn={"ApplicationArgs": [n.to_bytes(8, "big"), b"arg1"]}) for n in INTS]


def byts(lens=LENS):
    r = random.Random(5)
    vals = []
    for n in lens:
        vals += [bytes(n), b"\xff" * n, r.randbytes(n), (bytes(n - 1) + b"\x01") if n else b"", (b"\x01" + bytes(n - 1)) if n else b""]
    return [dict(salt=k, nolog=True, txn={"ApplicationArgs": [v, b"arg1"]}) for k, v in enumerate(dict.fromkeys(vals))]


IV = Op("btoi", [], [ARG])


def tgt(t):
    return is_int_type(t)


def cast(t):
    """Cast: every target, every kind and size of source"""
    n = None
    srcs = []
    if tgt(t):
        x = D("x", "int")
        u = D("u", "uint8")
        srcs = [([], IV, ints()), ([Decl(x, IV)], Var(x), ints()), ([Decl(u, Std("UncheckedCast", [IV], ["uint8"]))], Var(u), ints()), ([], Grp(Bin(IV, "|", Int(0))), ints())]
    else:
        x = D("x", "bytes")
        srcs = [([], ARG, byts()), ([Decl(x, ARG)], Var(x), byts()), ([], Op("concat", [], [ARG, Bytes("")]), byts())]
        n = tsize(t)
        for k in sorted({1, n - 1, n, n + 1, 2 * n} - {0, -1}):
            if k <= 400:
                srcs.append(([], Bytes(("abcdefghij" * 40)[:k]), [dict(salt=1, nolog=True)]))
            y = D(f"y{k}", f"bytes[{k}]")
            srcs.append(([Decl(y, Std("UncheckedCast", [ARG], [f"bytes[{k}]"]))], Var(y), byts([n, k, 0, n + 1])))
        if t == "addr":
            srcs.append(([], Std("UncheckedCast", [ARG], ["bytes[8]"]), byts()))
    tot = {}
    for pre, e, cs in srcs:
        r = one_(pre, Std("Cast", [e], [t]), cs, f"Cast to {tname(t)}", t)
        merge(tot, r)
    return tot


def merge(a, b):
    for k, v in b.items():
        if k == "key":
            a.setdefault("key", set()).add(v)
        elif k != "sample":
            a[k] = a.get(k, 0) + v
        else:
            a[k] = v


def one_(pre, e, cs, how, t=None, structs=(SMALL, BIG, ITEM8)):
    """the value, and that it may be kept in a variable of the target type and nothing else is left on the stack"""
    body = list(pre) + out(e)
    if t is not None:
        y = D("y", t)
        body += [Decl(y, e)] + out(Var(y))
    return run_prog(prog(body + [Exit(Int(1))], structs), cs, how)


def convert(t):
    tot = {}
    x = D("x", "int")
    if tgt(t):
        for pre, e in [([], ARG), ([Decl(D("b", "bytes"), ARG)], None), ([], Op("concat", [], [ARG, Bytes("")]))]:
            if e is None:
                e = Var(pre[0].d)
            merge(tot, one_(pre, Std("Convert", [e], [t]), byts(LENS[:14]), f"Convert bytes to {t}", t))
    else:
        for pre, e in [([], IV), ([Decl(x, IV)], Var(x)), ([], Grp(Bin(IV, "+", Int(0))))]:
            merge(tot, one_(pre, Std("Convert", [e], [t]), ints(), f"Convert int to {tname(t)}", t))
    return tot


def pad(case):
    name, n = case
    tot = {}
    merge(tot, one_([], Std(name, [ARG], n=n), byts(), f"{name} {n}", f"bytes[{n}]" if n else None))
    x = D("x", "bytes")
    merge(tot, one_([Decl(x, ARG)], Std(name, [Op("concat", [], [Var(x), Var(x)])], n=n), byts(LENS[:20]), f"{name} {n} of a concatenation", None))
    for k in sorted({1, 2, n - 1, n, n + 1, 7, 8, 9, 40} - {0}):
        if k <= 400:
            lit = Bytes(("abcdefghij" * 40)[:k])
            y = D(f"y{k}", f"bytes[{k}]")
            merge(tot, one_([], Std(name, [lit], n=n), [dict(salt=1, nolog=True)], f"{name} {n} of a literal of {k} bytes"))
            merge(tot, one_([Decl(y, lit)], Std(name, [Var(y)], n=n), [dict(salt=1, nolog=True)], f"{name} {n} of a variable of {k} bytes"))
    # as operands: the stack around it is kept
    merge(tot, one_([], Op("concat", [], [ARG1, Std(name, [ARG], n=n)]), byts(LENS[:20]), f"{name} {n} as second operand"))
    return tot


def tobytes(n):
    tot = {}
    t = f"bytes[{n}]"
    merge(tot, one_([], Std("ToBytes", [IV], n=n), ints(), f"ToBytes {n}", t))
    x, b, u = D("x", "int"), D("b", "bigint"), D("u", "uint8")
    merge(tot, one_([Decl(x, IV)], Std("ToBytes", [Var(x)], n=n), ints(), f"ToBytes {n}", t))
    merge(tot, one_([Decl(u, Std("Cast", [IV], ["uint8"]))], Std("ToBytes", [Var(u)], n=n), ints(), f"ToBytes {n} of uint8", t))
    merge(tot, one_([Decl(b, ARG)], Std("ToBytes", [Var(b)], n=n), [c for c in byts([k for k in LENS if k <= 64])], f"ToBytes {n} of bigint", t))
    merge(tot, one_([], Std("FromBytes", [Std("ToBytes", [IV], n=max(1, min(n, 8)))], ["int"]), ints(), f"FromBytes of ToBytes {n}", "int"))
    return tot


def frombytes(t):
    tot = {}
    if isinstance(t, Struct) or t.startswith("bytes[") or t == "addr":
        return tot
    ty = "int" if tgt(t) else t
    merge(tot, one_([], Std("FromBytes", [ARG], [t]), byts(LENS[:14]), f"FromBytes {t}", ty))
    return tot


def ensure(seed):
    """EnsureType and UncheckedCast with one and several values"""
    r = random.Random(seed)
    m = r.choice([1, 1, 2, 2, 3, 4])
    arg = [Field("Txn", "ApplicationArgs", ai=Int(i)) for i in range(m)]
    kinds = [r.choice(["int", "bytes"]) for _ in range(m)]
    decl = [r.choice(["int", "uint8"]) if k == "int" else r.choice(["bytes", "bytes", "bytes[4]"]) for k in kinds]
    f = Func("get", [], decl)
    f.body = [Return([Std("UncheckedCast", [Op("btoi", [], [a]) if k == "int" else a], [d]) for a, k, d in zip(arg, kinds, decl)])]
    types = [r.choice(["int", "uint8", "uint64"]) if k == "int" else r.choice(["bytes", "bytes[1]", "bytes[4]", "bytes[8]", "addr", "bigint", SMALL]) for k in kinds]
    name = r.choice(["EnsureType", "EnsureType", "UncheckedCast"])
    call = Call(f, [])
    if m == 1 and r.random() < 0.5:
        decl = [kinds[0]]
        call = Op("btoi", [], [arg[0]]) if kinds[0] == "int" else arg[0]
    ds = [D(f"v{i}", t) for i, t in enumerate(types)]
    body = [Decl(d) for d in ds]
    names = [None if r.random() < 0.15 else d for d in ds]
    if m == 1:
        names = ds
    body += [Assign(names, Std(name, [call], types))]
    for d, n in zip(ds, names):
        if n:
            body += out(Var(d))
    body += [Exit(Int(1)), f]
    cs = []
    for k in range(10):
        a = []
        for kind, t, d in zip(kinds, types, decl):
            if d == "uint8":
                a.append(r.randrange(256).to_bytes(8, "big"))
            elif d == "bytes[4]":
                a.append(r.randbytes(4))
            elif kind == "int":
                v = r.choice([0, 1, 255, 255, 256, 2**64 - 1] if r.random() < 0.4 else [3, 200, 255])
                a.append(v.to_bytes(8, "big"))
            else:
                n = tsize(t)
                a.append(r.randbytes(n if r.random() < 0.75 else r.choice([0, 1, n + 1, max(0, n - 1), 4, 8])))
        cs.append(dict(salt=k, txn={"ApplicationArgs": a}))
    return run_prog(prog(body, [SMALL]), cs, f"ensure {seed}")


def misc(case):
    kind, n = case
    if kind == "sizeof":
        t = TYPES[n]
        return one_([], SizeOf(t), [dict(salt=1)], f"SizeOf {tname(t)}", "int")
    if kind == "bzero":
        return one_([], Bzero(Int(n)), [dict(salt=1, nolog=True)], f"bzero {n}", f"bytes[{n}]" if n else "bytes")
    if kind == "bzerov":
        return one_([], Bzero(IV), [dict(salt=1, nolog=True, txn={"ApplicationArgs": [n.to_bytes(8, "big")]})], "bzero", "bytes")
    if kind == "concat":
        r = random.Random(n)
        k = r.randrange(1, 9)
        args = [Field("Txn", "ApplicationArgs", ai=Int(r.randrange(3))) if r.random() < 0.6 else Bytes(f"v{i}") for i in range(k)]
        cs = [dict(salt=j, nolog=True, txn={"ApplicationArgs": [r.randbytes(r.choice([0, 1, 2, 31, 500])) for _ in range(3)]}) for j in range(4)]
        return one_([], Std("Concat", args), cs, f"Concat {k}", "bytes")
    r = random.Random(n)
    sig = r.choice(["f()", "set_manager(address)", "swap(uint64,uint64,byte[32])", "x", "event((uint64,bool)[],string)", "a b", "été(uint64)"])
    k = r.randrange(0, 6)
    args = [Field("Txn", "ApplicationArgs", ai=Int(r.randrange(3))) if r.random() < 0.5 else Op("itob", [], [Int(i)]) for i in range(k)]
    cs = [dict(salt=j, nolog=True, txn={"ApplicationArgs": [r.randbytes(r.choice([0, 1, 2, 31])) for _ in range(3)]}) for j in range(2)]
    return one_([], Std("ARC28Event", [Bytes(sig)] + args), cs, f"event {sig}", "bytes")


INT_USES = [("Cast", "uint8"), ("Cast", "int"), ("Cast", "uint64"), ("Convert", "bytes[1]"), ("Convert", "bytes[2]"), ("Convert", "bytes[7]"), ("Convert", "bytes[8]"), ("Convert", "bytes"),
            ("ToBytes", 1), ("ToBytes", 2), ("ToBytes", 8), ("ToBytes", 9), ("EnsureType", "uint8"), ("EnsureType", "int"), ("UncheckedCast", "uint8"), ("UncheckedCast", "int")]
BYTES_USES = [("Cast", t) for t in ("bytes", "bytes[1]", "bytes[3]", "bytes[8]", "bytes[40]", "bytes[84]", "addr", SMALL, forms.ST)]
BYTES_USES += [("Convert", "int"), ("Convert", "uint8"), ("FromBytes", "int"), ("FromBytes", "bigint"), ("EnsureType", "bytes[8]"), ("EnsureType", "addr"), ("UncheckedCast", "bytes[8]"), ("UncheckedCast", SMALL)]
BYTES_USES += [(n, k) for n in ("Rpad", "Lpad") for k in (1, 3, 8, 40, 84, 100)]


def used(arg):
    """a value of every form cast, converted and padded"""
    kind, i, j, seed = arg
    w = forms.World()
    e = (w.ints() if kind == "int" else w.bytes())[i]
    name, t = (INT_USES if kind == "int" else BYTES_USES)[j]
    v = Std(name, [e()], n=t) if isinstance(t, int) else Std(name, [e()], [t])
    how = f"{name} of {kind} form {i} to {t if isinstance(t, (int, str)) else t.name}"
    return run_prog(prog(w.pre + out(v) + [Exit(Int(1))] + w.tail, [SMALL, forms.ST], w.consts), forms.contexts(seed, forms.INPUTS[2:7]), how)


FEAT = dict(depth=4, stmts=8, funcs=2, blocks=0, nest=1, w={"decl": 4, "std": 4})


def run(c):
    c.bounded("values of every form cast, converted, padded and ensured to several types; Cast and Convert to every listed type from every source form, with run-time values at every width and length boundary; Rpad, Lpad, ToBytes, "
              "bzero for every listed size; EnsureType and UncheckedCast of 1 to 4 values with random run-time values; Concat, SizeOf, ARC28Event; all compared "
              "with the reference meaning; non-trivial: distinct program")
    T = TYPES
    c.run(cast, T, "cast")
    c.run(convert, T, "convert")
    c.run(pad, [(p, n) for p in ("Rpad", "Lpad") for n in (1, 2, 3, 4, 7, 8, 9, 31, 32, 33, 64, 254, 255, 256, 300, 1000)], "padding")
    c.run(tobytes, list(range(1, 34)) + [63, 64, 65, 255, 256, 300], "ToBytes")
    c.run(frombytes, T, "FromBytes")
    c.run(ensure, [c.seed * 31337 + i for i in range(c.scale(1500, 40000))], "EnsureType", c.scale(40, 300))
    c.run(misc, [("sizeof", i) for i in range(len(T))] + [("bzero", n) for n in (0, 1, 8, 32, 255, 256, 4096)] + [("bzerov", n) for n in (0, 1, 4096, 4097)]
          + [(k, c.seed * 1000 + i) for k in ("concat", "event") for i in range(c.scale(60, 1000))], "others")
    w = forms.World()
    c.run(used, [(k, i, j, c.seed + i) for k, fs, us in (("int", w.ints(), INT_USES), ("bytes", w.bytes(), BYTES_USES)) for i in range(len(fs)) for j in range(len(us))
                 if (not c.quick or len(fs) < 80 or not (i + j) % 2) and (fs[i]().ty != ANY or us[j][0] in ("EnsureType", "UncheckedCast"))], "forms")
    c.run(common.differential, [(c.seed * 1000003 + i, FEAT, 3) for i in range(c.scale(200, 6000))], "random", c.scale(40, 300))
