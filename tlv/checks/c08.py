"""C08 The router dispatches, guards, decodes and logs exactly as specified"""
import random

from .. import gen
from ..harness import Violation, key
from ..lang import *  # noqa
from . import common
from .common import prog, run_prog, accepts

PT = ["int", "uint64", "uint8", "bytes", "bigint", "addr", "bytes[1]", "bytes[8]", "bytes[9]", "bytes[33]", "bytes[300]"]
RT = ["int", "uint8", "bytes", "bigint", "addr", "bytes[1]", "bytes[8]", "uint64"]
DECO = ["", "OnCompletion=NoOp", "OnCompletion=OptIn", "OnCompletion=CloseOut", "OnCompletion=ClearState", "OnCompletion=UpdateApplication", "OnCompletion=DeleteApplication", "OnCompletion=CreateApplication"]
NAMES = ["f", "g", "get", "set_x", "F2", "create", "route", "x1", "longer_name_of_a_function", "a", "b", "aa", "return_x", "if_", "end_1", "main"]


def log(*es):
    out = []
    for e in es:
        if e.ty == INT or (isinstance(e.ty, tuple) and e.ty[0] == "int"):
            e = Op("itob", [], [e])
        out.append(ExprStmt(Op("log", [], [e])))
    return out


def arg(r, t, fit):
    """bytes of an application argument for type t that fit it, or do not"""
    if is_int_type(t):
        n = tsize(t)
        if fit:
            k = r.randrange(0, n + 1)
            v = r.randbytes(k)
            return v if n == 8 else r.choice([v, bytes(r.randrange(0, 8)) [: 8 - len(v)] + v])
        if n == 8:
            return r.randbytes(r.randrange(9, 14))
        return r.choice([b"\x01\x00", b"\xff" * 8, r.randbytes(9), b"\0" * 6 + b"\x01\x01"])
    n = tsize(t)
    if not n:
        return r.randbytes(r.choice([0, 1, 8, 40]))
    return r.randbytes(n if fit else r.choice([0, n - 1, n + 1]))


def contexts(r, funcs, count, tops=()):
    cs = []
    listed = [f for f in funcs]
    for k in range(count):
        f = r.choice(listed)
        name = f.name.encode()
        x = r.random()
        if x < 0.06:
            name = r.choice([b"", name + b"x", name[:-1], name.upper(), b"\0" + name, r.choice(NAMES).encode(), name + b"\0"])
        oc = f.deco.split("=")[1] if f.deco and "=" in f.deco else "NoOp"
        good = OC.get(oc, 0)
        t = {"OnCompletion": good if r.random() < 0.8 else r.randrange(0, 6), "ApplicationID": r.choice([0, 0, 77]) if oc == "CreateApplication" else r.choice([0, 5, 2**40])}
        args = [arg(r, d.t, r.random() < 0.93) for d in f.params]
        if r.random() < 0.05:
            args = args[:-1]
        if r.random() < 0.1:
            args.append(b"extra")
        if r.random() < 0.02:
            t["ApplicationArgs"] = []
        else:
            t["ApplicationArgs"] = [name] + args
        cs.append(dict(salt=k, lenient=True, txn=t, group_index=r.randrange(0, 16)))
    return cs


def func(r, i, taken):
    name = r.choice(NAMES)
    while name in taken:
        name = f"{r.choice(NAMES)}{i}"
    taken.add(name)
    n = r.choice([0, 1, 1, 2, 3, 5, 8, 14])
    m = r.choice([0, 0, 1, 1, 2, 3, 4, 6])
    ps = [D(f"p{k}", r.choice(PT)) for k in range(n)]
    f = Func(name, ps, [r.choice(RT) for _ in range(m)])
    f.deco = r.choice(DECO + ["", "", "", ""])
    vals = []
    for k, t in enumerate(f.rets):
        same = [d for d in ps if can_hold(t, tval(d.t))]
        if same and r.random() < 0.7:
            vals.append(Var(r.choice(same)))
        elif is_int_type(t):
            vals.append(Int(k + 1 if t == "uint8" else 2**40 + k))
        else:
            vals.append(Bytes(("%d" % k * 40)[: tsize(t) or 5]))
    f.body = log(Bytes("in " + name), *[Var(d) for d in ps]) + [Return(vals)]
    return f


def routers(seed):
    """1 to 3 routers over public functions of every shape; unlisted public and private functions"""
    r = random.Random(seed)
    taken = set()
    fs = [func(r, i, taken) for i in range(r.randrange(1, 7))]
    extra = [func(r, 90 + i, taken) for i in range(r.randrange(0, 2))]
    for f in extra:
        if r.random() < 0.5:
            f.deco = None
    tail = fs + extra
    r.shuffle(tail)
    pre = [Decl(D("before", "int"), Int(5))] if r.random() < 0.3 else []
    if r.random() < 0.75 or len(fs) < 2:
        listed = fs[:]
        r.shuffle(listed)
        body = pre + [Router(listed)] + tail
    else:
        # several routers: in blocks reached by a switch, or in branches
        k = r.randrange(1, len(fs))
        a, b = Router(fs[:k]), Router(fs[k:])
        if r.random() < 0.5:
            x, y = Block("first"), Block("second")
            x.body, y.body = [a], [b]
            body = pre + [Switch(Field("Txn", "NumAppArgs"), [(Int(0), x), (Int(1), x)], y), x, y] + tail
        else:
            body = pre + [If([(False, Field("Txn", "Fee"), [a])]), b] + tail
    if r.random() < 0.3:
        body = pre + [Comment(" c")] + body[len(pre):]
    p = prog(body)
    cs = contexts(r, fs, 12)
    for c in cs:
        c["txn"]["NumAppArgs"] = r.randrange(0, 3)
        c["txn"]["Fee"] = r.randrange(0, 2)
    return run_prog(p, cs, f"routers seed {seed}")


def dispatch(case):
    """every on-completion value and application id for every declaration"""
    deco, = case
    f = Func("f", [D("a", "int"), D("b", "bytes[3]")], ["int", "bytes"])
    f.deco = deco
    f.body = log(Var(f.params[0])) + [Return([Var(f.params[0]), Var(f.params[1])])]
    g = Func("g", [], [])
    g.deco = ""
    g.body = log(Bytes("g")) + [Return([])]
    cs = [dict(salt=1, txn={"OnCompletion": oc, "ApplicationID": ai, "ApplicationArgs": [nm, b"\x05", b"abc"]})
          for oc in range(0, 7) for ai in (0, 1, 2**63) for nm in (b"f", b"g", b"h", b"", b"f\0", b"F")]
    return run_prog(prog([Router([g, f]), f, g]), cs, f"decorator {deco!r}")


def params(case):
    """one parameter type in one position, every boundary value"""
    t, i = case
    f = Func("f", [D(f"o{k}", "int") for k in range(i)] + [D("x", t)] + [D("z", "bytes")], [t])
    f.deco = ""
    f.body = log(*[Var(d) for d in f.params]) + [Return([Var(f.params[i])])]
    vals = [b"", b"\0", b"\xff", b"\1\0", b"\0\xff", b"\xff" * 8, b"\0" * 8, b"\0" * 7 + b"\xff", b"\0" * 6 + b"\1\0", b"\1" + b"\0" * 7, b"\0" * 9, b"\1" * 9]
    vals += [bytes(n) for n in (1, 2, 7, 8, 9, 10, 31, 32, 33, 34, 299, 300, 301)] + [b"\xee" * n for n in (32, 33, 300)]
    cs = [dict(salt=1, txn={"OnCompletion": 0, "ApplicationID": 9, "ApplicationArgs": [b"f"] + [bytes([k]) for k in range(i)] + [v, b"last"]}) for v in vals]
    return run_prog(prog([Router([f]), f]), cs, f"parameter {case}")


def returns(seed):
    """every list of at most 3 return types, random longer ones"""
    r = random.Random(seed)
    if seed < len(RT) ** 2:
        ts = [RT[seed // len(RT)], RT[seed % len(RT)]]
    else:
        ts = [r.choice(RT) for _ in range(r.choice([1, 3, 3, 4, 5, 8]))]
    f = Func("f", [], ts)
    f.deco = ""
    f.body = [Return([Int(200 + k) if is_int_type(t) else Bytes((chr(97 + k) * 40)[: tsize(t) or k]) for k, t in enumerate(ts)])]
    g = Func("g", [], [])
    g.deco = ""
    g.body = [Return([])]
    cs = [dict(salt=1, txn={"OnCompletion": 0, "ApplicationID": 9, "ApplicationArgs": [n]}) for n in (b"f", b"g")]
    return run_prog(prog([Router([f, g]), f, g]), cs, f"returns {ts}")


def listing(case):
    """only decorated functions may be listed; the router is an exit statement"""
    src, ok = case
    if accepts(src) != ok:
        raise Violation("rejected" if ok else "accepted", src)
    return {"key": key(src)}


LISTING = [
    ("router:\nf\nend\nfunc f():\nreturn\nend\n", False),
    ("router:\nf\nend\n@public()\nfunc f():\nreturn\nend\n", True),
    ("router:\ng\nend\n@public()\nfunc f():\nreturn\nend\n", False),
    ("router:\nf\nend\nexit(1)\n@public()\nfunc f():\nreturn\nend\n", False),
    ("@public()\nfunc f():\nreturn\nend\nrouter:\nf\nend\n", False),
    ("router:\nf\n@public()\nfunc f():\nreturn\nend\n", False),
    ("router:\nf x\nend\n@public()\nfunc f():\nreturn\nend\n", False),
]


def random_router(arg):
    seed, feat, n = arg
    g = gen.Gen(seed, **feat)
    p, listed, pubs = g.router_program()
    r = random.Random(seed)
    return run_prog(p, contexts(r, listed, n), f"random router {seed}")


def run(c):
    c.bounded("routers over random public functions (up to 14 parameters, 6 results, several routers per program) with calls of listed, unlisted and unknown names, "
              "all on-completion values, fitting, non-fitting, missing and extra arguments; every declaration x on-completion x application id; every parameter "
              "type x boundary value; every pair of return types; random larger programs; non-trivial: distinct program")
    c.run(dispatch, [(d,) for d in DECO], "dispatch")
    c.run(params, [(t, i) for t in PT for i in (0, 1, 5)], "parameters")
    c.run(returns, list(range(len(RT) ** 2 + c.scale(60, 600))), "returns")
    c.run(listing, LISTING, "listing")
    c.run(routers, [c.seed * 65537 + i for i in range(c.scale(1200, 30000))], "routers", c.scale(40, 300))
    c.run(random_router, [(c.seed * 1000003 + i, {}, 8) for i in range(c.scale(250, 6000))], "random", c.scale(40, 300))
