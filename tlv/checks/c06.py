"""C06 Struct and box fields occupy disjoint exact byte ranges"""
import random

from .. import avm, env, forms
from ..harness import Violation, key
from ..lang import *  # noqa
from . import common
from .common import prog, run_prog

import tealish


def log(e):
    if e.ty == INT or (isinstance(e.ty, tuple) and e.ty[0] == "int"):
        e = Op("itob", [], [e])
    return ExprStmt(Op("log", [], [e]))


WIDTHS = [1, 1, 2, 3, 7, 8, 9, 31, 32, 33, 100, 200, 246, 247, 254, 255, 256, 257, 300, 500]


def struct(r, name, others, small=False):
    n = r.choice([1, 2, 3, 3, 4, 5, 6, 8, 12, 20])
    fs, size = [], 0
    cap = 900 if small else 3000
    for i in range(n):
        k = r.random()
        if k < 0.3:
            t = "int"
        elif k < 0.5:
            t = "uint8"
        elif k < 0.58:
            t = "addr"
        elif k < 0.64:
            t = "uint64"
        elif k < 0.72 and others:
            t = r.choice(others)
        elif k < 0.8:
            t = f"uint8[{r.choice(WIDTHS)}]"
        else:
            t = f"bytes[{r.choice(WIDTHS)}]"
        if size + tsize(t) > cap:
            continue
        size += tsize(t)
        fs.append((f"{r.choice(['f', 'a_', 'id', 'xY', 'end_', 'b'])}{i}", t))
    return Struct(name, fs or [("f0", "int")])


def layout(seed):
    """the inspected description of random structs"""
    r = random.Random(seed)
    ss = []
    for i in range(r.randrange(1, 5)):
        ss.append(struct(r, r.choice(["S", "Item", "P_", "End"]) + str(i), ss))
    p = prog([Exit(SizeOf(ss[-1]))], ss)
    src = p.source()
    # comments inside and between definitions
    if r.random() < 0.5:
        src = src.replace("\n    ", "\n    # note: x\n    ", 1)
    with env.quiet():
        d = tealish.inspect_program(src)["structs"]
    if list(d) != [s.name for s in ss]:
        raise Violation(f"structs described: {list(d)}", src)
    n = 0
    for s in ss:
        if d[s.name]["size"] != s.size:
            raise Violation(f"size of {s.name}: {d[s.name]['size']}, expected {s.size}", src)
        got = [(f, v["offset"], v["size"]) for f, v in d[s.name]["fields"].items()]
        want = [(f, o, w) for f, (o, w, _) in s.layout().items()]
        if got != want:
            raise Violation(f"fields of {s.name}: {got}, expected {want}", src)
        n += len(want)
    return {"fields": n, "key": key(src)}


def value(r, t, c):
    """a literal of type t, distinct"""
    if t in ("int", "uint64"):
        return Int(r.choice([0, 1, 255, 256, 2**32 + c, 2**63 + c, 2**64 - 1, c]))
    if t == "uint8":
        return Int(r.choice([0, 255, c % 256]))
    n = tsize(t)
    if n <= 60 and r.random() < 0.8:
        return Bytes(("%x" % (c * 7919 + 5) + "zyxwvutsrqponmlkjihgfedcba" * 3)[:n])
    e = Bzero(Int(n))
    return e


def boundary(r, t, c):
    """values of integer fields through an expression"""
    e = value(r, t, c)
    return e


def access(seed):
    """random writes and reads of the fields of structs in variables and in boxes; every field is logged after every write"""
    r = random.Random(seed)
    ss = [struct(r, "Inner", [], True)]
    s = struct(r, "Item", ss)
    ss.append(s)
    if r.random() < 0.5:
        ss.append(struct(r, "Other", ss[:1]))
    body, objs, boxes = [], [], {}
    c = r.randrange(1000)
    for i in range(r.randrange(1, 3)):
        st = r.choice(ss)
        d = D(f"v{i}", st)
        body.append(Decl(d, Std("UncheckedCast", [Bzero(Int(st.size))], [st]) if r.random() < 0.3 else Bzero(Int(st.size)) if st.size else None))
        objs.append(d)
    for i in range(r.randrange(0, 3)):
        st = r.choice(ss)
        d = D(f"b{i}", BoxT(st))
        m = r.choice(["", "Open", "Create"])
        k = f"k{i % 2}" if r.random() < 0.7 else "k"
        body.append(BoxDecl(d, m, Bytes(k) if r.random() < 0.6 else Op("concat", [], [Bytes("k"), Bytes(k[1:])])))
        objs.append(d)
        if r.random() < 0.85 and m != "Create":
            boxes[k.encode()] = bytes(random.Random(seed + i).randbytes(max(0, st.size + r.choice([0, 0, 0, 0, 0, 1, -1]))))
        elif r.random() < 0.2:
            boxes[k.encode()] = bytes(max(0, st.size + r.choice([0, 1])))
    for k in range(r.randrange(2, 9)):
        d = r.choice(objs)
        st = d.t.struct if isinstance(d.t, BoxT) else d.t
        f, t = r.choice(st.fields)
        c += 1
        same = [SField(o, g) for o in objs for g, u in (o.t.struct if isinstance(o.t, BoxT) else o.t).fields if tname(u) == tname(t)]
        e = r.choice(same) if r.random() < 0.25 else value(r, t, c)
        body.append(FieldSet(d, f, e))
        if len(st.fields) <= 6 or r.random() < 0.3:
            for g, _ in st.fields:
                body.append(log(SField(d, g)))
        else:
            for g, _ in r.sample(st.fields, 4):
                body.append(log(SField(d, g)))
        if not isinstance(d.t, BoxT) and st.size <= 1000:
            body.append(log(Var(d)))
    body.append(Exit(Int(1)))
    p = prog(body, ss)
    return run_prog(p, [dict(salt=seed, nolog=True, boxes=boxes)], f"access seed {seed}")


def boxes(case):
    """Create, Open and plain references with a missing, matching or wrong-size box"""
    method, size, state = case
    fs = [("a", "int")] if size == 8 else [("a", "uint8"), ("b", "uint8[31]")] if size == 32 else [("a", "uint8"), ("b", "addr"), ("c", "bytes[222]")] if size == 255 else [("a", f"bytes[{size}]")] if size < 300 else [("a", "int"), ("b", f"bytes[{size - 8}]")]
    s = Struct("Item", fs)
    d = D("bx", BoxT(s))
    p = prog([BoxDecl(d, method, Bytes("key")), log(Bytes("done")), Exit(Int(1))], [s])
    bx = {}
    if state is not None:
        bx[b"key"] = bytes([7]) * max(0, size + state)
    bx[b"other"] = b"o"
    return run_prog(p, [dict(salt=1, boxes=bx)], f"boxes {case}")


def frame(case):
    """writing field i leaves every byte outside its range as it was, for every struct and field of a small shape, and for boxes"""
    shape, i, box = case
    s = Struct("Item", [(f"f{k}", t) for k, t in enumerate(shape)])
    lay = s.layout()
    off, n, t = lay[f"f{i}"]
    d = D("x", BoxT(s) if box else s)
    full = bytes((17 * k + 3) % 256 for k in range(s.size))
    body = []
    if box:
        body.append(BoxDecl(d, "", Bytes("k")))
    else:
        body.append(Decl(d, Std("Cast", [Field("Txn", "ApplicationArgs", ai=Int(0))], [s])))
    v = Int(2**64 - 2 if t == "int" else 254) if is_int_type(t) else Bzero(Int(n))
    body += [FieldSet(d, f"f{i}", v)]
    body += [log(SField(d, f"f{k}")) for k in range(len(shape))]
    if not box:
        body.append(log(Var(d)))
    body.append(Exit(Int(1)))
    return run_prog(prog(body, [s]), [dict(salt=2, nolog=True, txn={"ApplicationArgs": [full]}, boxes={b"k": full})], f"frame {case}")


REC = Struct("Rec", [("f1", "uint8"), ("f2", "int"), ("f3", "bytes[3]"), ("f4", "bytes[8]"), ("f5", "addr"), ("f6", "uint8"), ("f7", "int"), ("f8", "bytes[84]")])


def stored(case):
    """a value of every form stored in each field, of a struct and of a box, all fields and the whole read back"""
    kind, i, f, seed = case
    w = forms.World()
    form = (w.ints() if kind == "int" else w.bytes())[i]
    t = dict(REC.fields)[f]
    v = form if can_hold(t, form().ty) else lambda: Std("Cast", [form()], [t])
    d, e = D("rec", REC), D("rbox", BoxT(REC))
    body = [Decl(d, Bzero(Int(REC.size))), BoxDecl(e, "Create", Bytes("rkey"))]
    for x in (d, e):
        body += [FieldSet(x, "f2", Int(2**64 - 1)), FieldSet(x, "f6", Int(255)), FieldSet(x, f, v())]
        body += [log(SField(x, g)) for g, _ in REC.fields]
    body += [log(Var(d)), FieldSet(d, f, SField(e, f)), log(SField(d, f))]
    return run_prog(prog(w.pre + body + [Exit(Int(1))] + w.tail, [forms.ST, REC], w.consts), forms.contexts(seed, forms.INPUTS[2:7]), f"{kind} form {i} in {f}")


def storable():
    w = forms.World()
    for kind, fs in (("int", w.ints()), ("bytes", w.bytes())):
        for i, e in enumerate(fs):
            for f, t in REC.fields:
                if is_int_type(t) == (kind == "int") and (can_hold(t, e().ty) or e().ty != ANY):
                    yield kind, i, f


SHAPES = [("int",), ("uint8", "uint8"), ("int", "uint8", "int"), ("bytes[1]", "addr", "uint8"), ("bytes[255]", "int", "uint8"), ("bytes[254]", "uint8", "uint8", "int"), ("bytes[256]", "uint8", "int"),
          ("bytes[247]", "int", "uint8", "bytes[3]"), ("bytes[248]", "int", "int"), ("int", "bytes[255]", "uint8"), ("int", "bytes[256]", "uint8"), ("uint8", "bytes[300]", "addr", "int"),
          ("bytes[32]",) * 9, ("int",) * 33, ("uint8",) * 8, ("bytes[500]", "bytes[500]", "uint8"), ("bytes[255]", "bytes[255]"), ("bytes[256]", "bytes[256]")]
FEAT = dict(depth=2, stmts=8, funcs=1, blocks=1, nest=1, structs=2, consts=1, boxes=True, w={"setfield": 6, "declbox": 5, "sfield": 6, "decl": 2})


def run(c):
    c.bounded("random struct definitions described by inspect; random sequences of field writes and reads (all fields logged after each write) on structs "
              "and boxes; values of every form in each field; each field of 18 shapes around the 255/256 offset and width limits; box declarations with missing, right, short and long boxes; "
              "non-trivial: distinct program")
    c.run(layout, [c.seed * 77777 + i for i in range(c.scale(300, 5000))], "layout")
    c.run(frame, [(s, i, b) for s in SHAPES for i in range(len(s)) for b in (False, True)], "frame")
    c.run(stored, [(*x, c.seed + i) for i, x in enumerate(storable())], "values")
    c.run(boxes, [(m, n, st) for m in ("", "Open", "Create") for n in (1, 8, 32, 255, 256, 1000) for st in (None, 0, 1, -1)], "boxes")
    c.run(access, [c.seed * 99991 + i for i in range(c.scale(1200, 30000))], "access", c.scale(40, 300))
    c.run(common.differential, [(c.seed * 1000003 + i, FEAT, 2) for i in range(c.scale(300, 6000))], "random", c.scale(40, 300))
