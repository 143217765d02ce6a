"""C05 Type checking accepts exactly the compatible values"""
import random
import re

from .. import avm, gen, lang
from ..harness import Violation, key
from ..lang import *  # noqa
from . import common
from .common import accepts, compile_

S9 = Struct("Sn", [("a", "int"), ("b", "uint8")])
S8 = Struct("Se", [("c", "bytes[8]")])
SF = Struct("Fields", [("i", "int"), ("u", "uint8"), ("n", "bytes[1]"), ("e", "bytes[8]"), ("t", "bytes[9]"), ("l", "bytes[32]"), ("r", "addr"), ("w", "uint64"), ("g", "bytes[300]")])
TARGETS = ["int", "uint64", "uint8", "bytes", "bigint", "addr", "bytes[1]", "bytes[2]", "bytes[8]", "bytes[9]", "bytes[32]", "bytes[33]", "bytes[255]", "bytes[300]", S9, S8, SF]


class Raw:
    def __init__(self, src, ty):
        self._s, self.ty = src, ty

    def src(self):
        return self._s


def values():
    """(text of a value, its type); everything a value can be"""
    v = []
    for n in [0, 1, 7, 255, 256, 257, 65535, 65536, 2**24 - 1, 2**24, 2**32 - 1, 2**32, 2**40, 2**48, 2**56 - 1, 2**56, 2**63, 2**64 - 1]:
        v.append(Int(n))
    for s in ["", "a", "ab", "abcdefgh", "abcdefghi", "x" * 31, "x" * 32, "x" * 33, "x" * 255, "x" * 300, "\\x00", "\\x00\\x01", "\\n", "\\\\", "\\\"", "\\\"a", "é", "\\t\\r",
              "\\\\x0", "1234567\\x00", "# a", "a;b", "//", "a//b"]:
        v.append(Bytes(s))
    for t in TARGETS:
        v.append(Raw("v_" + tag(t), tval(t)))
        v.append(Raw("f_" + tag(t) + "()", tval(t)))
        if t != SF:
            v.append(Raw(f"f1_{tag(t)}(3)", tval(t)))
    v += [Raw("none()", None), Raw("none2(1, 2)", None), Raw("two()", [INT, INT]), Raw("three(1)", [INT, BYTES, ("int", 1)])]
    v += [Raw("app_global_del(\"k\")", None), Raw("box_put(\"k\", \"v\")", None), Raw("mulw(1, 2)", [INT, INT]), Raw("app_params_get(AppAddress, 1)", [INT, ANY]),
          Raw("box_len(\"k\")", [INT, INT]), Raw("asset_holding_get(AssetBalance, 0, 1)", [INT, ANY])]
    v += [Raw("app_global_get(\"k\")", ANY), Raw("app_local_get(0, \"k\")", ANY), Raw("gload(0, 1)", ANY), Raw("select(1, 2, 3)", ANY), Raw("setbit(1, 2, 1)", ANY), Raw("gloads(1, 2)", ANY)]
    v += [Raw("len(\"abc\")", INT), Raw("itob(1)", BYTES), Raw("btoi(\"a\")", INT), Raw("sha256(\"a\")", BYTES), Raw("concat(\"a\", \"b\")", BYTES), Raw("extract(0, 1, \"ab\")", BYTES),
          Raw("extract_uint64(\"abcdefgh\", 0)", INT), Raw("balance(0)", INT), Raw("exp(2, 3)", INT), Raw("bsqrt(\"a\")", BYTES)]
    v += [Raw("Txn.Sender", ("bytes", 32)), Raw("Txn.Fee", INT), Raw("Txn.Note", BYTES), Raw("Txn.Receiver", BYTES), Raw("Txn.ApplicationArgs[0]", BYTES), Raw("Txn.Assets[0]", INT),
          Raw("Txn.Accounts[len(\"a\")]", BYTES), Raw("Gtxn[0].Fee", INT), Raw("Gtxn[0].Note", BYTES), Raw("Gtxn[-1].Sender", ("bytes", 32)), Raw("Gtxn[+1].Assets[1]", INT),
          Raw("Gtxn[v_int].ApplicationArgs[v_int]", BYTES), Raw("Global.Round", INT), Raw("Global.ZeroAddress", BYTES), Raw("Global.GroupID", BYTES), Raw("Itxn.Fee", INT), Raw("Itxn.Logs[0]", BYTES),
          Raw("Itxn.Sender", ("bytes", 32))]
    v += [Raw("1 + 2", INT), Raw("1 == 2", INT), Raw("\"a\" == \"b\"", INT), Raw("\"a\" b+ \"b\"", BYTES), Raw("\"a\" b< \"b\"", INT), Raw("(1 + 2) * 3", INT), Raw("!1", INT), Raw("~1", INT), Raw("b~\"a\"", BYTES),
          Raw("(1 && 2)", INT), Raw("\"a\" b| v_b8", BYTES), Raw("v_uint8 + v_uint8", INT)]
    for f, t in SF.fields:
        v.append(Raw(f"v_Fields.{f}", tval(t)))
        v.append(Raw(f"bx.{f}", tval(t)))
    v += [Raw("CI", INT), Raw("CB", ("bytes", 3)), Raw("CH", ("bytes", 2)), Raw("SizeOf(Sn)", INT), Raw("bzero(9)", ("bytes", 9)), Raw("bzero(CI)", ("bytes", 7)), Raw("bzero(OptIn)", ("bytes", 1)), Raw("bzero(v_int)", BYTES), Raw("bzero(SizeOf(Sn))", ("bytes", 9)),
          Raw("bzero(1 + 8)", BYTES), Raw("pop()", ANY)]
    v += [Raw("Cast(v_int, uint8)", ("int", 1)), Raw("Cast(v_uint8, int)", INT), Raw("Cast(v_bytes, bytes[8])", ("bytes", 8)), Raw("Cast(v_bytes, Sn)", ("bytes", 9)), Raw("Cast(v_b8, bytes)", BYTES),
          Raw("UncheckedCast(app_global_get(\"k\"), uint8)", ("int", 1)), Raw("UncheckedCast(v_bytes, addr)", ("bytes", 32)), Raw("UncheckedCast(mulw(1, 2), int, uint8)", [INT, ("int", 1)]),
          Raw("EnsureType(app_global_get(\"k\"), bytes[8])", ("bytes", 8)), Raw("EnsureType(v_int, uint8)", ("int", 1)), Raw("EnsureType(app_params_get(AppAddress, 1), int, addr)", [INT, ("bytes", 32)]),
          Raw("Convert(v_int, bytes[8])", ("bytes", 8)), Raw("Convert(v_int, bytes)", BYTES), Raw("Convert(v_bytes, int)", INT), Raw("Convert(v_b1, uint8)", ("int", 1)), Raw("ToBytes(v_int, 9)", ("bytes", 9)),
          Raw("ToBytes(v_int, 1)", ("bytes", 1)), Raw("FromBytes(v_bytes, int)", INT), Raw("FromBytes(v_b1, uint8)", INT), Raw("FromBytes(v_bytes, bigint)", BYTES), Raw("Rpad(v_bytes, 8)", ("bytes", 8)), Raw("Lpad(v_bytes, 300)", ("bytes", 300)),
          Raw("Concat(\"a\", \"b\")", BYTES), Raw("ARC28Event(\"f()\", \"a\")", BYTES)]
    return v


def tag(t):
    t = tname(t)
    return t.replace("bytes[", "b").rstrip("]") if "[" in t else t


HEAD = ["#pragma version 8"]
for _s in (S9, S8, SF):
    HEAD += [f"struct {_s.name}:"] + [f"{f}: {t}" for f, t in _s.fields] + ["end"]
HEAD += ["const int CI = 7", 'const bytes CB = "abc"', "const bytes CH = 0x00ff"]
DECLS = [f"{tname(t)} v_{tag(t)}" for t in TARGETS] + ['box<Fields> bx = Box("k")', 'box<Sn> bn = Box("n")']


def default(t):
    """some text of type t"""
    return "1" if is_int_type(t) else f"bzero({tsize(t)})" if tsize(t) else '""'


FUNCS = []
for _t in TARGETS:
    FUNCS += [f"func f_{tag(_t)}() {tname(_t)}:", f"return {default(_t)}", "end", f"func f1_{tag(_t)}(q: int) {tname(_t)}:", f"return {default(_t)}", "end"]
    # parameters
    FUNCS += [f"func g_{tag(_t)}(q: {tname(_t)}):", "return", "end", f"func h_{tag(_t)}(o: int, q: {tname(_t)}, p: bytes) int:", "return 1", "end"]
FUNCS += ["func none():", "return", "end", "func none2(q: int, o: int):", "return", "end", "func two() int, int:", "return 1, 2", "end",
          "func three(q: int) int, bytes, uint8:", 'return 1, "b", 3', "end"]


_WORDS = re.compile(r"[A-Za-z_][A-Za-z_0-9]*")
_DECL = {d.split("=")[0].split()[1]: d for d in DECLS}
_FUNC = {}
_k = 0
while _k < len(FUNCS):
    _FUNC[FUNCS[_k].split("(")[0].split()[1]] = FUNCS[_k : _k + 3]
    _k += 3


def program(body, extra=()):
    """body, with the declarations and functions it uses"""
    used = set(_WORDS.findall("\n".join(list(body) + list(extra))))
    d = [v for k, v in _DECL.items() if k in used]
    f = [l for k, v in _FUNC.items() if k in used for l in v]
    return "\n".join(HEAD + d + list(body) + ["exit(1)"] * ((not body or not body[0].startswith(("exit(", "switch ")))) + f + list(extra)) + "\n"


def expect(src, ok, what):
    st, e, _ = compile_(src)
    if (st == "ok") != ok:
        raise Violation(f"{what}: {'rejected: ' + str(e) if ok else 'accepted'}", src)


def target(t):
    """one target type, every value, every position"""
    n = 0
    ks = set()
    r = random.Random(tname(t))
    for v in values():
        ok = can_hold(t, v.ty)
        s = v.src()
        T = tname(t)
        pos = {
            "declaration": program([f"{T} z = {s}"]),
            "assignment": program([f"v_{tag(t)} = {s}"]),
            "argument": program([f"g_{tag(t)}({s})"]),
            "middle argument": program([f'v_int = h_{tag(t)}(1, {s}, "p")']),
            "return": program([], [f"func ret() {T}:", f"return {s}", "end"]),
            "second return": program([], [f"func ret() int, {T}, bytes:", f'return 1, {s}, "b"', "end"]),
        }
        for f, ft in SF.fields:
            if ft == t:
                pos["struct field"] = program([f"v_Fields.{f} = {s}"])
                pos["box field"] = program([f"bx.{f} = {s}"])
        for where, src in pos.items():
            expect(src, ok, f"{where}: {s} of type {v.ty} for {T}")
            n += 1
        ks.add((T, s))
    # every pair of declared types through a call with several results
    for u in TARGETS:
        ok = can_hold(t, tval(u))
        extra = [f"func pair() int, {tname(u)}:", f"return 1, {default(u)}", "end"]
        expect(program([f"v_int, v_{tag(t)} = pair()"] if t != "int" else ["int zz", "zz, v_int = pair()"], extra), ok, f"multiple assignment of {tname(u)} to {tname(t)}")
        n += 1
    return {"placements": n, "key": {key(*k) for k in ks}}


def operands(name):
    """operand types of one opcode, operator: every kind of value in every position"""
    vals = [("1", INT), ('"a"', BYTES), ('app_global_get("k")', ANY), ("none()", None), ("two()", [INT, INT]), ("v_uint8", ("int", 1)), ("v_b8", ("bytes", 8)), ("v_addr", BYTES), ("v_Sn", BYTES), ("Txn.Sender", BYTES), ("mulw(1, 2)", [INT, INT]), ("app_global_del(\"k\")", None)]

    def fit(c, ty):
        if ty is None or isinstance(ty, list):
            return False
        return c == "." or ty == ANY or (ty[0] == "int") == (c == "U")

    good = {"U": "1", "B": '"a"', ".": "2"}
    n = 0
    kind, nm = name
    if kind == "op":
        o = avm.OPS[nm]
        args = o.get("Args", "")
        imms = [o["ArgEnum"][0] if "ArgEnum" in o else "1" for _ in range(max(0, o["Size"] - 1))]
        ret = o.get("Returns", "")

        def st(a):
            e = f"{nm}({', '.join(imms + a)})"
            if not ret:
                return program([e])
            return program([", ".join("_" for _ in ret) + f" = {e}"])

        for i, c in enumerate(args):
            for s, ty in vals:
                a = [good[x] for x in args]
                a[i] = s
                expect(st(a), fit(c, ty), f"operand {i} ({c}) of {nm}: {s}")
                n += 1
        base = [good[x] for x in args]
        if nm not in ("bzero",):
            expect(st(base), True, f"{nm} with its operands")
            expect(st(base + ["1"]), False, f"{nm} with one argument too many")
            if base or imms:
                full = imms + base
                short = f"{nm}({', '.join(full[:-1])})"
                expect(program([", ".join("_" for _ in ret) + f" = {short}"] if ret else [short]), False, f"{nm} with one argument too few")
            if ret:
                expect(program([", ".join("_" for _ in ret) + f", _ = {nm}({', '.join(imms + base)})"]), False, f"{nm}: too many names")
            if len(ret) > 1:
                expect(program([", ".join("_" for _ in ret[1:]) + f" = {nm}({', '.join(imms + base)})"]), False, f"{nm}: too few names")
                expect(program([f"v_int = {nm}({', '.join(imms + base)})"]), False, f"{nm}: one name")
            n += 4
    elif kind == "bin":
        o = avm.OPS[nm]
        for i in (0, 1):
            for s, ty in vals:
                a = [good[x] for x in o["Args"]]
                a[i] = s
                expect(program([f"v_int = (1 == (({a[0]} {nm} {a[1]}) == 1))"]) if o["Returns"] == "U" else program([f"v_bytes = {a[0]} {nm} {a[1]}"]), fit(o["Args"][i], ty), f"operand {i} of {nm}: {s}")
                n += 1
    else:
        c = avm.OPS[nm]["Args"]
        for s, ty in vals:
            expect(program([f"{'v_bytes' if nm == 'b~' else 'v_int'} = {nm}{s}"]), fit(c, ty), f"operand of {nm}: {s}")
            n += 1
    return {"placements": n, "key": key(name)}


def single(arg):
    """places that need one value reject calls without one"""
    s, many = arg
    if many == "control":
        for w, b in places_("v_int").items():
            ok = any(accepts(program(q[w])) for q in (places_("v_int"), places_("v_bytes")))
            if not ok:
                raise Violation(f"{w}: neither an int nor bytes is accepted", program(b))
        return {"placements": 1}
    places = places_(s)
    n = 0
    for w, b in places.items():
        expect(program(b), False, f"{w}: {s}, which yields {'several values' if many else 'no value'}")
        n += 1
    return {"placements": n, "key": key(s)}


def places_(s):
    return {
        "switch": [f"switch {s}:", "else: blk", "end", "block blk:", "exit(1)", "end"], "option": ["switch 1:", f"{s}: blk", "end", "block blk:", "exit(1)", "end"],
        "ensure": [f"v_int = EnsureType({s}, int)"], "unchecked": [f"v_int = UncheckedCast({s}, int)"],
        "exit": ["if 1:", f"exit({s})", "end"], "last exit": [f"exit({s})"], "assert": [f"assert({s})"], "if": [f"if {s}:", "end"], "elif": ["if 1:", f"elif {s}:", "end"], "if not": [f"if not {s}:", "end"],
        "while": [f"while {s}:", "break", "end"], "field": ["inner_txn:", f"Fee: {s}", "end"], "bytes field": ["inner_txn:", f"Note: {s}", "end"],
        "array field": ["inner_txn:", f"ApplicationArgs[0]: {s}", "end"], "index": [f"v_bytes = Txn.ApplicationArgs[{s}]"], "group index": [f"v_int = Gtxn[{s}].Fee"],
        "concat": [f"v_bytes = Concat({s}, {s})"], "group": [f"v_int = ({s} + 1) + 2"], "group2": [f"v_int = 2 * (1 + {s})"], "box key": [f"box<Sn> bz = Box({s})"], "create key": [f"box<Sn> bz = CreateBox({s})"],
        "nested call": [f"v_int = f1_int({s})"], "log": [f"log({s})"], "bzero": [f"v_bytes = bzero({s})"], "not": [f"v_int = !{s}"],
        "cast": [f"v_int = Cast({s}, int)"], "convert": [f"v_bytes = Convert({s}, bytes)"], "pad": [f"v_b8 = Rpad({s}, 8)"], "frombytes": [f"v_int = FromBytes({s}, int)"], "tobytes": [f"v_b8 = ToBytes({s}, 8)"],
    }


def counts(arg):
    """numbers of arguments, names and returned values"""
    n, m = arg
    k = 0
    f = ["func ff(" + ", ".join(f"p{i}: int" for i in range(n)) + ")" + (" " + ", ".join(["int"] * m) if m else "") + ":", "return" + (" " + ", ".join(["1"] * m) if m else ""), "end"]
    names = ", ".join(["v_int"] + ["_"] * (m - 1)) + " = " if m else ""
    for a in range(0, n + 3):
        expect(program([f"{names}ff({', '.join(['1'] * a)})"], f), a == n, f"{a} arguments for {n} parameters")
        k += 1
    for b in range(1, m + 3):
        expect(program([", ".join(["_"] * b) + f" = ff({', '.join(['1'] * n)})"], f), b == m, f"{b} names for {m} results")
        k += 1
    for b in range(0, m + 3):
        g = [f[0], "return" + (" " + ", ".join(["1"] * b) if b else ""), "end"]
        expect(program([], g), b == m, f"{b} values returned by a function of {m} results")
        h = [f[0], "if 1:", "return" + (" " + ", ".join(["1"] * b) if b else ""), "end", f[1], "end"]
        expect(program([], h), b == m, f"{b} values returned early by a function of {m} results")
        k += 2
    if m:
        expect(program([f"ff({', '.join(['1'] * n)})"], f), False, "results left by a call statement")
    return {"placements": k, "key": key(arg)}


LIB = {"Convert": ["v_int", "bytes"], "Cast": ["v_int", "uint8"], "ToBytes": ["v_int", "4"], "FromBytes": ["v_bytes", "int"], "SizeOf": ["Sn"], "Rpad": ["v_bytes", "4"],
       "Lpad": ["v_bytes", "4"], "bzero": ["3"], "pop": []}


def library(name):
    """numbers of arguments of the library functions; numbers of types of the multi-value ones"""
    n = 0
    if name in LIB:
        a = LIB[name]
        for k in range(0, len(a) + 3):
            b = (a + ["1", "2"])[:k]
            expect(program([f"_ = {name}({', '.join(b)})"]), k == len(a), f"{name} with {k} arguments")
            n += 1
        if name in ("Rpad", "Lpad", "ToBytes"):
            for z in ('"b"', "v_int", "Txn.Fee", "v_bytes", "nope", "none()"):
                expect(program([f"_ = {name}({a[0]}, {z})"]), False, f"{name} with the size {z}")
                n += 1
    elif name == "Error":
        expect(program(["Error()"]), True, name)
        expect(program(["Error(1)"]), False, name)
    else:
        for e, m in (("v_int", 1), ("two()", 2), ("three(1)", 3), ("mulw(1, 2)", 2), ("none()", 0)):
            for k in range(0, 5):
                expect(program([", ".join("_" * max(k, 1)) + f" = {name}({', '.join([e] + ['int', 'bytes', 'uint8', 'addr'][:k])})"]), k == m and k > 0, f"{name} with {k} types of {e}")
                n += 1
    return {"placements": n, "key": key(name)}


FEAT = dict(depth=3, stmts=8, funcs=3, blocks=1, nest=1, structs=2, w={"multi": 2, "setfield": 3, "declbox": 2})


def run(c):
    c.bounded("every listed value form (literals at width and length boundaries, variables, calls, opcodes, fields, struct and box fields, operators, "
              "library functions; 150 or so) against every target type in every position; every operand position of every opcode and operator against "
              "every kind of value; calls with no or several values in every one-value place; argument, name and result counts; random programs that "
              "must be accepted; non-trivial: distinct (target, value), opcode or call")
    c.run(target, TARGETS, "targets")
    ops = [o for o in gen.CALLABLE if avm.OPS[o].get("Args") or avm.OPS[o].get("Returns")] + ["log", "bzero"]
    c.run(operands, [("op", o) for o in ops] + [("bin", b) for b in gen.INT_BIN + gen.B_BIN_I + gen.B_BIN_B] + [("un", u) for u in ("!", "~", "b~")], "operands")
    c.run(single, [("", "control"), ("none()", 0), ("none2(1, 2)", 0), ("two()", 1), ("three(1)", 1), ("mulw(1, 2)", 1), ("app_global_del(\"k\")", 0), ("box_len(\"k\")", 1), ("UncheckedCast(mulw(1, 2), int, int)", 1)], "single values")
    c.run(library, list(LIB) + ["Error", "EnsureType", "UncheckedCast"], "library functions")
    c.run(counts, [(n, m) for n in range(0, 6) for m in range(0, 5)], "counts")
    c.run(common.differential, [(c.seed * 1000003 + i, FEAT, 2) for i in range(c.scale(300, 6000))], "random", c.scale(50, 300))
