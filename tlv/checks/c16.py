"""C16 Opcode knowledge is exactly the language specification"""
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

from .. import avm, env
from ..harness import Violation, key

FROZEN = json.load(open(os.path.join(env.VERIF, "data", "avm_ops.json")))["Ops"]
T = {"U": ["int", 8], "B": ["bytes", 0], ".": ["any", 0]}
WORDS = set("exit assert push pop Error if for while int bytes end jump block func return break const Cast Concat box".split())


def ask(spec, programs, specs=(), lookups=()):
    d = tempfile.mkdtemp(prefix="tlv-c16-")
    try:
        if spec is not None:
            with open(os.path.join(d, "langspec.json"), "w") as f:
                json.dump(spec, f)
        p = subprocess.run([sys.executable, "-B", os.path.join(env.VERIF, "tlv", "specrun.py")], cwd=d, text=True, capture_output=True, timeout=300,
                           input=json.dumps({"path": sys.path, "programs": programs, "specs": specs, "lookups": list(lookups)}))
        if p.returncode:
            raise Violation(f"the specification cannot be loaded: {p.stdout[-300:]} {p.stderr[-800:]}", json.dumps(spec)[:3000])
        return json.loads(p.stdout)
    finally:
        shutil.rmtree(d)


def want_op(o):
    en = o.get("ArgEnum", [])
    ty = o.get("ArgEnumTypes")
    d = {f: T[ty[i]] if ty is not None else ["int", 8] for i, f in enumerate(en)}
    if "Sender" in d:
        d["Sender"] = ["bytes", 32]  # documented override in langspec.py
    return {"name": o["Name"], "opcode": o["Opcode"], "args": [T[c] for c in o.get("Args", "")], "returns": [T[c] for c in o.get("Returns", "")][::-1], "size": o["Size"], "imm": o["Size"] - 1, "enum": en, "enum_dict": d}


def check_ops(ops, got, spec):
    want = {o["Name"]: want_op(o) for o in ops}
    want["method"] = {"name": "method", "opcode": "method", "args": [], "returns": [["bytes", 0]], "size": 2, "imm": 1, "enum": [], "enum_dict": {}}
    if list(got) != list(dict.fromkeys(list(want))) and set(got) != set(want):
        raise Violation(f"opcodes known: missing {sorted(set(want) - set(got))[:5]}, unexpected {sorted(set(got) - set(want))[:5]}", spec)
    for n, w in want.items():
        g = got[n]
        if g != w:
            bad = {k: (g[k], w[k]) for k in w if g[k] != w[k]}
            raise Violation(f"opcode {n} is read as {bad}", spec)


# -- programs that use an opcode ---------------------------------------------------

VAL = {"U": ("7", "pushint 7"), "B": ('"v"', 'pushbytes "v"'), ".": ('"w"', 'pushbytes "w"')}
INT_FIELD = ("Global.Round", "global Round")


def value(t, k):
    if t == "U":
        return str(10 + k), f"pushint {10 + k}"
    return f'"v{k}"', f'pushbytes "v{k}"'


def code(teal):
    return [l.split("//")[0].strip() for l in teal if l.split("//")[0].strip()]


def usable(o):
    n = o["Name"]
    return n.replace("_", "a").isalnum() and n[0].isalpha() and n == n.lower() and o["Size"] > 0 and n not in WORDS and n != "bzero"  # bzero is a Tealish function


def uses(o, r):
    """(program, expected code or None if it must be rejected, what)"""
    n, args, rets = o["Name"], o.get("Args", ""), o.get("Returns", "")
    imms = []
    for k in range(o["Size"] - 1):
        if o.get("ArgEnum") and k == (1 if n in ("gtxn", "gtxna", "gitxn", "gitxna", "gtxnas", "gitxnas") else 0):
            imms.append(r.choice(o["ArgEnum"]))
        else:
            imms.append(str(r.randrange(0, 99)))
    vals = [value(t, k) for k, t in enumerate(args)]

    def call(i, v):
        return f"{n}({', '.join(list(i) + [x[0] for x in v])})"

    def prog(c, rs=rets):
        if not rs:
            return c + "\nexit(1)"
        names = [f"x{k}" for k in range(len(rs))]
        rr = rs[::-1]
        decl = "".join(f"{'bytes' if t == 'B' else 'int'} {x}\n" for x, t in zip(names, rr))
        return decl + ", ".join(names) + " = " + c + "\nexit(1)"

    body = [v[1] for v in vals] + [" ".join([n] + imms)]
    out = []
    stores = [f"store {k}" for k in range(len(rets))]
    out.append((prog(call(imms, vals)), body + stores + ["pushint 1", "return"], f"{n} used as specified"))
    for k in range(len(args)):
        out.append((prog(call(imms, vals[:k] + vals[k + 1 :])), None, f"{n} with an argument missing"))
        if args[k] != ".":
            w = value("U" if args[k] == "B" else "B", k)
            out.append((prog(call(imms, vals[:k] + [w] + vals[k + 1 :])), None, f"{n} with argument {k} of the other type"))
        else:
            w = value("U", k)
            out.append((prog(call(imms, vals[:k] + [w] + vals[k + 1 :])), [x[1] for x in vals[:k] + [w] + vals[k + 1 :]] + body[len(args):] + stores + ["pushint 1", "return"], f"{n} with an integer for any"))
    out.append((prog(call(imms, vals + [value("U", 9)])), None, f"{n} with an argument too many"))
    if imms:
        out.append((prog(call(imms[1:], vals)), None, f"{n} with an immediate missing"))
    if o.get("ArgEnum") and len(imms) == 1:
        out.append((prog(call(["NoSuchField"], vals)), None, f"{n} with an unknown field"))
    for k in range(len(imms)):
        out.append((prog(call(imms[:k] + ["NoSuchField"] + imms[k + 1 :], vals)), None, f"{n} with an unknown name as immediate {k}"))
        out.append((prog(call(imms[:k] + ["NO_CONST"] + imms[k + 1 :], vals)), None, f"{n} with an undeclared constant as immediate {k}"))
        out.append((prog(call(imms[:k] + ["noname"] + imms[k + 1 :], vals)), None, f"{n} with a variable as immediate {k}"))
        out.append((prog(call(imms[:k] + ['bzero(3)'] + imms[k + 1 :], vals)), None, f"{n} with a call as immediate {k}"))
        if o.get("ArgEnum"):
            out.append((prog(call(imms[:k] + ["NoOp"] + imms[k + 1 :], vals)), None, f"{n} with a name that is no field of it as immediate {k}"))
    if rets:
        # one name of the other type for each result
        for k in range(len(rets)):
            if rets[k] in "UB":
                bad = rets[:k] + ("B" if rets[k] == "U" else "U") + rets[k + 1 :]
                out.append((prog(call(imms, vals), bad), None, f"{n}: result {k} given to a name of the other type"))
        out.append((prog(call(imms, vals), rets + "U"), None, f"{n}: a name too many"))
        out.append((call(imms, vals) + "\nexit(1)", None, f"{n}: results not used"))
        names = ["_"] * len(rets)
        out.append((", ".join(names) + " = " + call(imms, vals) + "\nexit(1)", body + ["pop"] * len(rets) + ["pushint 1", "return"], f"{n}: results discarded"))
    if len(rets) > 1:
        out.append((prog(call(imms, vals), rets[1:]), None, f"{n}: a name too few"))
    return out


def field_uses(fields, ns, ops_):
    out = []
    for f, t in fields.items():
        if ns == "Txn" and f in ops_.get("txna", {}).get("ArgEnum", []):
            e, w = f"Txn.{f}[1]", f"txna {f} 1"
        else:
            e, w = f"{ns}.{f}", f"{ns.lower()} {f}"
        a, b = ("int", "bytes") if t[0] == "int" else ("bytes", "int")
        out.append((f"{a} x = {e}\nexit(1)", [w, "store 0", "pushint 1", "return"], f"{e} is {a}"))
        out.append((f"{b} x = {e}\nexit(1)", None, f"{e} is not {b}"))
    out.append((f"int x = {ns}.NoSuchField\nexit(1)", None, "an unknown field"))
    return out


def verdicts(spec_ops, res, us, spec):
    n = 0
    for (src, want, what), (st, teal) in zip(us, res):
        n += 1
        if st == "error":
            raise Violation(f"{what}: {teal}", src, spec=spec)
        if (want is None) != (st == "reject"):
            raise Violation(f"{'accepted' if want is None else 'rejected'}: {what}: {teal}", src, spec=spec)
        if want is not None and code(teal) != want:
            raise Violation(f"{what}: {code(teal)} instead of {want}", src, spec=spec)
    return n


def packaged(seed):
    r = random.Random(seed)
    us = []
    by = {o["Name"]: o for o in FROZEN}
    for o in FROZEN:
        if usable(o) and o["Name"] not in ("b", "bz", "bnz", "callsub"):
            us += uses(o, r)
    txn = {f: T[t] for f, t in zip(by["txn"]["ArgEnum"], by["txn"]["ArgEnumTypes"])}
    us += field_uses({k: v for k, v in txn.items()}, "Txn", by)
    us += field_uses({f: T[t] for f, t in zip(by["global"]["ArgEnum"], by["global"]["ArgEnumTypes"])}, "Global", by)
    for o in FROZEN:
        if o["Size"] == 0 and o["Name"].isalnum():
            us.append((f"{o['Name']}()\nexit(1)", None, f"{o['Name']} without its immediates"))
    us += [(f"{n}(1)\nexit(1)", None, f"unknown opcode {n}") for n in ("nope", "popp", "sha3", "sha25", "box_gett", "Global", "extracts", "itxn_fiel")]
    look = ["nope", "", "+", "b+", "sha256", "method", "Txn"]
    a = ask(None, [u[0] for u in us], [], look)
    if not a["packaged"]:
        raise Violation("without a specification file in the working directory another one than the packaged one is active")
    check_ops(FROZEN, a["ops"], "the packaged specification")
    if a["txn"] != want_op(by["txn"])["enum_dict"] or a["global"] != want_op(by["global"])["enum_dict"]:
        raise Violation("the types of transaction or global fields are not those listed", "the packaged specification")
    if a["lookups"] != [None, None, "+", "b+", "sha256", "method", None]:
        raise Violation(f"looking up {look} gives {a['lookups']}", "the packaged specification")
    if a["new_local"] != []:
        raise Violation("new local opcodes without a local specification", "the packaged specification")
    n = verdicts(FROZEN, a["programs"], us, "packaged")
    return {"programs": n, "opcodes": len(FROZEN), "key": [key(u[0]) for u in us], "sample": us[r.randrange(len(us))][0]}


def variant(r):
    """another specification in the same format"""
    ops = copy.deepcopy(FROZEN)
    keep = {"txn", "txna", "global", "itxn_field", "+", "==", "log", "return", "itxn", "gtxn"}
    ops = [o for o in ops if o["Name"] in keep or r.random() > 0.15]
    for o in ops:
        if o["Name"] in keep - {"txn", "global"}:
            continue
        k = r.random()
        if o.get("ArgEnum"):
            if k < 0.5 and "ArgEnumTypes" in o:
                o["ArgEnumTypes"] = "".join(r.choice("UB") for _ in o["ArgEnum"])
            if 0.4 < k < 0.7 and o["Name"] != "txn":
                o["ArgEnum"] = o["ArgEnum"] + ["NewField" + r.choice("ABC")]
                if "ArgEnumTypes" in o:
                    o["ArgEnumTypes"] += r.choice("UB")
            elif 0.7 < k < 0.8 and o["Name"] not in ("txn", "global"):
                o.pop("ArgEnumTypes", None)
            continue
        if o["Name"].isidentifier() and k < 0.4 and o["Size"] > 0:
            o["Args"] = "".join(r.choice("UB.") for _ in range(r.randrange(0, 6)))
            o["Returns"] = "".join(r.choice("UB.") for _ in range(r.randrange(0, 5)))
            for f in ("Args", "Returns"):
                if not o[f]:
                    del o[f]
            o["Size"] = r.randrange(1, 5)
        if k > 0.95:
            o["Opcode"] = r.randrange(1, 250)
    for i in range(r.randrange(0, 9)):
        o = {"Opcode": 200 + i, "Name": r.choice(["new", "zk", "sum", "box_new", "b_x", "q"]) + r.choice(["", "_op", "_get", "x"]) + str(i), "Size": r.randrange(1, 5), "Args": "".join(r.choice("UB.") for _ in range(r.randrange(0, 14))),
             "Returns": "".join(r.choice("UB.") for _ in range(r.randrange(0, 7)))}
        if r.random() < 0.3:
            del o["Returns"]
        if r.random() < 0.3:
            o["Size"] = 2
            o["ArgEnum"] = ["FieldA", "FieldB", "Sender"][: r.randrange(1, 4)]
            if r.random() < 0.6:
                o["ArgEnumTypes"] = "".join(r.choice("UB") for _ in o["ArgEnum"])
        ops.append(o)
    if r.random() < 0.5:
        r.shuffle(ops)
    return ops


def other(seed):
    r = random.Random(seed)
    ops = variant(r)
    spec = {"EvalMaxVersion": 9, "LogicSigVersion": 9, "Ops": ops}
    by = {o["Name"]: o for o in ops}
    us = []
    some = [o for o in ops if usable(o) and o["Name"] not in ("b", "bz", "bnz", "callsub")]
    for o in some:
        if any(f and not f[0].isupper() for f in o.get("ArgEnum", [])):
            continue
        us += uses(o, r)
    gone = [o["Name"] for o in FROZEN if usable(o) and o["Name"] not in by]
    for n in gone:
        o = next(x for x in FROZEN if x["Name"] == n)
        if not o.get("Returns"):
            us.append((uses(o, r)[0][0], None, f"opcode {n} is not in the specification"))
        else:
            us.append((uses(o, r)[0][0], None, f"opcode {n} is not in the specification"))
    us += field_uses({f: T[t] for f, t in zip(by["global"]["ArgEnum"], by["global"]["ArgEnumTypes"])}, "Global", by)
    us = [(p, w, k) for p, w, k in us if "Sender" not in p]
    specs = [[r.sample(FROZEN_KEEP, 12) + BASE, r.sample(FROZEN_KEEP, 12) + BASE] for _ in range(4)] + [[BASE, BASE], [BASE, FROZEN], [FROZEN, ops], [ops, BASE]]
    a = ask(spec, [u[0] for u in us], specs, gone)
    text = json.dumps(spec)[:4000]
    if a["packaged"]:
        raise Violation("the specification file of the working directory is not used", text)
    check_ops(ops, a["ops"], text)
    if a["as_dict"] is not True:
        raise Violation("as_dict() is not the specification", text)
    if a["txn"] != want_op(by["txn"])["enum_dict"] or a["global"] != want_op(by["global"])["enum_dict"]:
        raise Violation("the types of transaction or global fields are not those listed", text)
    if any(x is not None for x in a["lookups"]):
        raise Violation("opcodes that are not in the specification are found", text)
    pk = {o["Name"] for o in FROZEN} | {"method"}
    mine = [n for n in a["ops"] if n not in pk]
    if sorted(a["new_local"]) != sorted(mine):
        raise Violation(f"new local opcodes: {a['new_local']} instead of {mine}", text)
    for (x, y), (cmp_, nx, ny, lx, ly, xo) in zip(specs, a["compare"]):
        nx_, ny_ = [o["Name"] for o in x], [o["Name"] for o in y]
        A = sorted({n for n in nx_ if n not in ny_})
        B = sorted({n for n in ny_ if n not in nx_})
        got = [sorted(cmp_[0]), sorted(cmp_[1]), sorted(nx), sorted(ny), sorted(lx), sorted(ly)]
        w = [A, B, A, B, sorted({n for n in nx_ if n not in pk}), sorted({n for n in ny_ if n not in pk})]
        if got != w:
            raise Violation(f"differences of two specifications: {got} instead of {w}", json.dumps([nx_, ny_]))
        check_ops(x, {o["name"]: o for o in xo}, "compared specification")
    n = verdicts(ops, a["programs"], us, text)
    return {"programs": n, "specifications": 1, "key": [key(seed, u[0]) for u in us], "sample": us[r.randrange(len(us))][0]}


BASE = [o for o in FROZEN if o["Name"] in ("txn", "global")]
FROZEN_KEEP = [o for o in FROZEN if o["Name"] not in ("txn", "global")]


def run(c):
    c.bounded("every opcode and field of the packaged specification (frozen copy in /verif/data) used as specified and with each argument, immediate and result wrong; random other specification files in a "
              "scratch working directory, each opcode decoded and used the same way; differences of pairs of specifications; non-trivial: distinct program and specification")
    c.run(packaged, range(c.scale(3, 30)), "packaged")
    c.run(other, [c.seed * 50021 + i for i in range(c.scale(48, 800))], "other specifications", c.scale(60, 400))
