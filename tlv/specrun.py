"""Run in a scratch working directory: answer questions about the active language specification.
stdin: {"repo", "programs": [...], "specs": [[a, b], ...]}; stdout: JSON"""
import json
import os
import sys

q = json.load(sys.stdin)
sys.path[:] = q["path"]
sys.stderr = open(os.devnull, "w")
sys.dont_write_bytecode = True
import tealish
from tealish import langspec as L
from tealish.errors import CompileError, ParseError


def typ(t):
    return [t.avm_type.name if hasattr(t.avm_type, "name") else str(t.avm_type), t.size if type(t).__name__ != "AnyType" else 0]


def op(o):
    return {
        "name": o.name, "opcode": o.opcode, "args": [typ(t) for t in o.arg_types], "returns": [typ(t) for t in o.returns_types], "size": o.size, "imm": o.immediate_args_num,
        "enum": list(o.arg_enum), "enum_dict": {k: typ(v) for k, v in o.arg_enum_dict.items()},
    }


def program(src):
    try:
        return ["ok", tealish.compile_program(src)[0]]
    except (CompileError, ParseError) as e:
        return ["reject", str(e)]
    except Exception as e:
        return ["error", f"{type(e).__name__}: {e}"]


def spec(ops):
    return L.LangSpec({"Ops": ops})


out = {}
s = L.get_active_langspec()
out["packaged"] = s is L.packaged_lang_spec
out["ops"] = {n: op(o) for n, o in s.ops.items()}
out["txn"] = {k: typ(v) for k, v in s.txn_fields.items()}
out["global"] = {k: typ(v) for k, v in s.global_fields.items()}
out["programs"] = [program(p) for p in q["programs"]]
out["lookups"] = []
for n in q.get("lookups", []):
    try:
        out["lookups"].append(s.lookup_op(n).name)
    except KeyError:
        out["lookups"].append(None)
out["new_local"] = L.get_new_local_ops()
out["compare"] = []
for a, b in q.get("specs", []):
    a, b = spec(a), spec(b)
    out["compare"].append([list(map(list, L.compare_langspecs(a, b))), a.new_ops(b), b.new_ops(a), L.get_new_local_ops(a), L.get_new_local_ops(b), [op(o) for o in a.ops.values()]])
out["as_dict"] = s.as_dict() == json.load(open("langspec.json")) if os.path.exists("langspec.json") else None
json.dump(out, sys.stdout)
