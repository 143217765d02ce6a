"""Generated programs: real compiler + AVM model against the reference semantics."""
import os

from .. import avm, diff, env, gen, harness, lang
from ..harness import Violation, key

import tealish
from tealish.errors import CompileError, ParseError


def ctxs(seed, n):
    return [dict(salt=seed * 7 + k, lenient=k % 3 != 0) for k in range(n)]


def differential(arg):
    """arg: (seed, features, contexts, router)"""
    seed, feat, n = arg
    g = gen.Gen(seed, **feat)
    p = g.program()
    return run_prog(p, ctxs(seed, n), f"seed {seed} features {feat}")


def run_prog(p, cs, how, expect=None):
    src = p.source()
    try:
        r = diff.check_program(p, cs, src)
    except diff.Mismatch as e:
        raise Violation(f"{e.kind}: {e.detail}"[:1500], src, how=how)
    out = {"runs": r["runs"], "failing runs": r["fails"], "unspecified": r["skipped"], "key": key(src)}
    if r["for_"]:
        out["known"] = [FOR_]
    out["sample"] = src if len(src) < 1500 else src[:1500] + "..."
    return out


FOR_ = "for-underscore: `for _ in a:b:` leaves its counter on the operand stack (tests/test_for.py pins the emitted TEAL)"


def prog(body, structs=(), consts=(), version=8):
    return lang.Prog(version, list(structs), list(consts), body)


def compile_(src):
    """('ok', teal, map) or ('reject', error) ; anything else is a violation"""
    with env.quiet():
        try:
            teal, m = tealish.compile_program(src)
        except (ParseError, CompileError) as e:
            return "reject", e, None
        except RecursionError as e:
            return "reject", e, None
    return "ok", teal, m


def accepts(src):
    return compile_(src)[0] == "ok"


def assemble(src):
    st, teal, m = compile_(src)
    if st != "ok":
        raise Violation(f"rejected: {teal}", src)
    try:
        return avm.Program(teal), teal, m
    except avm.AsmError as e:
        raise Violation(f"the TEAL does not assemble: {e}", src)
