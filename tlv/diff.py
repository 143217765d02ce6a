"""Compile a generated program with the real compiler and compare behaviours."""
from . import env, avm, lang
import tealish


class Mismatch(Exception):
    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, detail


def compare(ref, got):
    a, b = ref.summary(), got.summary()
    if a["status"] == b["status"] == "fail":
        return None  # a failed program has no effects
    for k in a:
        if k == "stack" and a[k] is None:
            continue
        if a[k] != b[k]:
            return f"{k}: expected {a[k]!r}, got {b[k]!r}"
    return None


def compile_lines(source):
    with env.quiet():
        return tealish.compile_program(source)


def check_program(p, ctxs, source=None):
    """Raises Mismatch; returns dict of counts"""
    source = source or p.source()
    n = dict(runs=0, skipped=0, fails=0, for_=0)
    try:
        teal, m = compile_lines(source)
    except Exception as e:
        raise Mismatch("rejected", f"{type(e).__name__}: {e}")
    try:
        prog = avm.Program(teal)
    except avm.AsmError as e:
        raise Mismatch("assembly", str(e))
    for ctx in ctxs:
        try:
            ref, st = lang.evaluate(p, ctx)
        except (lang.Unspecified, avm.Budget):
            n["skipped"] += 1
            continue
        try:
            got = avm.run(prog, ctx)
        except avm.Budget:
            raise Mismatch("nontermination", f"ctx={ctx}")
        d = compare(ref, got)
        if d and st.used_for_:
            ref2, _ = lang.evaluate(p, ctx, leak=True)
            if compare(ref2, got) is None:
                n["for_"] += 1
                d = None
        n["runs"] += 1
        n["fails"] += ref.status == "fail"
        if d:
            raise Mismatch("behaviour", f"ctx={ctx} {d} (reason {got.reason}; ref {ref.reason})")
    return n
