"""The evaluator against CPython: the real process/write_teal of whole concrete programs, by both.

Nothing is symbolic here: the same functions that the obligations evaluate are run by the
evaluator of interp.py and by CPython on the same inputs, and the TEAL, map and errors must agree.
"""
import copy

from .. import env
from .interp import Interp
from .values import Ctx, PyRaise, Unsupported


def native(ip, f_or_text, *a, **k):
    """textX is a library: its parser is called, not evaluated"""
    from tealish import tx_expressions

    text = f_or_text if isinstance(f_or_text, str) else a[0]
    try:
        return tx_expressions.meta_model.model_from_str(text) if hasattr(tx_expressions, "meta_model") else tx_expressions.parse_expression(text)
    except Exception as e:
        raise PyRaise(e)


def by_python(text):
    import tealish

    c = tealish.TealishCompiler(text.split("\n"))
    try:
        with env.quiet():
            c.compile()
        return "ok", c.output, dict(c.source_map), dict(c.error_messages)
    except Exception as e:
        return "error", type(e).__name__, str(e)


def by_interp(text):
    import tealish
    from tealish.errors import CompileError, ParseError

    c = tealish.TealishCompiler(text.split("\n"))
    try:
        with env.quiet():
            c.parse()
    except Exception as e:
        return "error", type(e).__name__, str(e)
    ip = Interp(Ctx(), {"find_node": lambda ip, e: None, "TextXMetaModel.model_from_str": native})
    ip.max_steps = 2000000
    try:
        ip.call(ip.get_attr(c, "compile"), [], {})
    except PyRaise as r:
        return "error", r.cls.__name__, str(r.exc)
    return "ok", c.output, dict(c.source_map), dict(c.error_messages)


def compare(text):
    """-> same | differs: ... | unsupported: ..."""
    try:
        b = by_interp(text)
    except Unsupported as e:
        return f"unsupported: {e}"
    a = by_python(text)
    if a[0] == "error" and b[0] == "error":
        return "same" if a[1] == b[1] else f"differs: {a} / {b}"
    return "same" if a == b else f"differs: {a} / {b}"[:600]


def programs(seed, n):
    from .. import gen

    out = []
    for i in range(n):
        out.append(gen.Gen(seed * 1000 + i, depth=2, stmts=3, funcs=1, blocks=1, router=i % 4 == 3, for_=i % 3 == 2).program().source())
    return out


def task(text):
    with env.quiet():
        r = compare(text)
    if r == "same":
        return {"programs evaluated as by CPython": 1}
    if r.startswith("differs"):
        return {"programs evaluated differently": 1, "differs": [r]}
    return {"programs outside the evaluator's subset": 1}
