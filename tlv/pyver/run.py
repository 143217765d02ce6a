"""Discharge the obligations of a property as part of its check."""
import importlib
import os


def _one(arg):
    mod, i, factor = arg
    from . import domain

    m = importlib.import_module(f"tlv.pyver.{mod}")
    name, fn, *rest = m.OBLIGATIONS[i]
    ob = domain.Obligation(name, fn, int((rest[0] if rest else 60) * factor))
    return {"obligations": [domain.discharge(ob)]}


def prove(c, *mods):
    """every obligation of the modules; a refuted one is a violation, an undecided one is only reported"""
    if os.environ.get("TLV_NO_PROOF"):
        return
    args = []
    for mod in mods:
        try:
            m = importlib.import_module(f"tlv.pyver.{mod}")
        except Exception:
            # the tree no longer has the shape the contracts are written for: nothing is proved
            import traceback

            c.obligations.append(dict(name=f"contracts of {mod}", status="undischarged", detail=traceback.format_exc()[-800:], functions=[], contracts=[]))
            continue
        if not m.OBLIGATIONS:
            raise RuntimeError(f"no obligations in {mod}")
        args += [(mod, i, c.scale(1, 4)) for i in range(len(m.OBLIGATIONS))]
        c.assumptions += list(getattr(m, "ASSUMPTIONS", ()))
    before = len(c.obligations)
    if args:
        c.run(_one, args, "contracts")
    from . import selfcheck

    c.run(selfcheck.task, selfcheck.programs(c.seed, c.scale(16, 200)), "evaluator")
    got = c.obligations[before:]
    if c.differs:
        # the evaluator misreads this tree: nothing it says is believed
        for o in got:
            o.update(status="undischarged", detail=f"the evaluator disagrees with CPython: {c.differs[0]} ({o['status']}: {o['detail']})"[:900])
    got.sort(key=lambda o: o["name"])
    c.obligations[before:] = got
    if len(got) != len(args):
        c.errors.append(f"{len(args) - len(got)} obligations without a verdict")
    for o in got:
        if o["status"] == "failed":
            c.violations.append(dict(what=f"obligation failed: {o['name']}: {o['detail'][:300]}", source=None, obligation=o["name"],
                                     verifier_output=o["detail"], functions=o["functions"], no_input=True))
