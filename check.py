#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: decide one property against /repo's working tree."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
from tlv import harness  # noqa: E402


def main():
    prop = sys.argv[1]
    if prop == "setup":
        import z3  # noqa: F401

        assert all(os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "tlv", "checks", f"c{k:02}.py")) for k in range(1, 18))
        print("nothing to build: the checks are Python and read /repo on every run")
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = harness.Check(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    mod = importlib.import_module(f"tlv.checks.{prop.lower()}")
    try:
        n = prop.lower()[1:]
        here = os.path.dirname(os.path.abspath(__file__))
        from tlv.pyver.run import prove

        mods = [m for m in (f"oc{n}", f"oc{n}b", f"oc{n}c", f"oc{n}d") if os.path.exists(os.path.join(here, "tlv", "pyver", m + ".py"))]
        if mods:
            prove(c, *mods)
        mod.run(c)
    except Exception as e:
        import traceback

        if type(e).__name__ == "BrokenTree":
            c.violations.append(dict(what=str(e), source=None))
        else:
            c.errors.append(traceback.format_exc())
    sys.exit(c.finish())


main()
