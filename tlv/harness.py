"""Shared machinery of the checks: parallel runs, evidence, findings, verdicts."""
import collections
import hashlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import env

VERIF = env.VERIF
JOBS = int(os.environ.get("TLV_JOBS", "8"))


class Violation(Exception):
    """a property does not hold on the input described"""

    def __init__(self, what, source=None, **info):
        super().__init__(what)
        self.what, self.source, self.info = what, source, info

    def data(self):
        return dict(what=self.what, source=self.source, **self.info)


_TASKS = None


def _chunk(ix):
    return [_call(i) for i in ix]


def _call(i):
    f, arg = _TASKS[i]
    try:
        r = f(arg)
        return i, "ok", r
    except Violation as v:
        return i, "violation", v.data()
    except Exception as e:
        if in_the_code(e):
            return i, "violation", dict(what=f"the code fails: {type(e).__name__}: {e}"[:400], source=None, input=repr(arg)[:3000], traceback=traceback.format_exc()[-3000:])
        return i, "error", traceback.format_exc()


def in_the_code(e):
    """the exception comes out of the repository's code, not out of the check"""
    if isinstance(e, (RecursionError, MemoryError)):
        return False
    here = os.path.join(VERIF, "tlv") + os.sep
    code = os.path.join(os.path.realpath(env.REPO), "tealish") + os.sep
    files = [os.path.realpath(f.f_code.co_filename) for f, _ in traceback.walk_tb(e.__traceback__)]
    last = lambda d: max([k for k, f in enumerate(files) if f.startswith(d)], default=-1)  # noqa: E731
    return last(code) > last(here)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.counts = collections.Counter()
        self.samples, self.violations, self.errors, self.known = [], [], [], []
        self.obligations = []  # dicts: name, status, backend, seconds, detail
        self.assumptions, self.notes = [], []
        self.distinct = set()
        self.differs = []
        self.sampled = set()
        self.rules = []
        self.findings = [f for f in load_findings() if f["property"] == prop and f["kind"] == "finding"]

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    # -- bounded parts -----------------------------------------------------
    def run(self, f, args, label, max_seconds=None):
        """run f over args in parallel; f returns a Counter-like dict (may hold 'key' for distinctness)"""
        global _TASKS
        args = list(args)
        _TASKS = [(f, a) for a in args]
        t = time.time()
        n = 0
        if not args:
            return
        with multiprocessing.get_context("fork").Pool(min(JOBS, max(1, len(args)))) as pool:
            size = max(1, min(16, len(args) // (4 * JOBS)))
            it = pool.imap_unordered(_chunk, [range(k, min(k + size, len(args))) for k in range(0, len(args), size)])
            while True:
                try:
                    left = None if max_seconds is None else max(0.1, max_seconds - (time.time() - t))
                    res = it.next(timeout=left)
                except StopIteration:
                    break
                except multiprocessing.TimeoutError:
                    self.notes.append(f"{label}: stopped after {max_seconds} s with {n} of {len(args)} cases")
                    pool.terminate()
                    break
                for i, st, r in res:
                    n += 1
                    self.take(st, r, label)
                if len(self.violations) >= 25 or len(self.errors) >= 5:
                    pool.terminate()
                    break
        self.counts[f"{label}: cases"] += n
        self.counts[f"{label}: seconds"] += round(time.time() - t, 2)

    def take(self, st, r, label):
        if st == "violation":
            self.violations.append(dict(r, part=label))
        elif st == "error":
            self.errors.append(f"{label}: {r}")
        elif r:
            r = dict(r)
            key = r.pop("key", None)
            if key is not None:
                self.distinct.update(key if isinstance(key, (list, set)) else [key])
            s = r.pop("sample", None)
            if s is not None and label not in self.sampled and len(self.samples) < 5:
                self.sampled.add(label)
                self.samples.append(s)
            for k in r.pop("known", ()):
                if k not in self.known:
                    self.known.append(k)
            self.differs += r.pop("differs", [])
            for o in r.pop("obligations", ()):
                self.obligations.append(o)
            for k, v in r.items():
                self.counts[f"{label}: {k}"] += v

    def bounded(self, rule):
        self.rules.append(rule)

    # -- verdict -----------------------------------------------------------
    def finish(self):
        wall = round(time.time() - self.t0, 2)
        listed = [f["id"] for f in self.findings]
        for k in [k for k in self.known if k.split(":")[0] not in listed]:
            self.known.remove(k)
            self.violations.append(dict(what=f"not a listed finding: {k}", source=None))
        viol = []
        for v in self.violations:
            if v not in viol:
                viol.append(v)
        d = os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(d, "replay"), exist_ok=True)
        out = []
        shown = set()
        for v in viol:
            text = json.dumps(v, indent=1, default=repr)
            name = f"{self.prop}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json"
            path = os.path.join(d, "replay", name)
            with open(path, "w") as fh:
                fh.write(text + "\n")
            k = v.get("what", "")[:60]
            if k in shown and len(out) >= 3:
                continue
            shown.add(k)
            tail = " no-failing-input-found" if v.get("no_input") else ""
            out.append((bool(tail), f"VIOLATION property={self.prop} replay={path}{tail}", v))
        out.sort(key=lambda x: x[0])
        if any(not o[0] for o in out):
            out = [o for o in out if not o[0]]
        obl = self.obligations
        evals = int(sum(v for k, v in self.counts.items() if k.endswith(": cases") and not k.startswith(("contracts", "evaluator"))))
        cov = {
            "evaluations": evals,
            "distinct_nontrivial": len(self.distinct),
            "rule": " | ".join(self.rules) or "no bounded part",
            "samples": self.samples or ["none"],
            "bounded_counts": {k: round(v, 2) for k, v in sorted(self.counts.items())},
        }
        if obl:
            done = [o for o in obl if o["status"] == "proved"]
            cov.update(
                obligations=len(obl),
                discharged=len(done),
                undischarged=[{k: o[k] for k in ("name", "status", "detail") if k in o} for o in obl if o["status"] != "proved"][:80],
                checker_cmd=f"python3-vt /verif/check.py {self.prop} {self.tier}",
                back_ends=dict(collections.Counter(o.get("backend", "?") for o in done)),
                solver_seconds=round(sum(o.get("seconds", 0) for o in obl), 2),
                solver_queries=sum(o.get("queries", 0) for o in obl),
                paths_compared=sum(o.get("paths", 0) for o in obl),
                taken_by_contract=sorted({f for o in obl for f in o.get("contracts", ())}),
                functions_under_contract=sorted({f for o in obl for f in o.get("functions", ())}),
                trusted_base=TRUSTED,
                obligation_names=[o["name"] for o in obl][:400],
            )
        level = "proof" if obl else "exploration"
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
            "assumptions": self.assumptions + self.notes, "wall_s": wall, "violations": len(viol),
        }
        with open(os.path.join(d, f"{self.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=repr)
            fh.write("\n")
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        print(f"{self.prop} {self.tier}: {evals} bounded cases, {len(self.distinct)} distinct, "
              f"{len(obl)} obligations, {sum(o['status'] == 'proved' for o in obl)} discharged, {wall} s")
        for _, line, v in out[:8]:
            print(line)
            print("   ", str(v.get("what", ""))[:400].replace("\n", " | "))
        if out:
            return 1
        if self.errors:
            print("CHECK ERROR\n" + "\n".join(self.errors[:3]))
            return 3
        if not evals and not obl:
            print("CHECK ERROR: nothing was checked")
            return 3
        return 0


TRUSTED = [
    "CPython 3.12 (the interpreter used to evaluate concrete calls)",
    "z3",
    "/verif/tlv/avm.py: the meaning of TEAL instructions, written from the AVM documentation",
    "/verif/tlv/pyver: the symbolic evaluator and obligation generator",
    "textX and Arpeggio (expression parsing), Cryptodome, click",
]


def load_findings():
    """known_findings.txt: 'finding: property=<id> id=<name> <what>' and 'fixed: property=<id> <commit> <what>'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(("finding:", "fixed:")):
                kind, rest = l.split(":", 1)
                parts = rest.split(None, 2)
                out.append(dict(kind=kind, property=parts[0].split("=")[1], id=parts[1].split("=")[-1], what=parts[2]))
    return out


def key(*parts):
    return hashlib.sha1(repr(parts).encode()).hexdigest()[:12]
