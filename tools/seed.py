"""Make the planted bugs of /verif/seeded from tools/seeds.py and confirm each in a scratch copy.
usage: seed.py [ids...]   (writes /verif/seeded/<id>/; prints what is wrong with those that do not count)"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("seeds", os.path.join(HERE, "seeds.py"))
seeds = importlib.util.module_from_spec(spec)
spec.loader.exec_module(seeds)
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def mine(path):
    """texts of lines of /repo's file that my own commits added"""
    out = sh(f"git -C /repo blame -s ab5ec1f..HEAD -- tealish/{path}").stdout.split("\n")
    return {i + 1 for i, l in enumerate(out) if l and not l.startswith("^")}


def make(b):
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        work = os.path.join(d, "repo")
        sh(f"cp -a /repo {work}")
        touched = []
        for f, old, new in b["edits"]:
            p = os.path.join(work, "tealish", f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"text found {s.count(old)} times in {f}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"git -C {work} diff").stdout
        # removed lines must be original
        cur, line, bad = None, 0, []
        for l in diff.split("\n"):
            if l.startswith("--- a/"):
                cur = l[6:].replace("tealish/", "", 1)
                own = mine(cur)
            elif l.startswith("@@"):
                line = int(l.split("-")[1].split(",")[0].split(" ")[0])
            elif l.startswith("-"):
                if line in own:
                    bad.append((cur, line, l))
                touched.append(line)
                line += 1
            elif l.startswith(" "):
                line += 1
        if bad:
            return f"removes lines of my own commits: {bad[:2]}"
        if not touched:
            return "removes no original line"
        out = os.path.join(HERE, "..", "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + b["demo"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        # demo on clean and patched
        dd = os.path.join(d, "demo")
        shutil.copytree(out, dd)
        r = sh(f"sh {dd}/demo.sh", cwd="/repo")
        if r.returncode:
            return f"demo fails on the clean tree: {r.stdout[-300:]} {r.stderr[-600:]}"
        r = sh(f"sh {dd}/demo.sh", cwd=work)
        if not r.returncode:
            return "demo passes on the patched tree"
        tail = (r.stderr.strip().split("\n") or [""])[-1]
        t = sh(f"PYTHONPATH={work} /opt/venv/bin/python -m pytest -q --no-header -p no:cacheprovider --timeout=300 -o 'python_files=test*.py' tests 2>&1 | tail -4", cwd=work)
        import re
        if re.search(r"\d+ failed|\d+ error", t.stdout) or "98 passed" not in t.stdout:
            return f"tests: {t.stdout[-300:]}"
        return f"ok ({tail[:100]}) {t.stdout.strip().splitlines()[-1]}"
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    want = sys.argv[1:]
    for b in seeds.BUGS:
        if not want or b["id"] in want:
            print(b["id"], make(b), flush=True)
