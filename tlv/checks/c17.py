"""C17 Command-line tools write exactly the library's results or nothing"""
import base64
import glob
import json
import os
import pathlib
import random
import shutil
import tempfile

from .. import env, gen
from ..harness import Violation, key
from . import c11, c12, c15

import tealish
from click.testing import CliRunner
from tealish import build as tbuild
from tealish import cli as tcli
from tealish.errors import CompileError, ParseError


class Stub:
    """stands in for the external assembler: a code and a source map that depend on the whole text"""

    def __init__(self, fail=False):
        self.fail, self.seen = fail, []

    def __call__(self, teal, *a):
        from algosdk.source_map import SourceMap

        self.seen.append((teal, a))
        if self.fail:
            raise Exception("assembler failed")
        return code(teal), SourceMap(smap(teal))


def code(teal):
    import hashlib

    return b"\x08" + hashlib.sha256(teal.encode()).digest() + b"\x00\xff"


def smap(teal):
    n = len(teal.split("\n"))
    table = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdef"
    # pc k belongs to line k (VLQ: one line further each time)
    return {"version": 3, "sources": [], "names": [], "mapping": ";".join(["AAAA"] + ["AACA"] * (n - 1)), "mappings": ";".join(["AAAA"] + ["AACA"] * (n - 1))}


def library(src):
    with env.quiet():
        try:
            teal, m = tealish.compile_program(src)
            return "\n".join(teal + [""]), m
        except (CompileError, ParseError) as e:
            return None, str(e)


def rejected(what, src):
    """the library's error for the command, if it rejects the text"""
    with env.quiet():
        try:
            {"format": tealish.reformat_program, "inspect": tealish.inspect_program}.get(what, tealish.compile_program)(src)
        except (CompileError, ParseError) as e:
            return str(e) or "error"


def snapshot(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def cli(args):
    with env.quiet():
        r = CliRunner().invoke(tcli.cli, args, obj={})
    return r


def fail(what, src, **k):
    raise Violation(what, src, **k)


def command(a):
    """one file, every command, with and without earlier output"""
    src, name, old, seed = a
    r = random.Random(seed)
    n = 0
    want, m = library(src)
    for what in ("compile", "build-algod", "build-goal", "build-fails", "format", "inspect"):
        d = tempfile.mkdtemp(prefix="tlv-c17-")
        try:
            f = os.path.join(d, name + ".tl")
            with open(f, "w", newline="") as fh:
                fh.write(src)
            if old is not None:
                os.mkdir(os.path.join(d, "build"))
                for ext in (".teal", ".teal.tok", ".map.json"):
                    with open(os.path.join(d, "build", name + ext), "w") as fh:
                        fh.write(old)
                with open(os.path.join(d, "build", "other.teal"), "w") as fh:
                    fh.write("other")
            with open(os.path.join(d, "note.txt"), "w") as fh:
                fh.write("keep")
            before = snapshot(d)
            stub = Stub(fail=what == "build-fails")
            tcli.assemble_with_algod = tcli.assemble_with_goal = stub
            opts = ["-q"] if r.random() < 0.5 else []
            if what.startswith("build"):
                kind = "goal" if what == "build-goal" else "algod"
                url = ["--algod-url", "http://localhost:1#t"] if r.random() < 0.5 else []
                res = cli(opts + ["build", "--" + kind] + url + [f])
            else:
                res = cli(opts + [what, f])
            after = snapshot(d)
            read = src.replace("\r\n", "\n").replace("\r", "\n")
            if read != src:
                want, m = library(read)
            expected = dict(before)
            if rejected(what, read):
                if res.exit_code == 0:
                    fail(f"{what} succeeds on a rejected program", src)
                if res.exception is not None and not isinstance(res.exception, SystemExit):
                    fail(f"{what} crashes on a rejected program: {res.exception!r}", src)
                msg = rejected(what, read)
                if msg not in res.output:
                    fail(f"{what} does not report the error {msg!r}: {res.output!r}", src)
                if after != before:
                    fail(f"{what} of a rejected program changes files: {diff(before, after)}", src)
            else:
                if what == "compile":
                    expected[f"build/{name}.teal"] = want.encode()
                elif what in ("build-algod", "build-goal"):
                    if [t for t, _ in stub.seen] != [want]:
                        fail("build assembles another text than the library returns", src)
                    expected[f"build/{name}.teal"] = want.encode()
                    expected[f"build/{name}.teal.tok"] = code(want)
                    if f"build/{name}.map.json" not in after:
                        fail("build writes no map", src)
                    got = json.loads(after[f"build/{name}.map.json"])
                    lines = want.count("\n") + 1
                    wm = {"pc_teal": {str(k): k + 1 for k in range(lines)}, "teal_tealish": {str(k): v for k, v in m.teal_tealish.items()}, "errors": {str(k): v for k, v in m.errors.items()}}
                    if got != wm:
                        fail(f"build writes another map: {str(got)[:300]} instead of {str(wm)[:300]}", src)
                    expected[f"build/{name}.map.json"] = after[f"build/{name}.map.json"]
                elif what == "build-fails":
                    if res.exit_code == 0:
                        fail("build succeeds although the assembler fails", src)
                    expected[f"build/{name}.teal"] = after.get(f"build/{name}.teal")
                elif what == "format":
                    with env.quiet():
                        expected[name + ".tl"] = tealish.reformat_program(read).encode()
                elif what == "inspect":
                    with env.quiet():
                        w = tealish.inspect_program(read)
                    out = res.stdout
                    if json.loads(out) != json.loads(json.dumps(w)):
                        fail(f"inspect prints {out[:300]}", src)
                if what != "build-fails" and res.exit_code != 0:
                    fail(f"{what} fails: {res.output[-300:]} {res.exception!r}", src)
                if after != expected:
                    fail(f"{what} writes other files than the library's result: {diff(expected, after)}", src)
            n += 1
        finally:
            tcli.assemble_with_algod, tcli.assemble_with_goal = tbuild.assemble_with_algod, tbuild.assemble_with_goal
            shutil.rmtree(d)
    return {"commands": n, "rejected": want is None, "key": key(src, name, old), "sample": src[:600]}


def diff(a, b):
    return {k: (a.get(k, b"(none)")[-120:], b.get(k, b"(none)")[-120:]) for k in set(a) | set(b) if a.get(k) != b.get(k)}


def directory(seed):
    """a directory of programs: every accepted one is compiled, none is mixed up"""
    r = random.Random(seed)
    good = [s for s in c15.GOOD + list(c11.CASES) if library(s)[0] is not None]
    d = tempfile.mkdtemp(prefix="tlv-c17-")
    try:
        ps = {f"p{i}": r.choice(good) for i in range(r.randrange(1, 6))}
        bad = r.random() < 0.4
        if bad:
            ps["zbad"] = r.choice(c15.BAD)
            if library(ps["zbad"])[0] is not None:
                bad = False
        for n, s in ps.items():
            with open(os.path.join(d, n + ".tl"), "w") as f:
                f.write(s)
        os.mkdir(os.path.join(d, "build"))
        for n in ps:
            with open(os.path.join(d, "build", n + ".teal"), "w") as f:
                f.write("old")
        before = snapshot(d)
        res = cli(["compile", d])
        after = snapshot(d)
        if (res.exit_code != 0) != bad:
            fail(f"compile of a directory: exit status {res.exit_code}", json.dumps(ps))
        for n, s in ps.items():
            w, _ = library(s)
            got = after.pop(f"build/{n}.teal")
            if w is None and got != b"old":
                fail(f"the output of the rejected {n} changes", json.dumps(ps))
            if w is not None and got != w.encode() and not (bad and got == b"old"):
                fail(f"the output of {n} is not the library's", json.dumps(ps))
            before.pop(f"build/{n}.teal")
        if before != after:
            fail("compile of a directory changes other files", json.dumps(ps))
    finally:
        shutil.rmtree(d)
    return {"directories": 1, "key": key(seed)}


def unit(seed):
    """assemble_with_algod and assemble_with_goal hand over the text and hand back the answer"""
    r = random.Random(seed)
    teal = "".join(r.choice("abc \n;//\u00e9") for _ in range(40)) + "\n"
    seen = {}

    class Client:
        def __init__(self, token, url, *a, **k):
            seen["token"], seen["url"] = token, url

        def compile(self, text, source_map=False):
            seen["text"], seen["sm"] = text, source_map
            return {"result": base64.b64encode(code(text)).decode(), "sourcemap": smap(text)}

    old = tbuild.AlgodClient
    tbuild.AlgodClient = Client
    try:
        for url, tok in (("http://x:1", ""), ("http://x:1#tt", "tt")):
            bc, sm = tbuild.assemble_with_algod(teal, url)
            if (bc, seen["text"], seen["url"], seen["token"], seen["sm"]) != (code(teal), teal, "http://x:1", tok, True):
                fail(f"assemble_with_algod: {seen}", teal)
            if sm.pc_to_line != {k: k for k in range(len(teal.split("\n")))}:
                fail("assemble_with_algod: another source map", teal)
    finally:
        tbuild.AlgodClient = old
    return {"assemblers": 1, "key": key(seed)}


def run(c):
    c.bounded("each command on valid and invalid programs, with no, shorter and longer earlier output, in scratch directories, external assemblers replaced by stand-ins; "
              "files before and after compared byte for byte; directories of several programs; non-trivial: distinct source, name and earlier output")
    files = sorted(glob.glob(os.path.join(env.REPO, "examples/**/*.tl"), recursive=True) + glob.glob(os.path.join(env.REPO, "tests/**/*.tl"), recursive=True))
    srcs = [open(f).read() for f in files] + c15.GOOD + c15.BAD + list(c11.CASES) + c12.GARBAGE
    srcs += ["exit(1)" + " " * 3000 + "\n" * 500, "  \n\n\nexit(1)\n\n\n\n\n", "if 1:\n        \t     exit(1)     \nend          \nexit(0)" + " " * 500, "exit(1)\r\n", "if 1:\r\nexit(2)\r\nend\r\nexit(1)\r\n", "\ufeffexit(1)", 'log("\u00e9\u4e2d")\nexit(1)', ""]
    r = random.Random(c.seed)
    args = []
    for i, s in enumerate(srcs):
        for old in (None, "x", "old\n" * 3000):
            args.append((s, ["a", "my.prog", "x_y", "Q-1"][i % 4], old, i))
    if c.quick:
        r.shuffle(args)
        args = args[:500]
    c.run(command, args, "commands", c.scale(45, 300))
    c.run(command, [(gen.Gen(c.seed * 41 + i, depth=2, stmts=6, funcs=2, blocks=2).program().source(), "g", "old" if i % 2 else None, i) for i in range(c.scale(60, 1500))], "generated", c.scale(20, 200))
    c.run(directory, [c.seed * 4099 + i for i in range(c.scale(80, 800))], "directories", c.scale(15, 100))
    c.run(unit, range(20), "assembler calls")
