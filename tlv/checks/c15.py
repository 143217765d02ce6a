"""C15 The result depends only on the source text"""
import glob
import os
import pickle
import random
import shutil
import signal
import socket
import socketserver
import tempfile

from .. import env, gen
from ..harness import Violation, key
from . import c11, c12

import tealish
from tealish.errors import CompileError, ParseError

BAD = ["exit(", "if 1:", "exit(x)", "struct S:\na: int", "struct S:\na: int\nend\nexit(s.a)", "S s = bzero(8)\nexit(1)", "box<S> b = Box(\"a\")\nexit(1)", "func f(a: S) S:\nreturn a\nend", "exit(1)\nfunc f(a: S) S:\nreturn a\nend",
       "struct Item:\nid: nope\nend\nexit(1)", "struct S:\na: int\nend\nS s = bzero(9)\nexit(1)", "exit(C)", "jump nope", "exit(f())", "assert(1, \"m\")\nint x = \"a\"\nexit(1)", "inner_group:\ninner_txn:\nFee: y\nend\nend\nexit(1)",
       "block a:", "router:\nf\nend", "log(SizeOf(S))\nexit(1)", "exit(SizeOf(S))", "exit(SizeOf(Item))", "box<Item> b = OpenBox(\"a\")\nlog(b.a)\nexit(1)"]
GOOD = ["struct S:\na: int\nend\nS s = bzero(8)\nexit(s.a)", "struct S:\nb: bytes[3]\na: uint8\nend\nS s = bzero(4)\nexit(s.a)", "struct S:\na: bytes[5]\nend\nstruct R:\ns: S\nend\nR r = bzero(5)\nlog(r.s)\nexit(SizeOf(R))",
        "struct Item:\na: int\nb: int\nend\nbox<Item> b = Box(\"a\")\nexit(b.b)", "const int C = 5\nexit(C)", "const int C = 6\nconst bytes D = \"d\"\nexit(C)", "inner_group:\ninner_txn:\nFee: 0\nend\nend\nexit(1)", "inner_txn:\nFee: 0\nend\nexit(1)",
        "if 1:\nexit(2)\nend\nassert(1, \"m\")\nexit(3)", "router:\nf\nend\n@public()\nfunc f(a: int) int:\nreturn a\nend", "router:\nf\nend\n@public(OnCompletion=OptIn)\nfunc f(b: bytes):\nreturn\nend", "exit(f(1))\nfunc f(a: int) int:\nint x = a\nreturn x\nend",
        "int x\nint y\nx, y = mulw(1, 2)\nexit(x)", "#pragma version 6\nexit(1)", "#pragma version 8\nassert(0, \"e\")\nexit(1)", "exit(1)\nblock a:\nint x = 1\nexit(x)\nend\nblock b:\nint y = 2\nexit(y)\nend"]


def text(m):
    return {"pc": dict(m.pc_teal), "teal": dict(m.teal_tealish), "errors": dict(m.errors), "dict": m.as_dict(), "reverse": m.tealish_teal}


def result(kind, src):
    with env.quiet():
        try:
            if kind == "compile":
                teal, m = tealish.compile_program(src)
                return list(teal), text(m)
            if kind == "format":
                return tealish.reformat_program(src)
            return tealish.inspect_program(src)
        except Exception as e:
            return type(e).__name__, str(e)


class Server(socketserver.ForkingMixIn, socketserver.UnixStreamServer):
    """forked before anything is compiled; answers each request in a fork of its own"""

    request_queue_size = 256
    max_children = 200


class Answer(socketserver.StreamRequestHandler):
    def handle(self):
        self.wfile.write(pickle.dumps(result(*pickle.load(self.rfile))))


SOCKET = None


def start():
    global SOCKET
    d = tempfile.mkdtemp(prefix="tlv-c15-")
    SOCKET = os.path.join(d, "s")
    server = Server(SOCKET, Answer)
    pid = os.fork()
    if pid == 0:
        try:
            server.serve_forever()
        finally:
            os._exit(0)
    server.server_close()
    return d, pid


def fresh(kind, src):
    """the result in a process that has compiled nothing before"""
    with socket.socket(socket.AF_UNIX) as s:
        s.connect(SOCKET)
        s.sendall(pickle.dumps((kind, src)))
        data = b""
        while x := s.recv(1 << 16):
            data += x
    return pickle.loads(data)


KINDS = ("compile", "format", "inspect")


def objects(src):
    """a compiler object's phases, as the library offers them"""
    return tealish.TealishCompiler(src.split("\n"))


def phase(c, op):
    with env.quiet():
        try:
            if op == "compile":
                return list(c.compile()), text(c.get_map())
            if op == "reformat":
                return c.reformat()
            if op == "parse":
                return c.parse()
            if op == "process":
                return c.process()
        except Exception as e:
            return type(e).__name__, str(e)


def history(a):
    """one long history in one process; each result equals the fresh one"""
    seed, n, pool = a
    r = random.Random(seed)
    srcs = r.sample(pool, min(len(pool), 7))
    if seed % 4 == 0:
        srcs += [gen.Gen(seed + i, depth=2, stmts=5, funcs=2, blocks=1).program().source() for i in range(2)]
    want = {(k, s): fresh(k, s) for s in srcs for k in KINDS}
    done = []

    def bad(what, src):
        raise Violation(f"{what}: not the result of a fresh process", src, history=done[-30:])

    live = []
    for _ in range(n):
        s = r.choice(srcs)
        k = r.random()
        if k < 0.45:
            kind = r.choice(KINDS)
            done.append([kind, s])
            if result(kind, s) != want[kind, s]:
                bad(kind, s)
        elif k < 0.6 or not live:
            live.append([objects(s), s, "new"])
            done.append(["object", s])
        else:
            o = r.choice(live)
            c, s, st = o
            if st == "new":
                ops = ["parse", "compile", "reformat"]
            elif st == "parsed":
                ops = ["process", "compile", "reformat"]
            else:
                ops = ["compile", "reformat"]
            op = r.choice(ops)
            done.append(["object." + op, s])
            x = phase(c, op)
            kind = {"compile": "compile", "reformat": "format"}.get(op)
            if kind:
                w = want[kind, s]
                if op == "reformat" and isinstance(x, str):
                    x = x.strip() + "\n"
                if x != w:
                    bad(f"object.{op}", s)
                if isinstance(x, tuple) and isinstance(x[0], str):
                    live.remove(o)
                else:
                    o[2] = "compiled"
            elif isinstance(x, tuple):
                if x not in (want["compile", s], want["format", s]):
                    bad(f"object.{op}", s)
                live.remove(o)
            else:
                o[2] = "parsed" if op == "parse" else "processed"
    return {"steps": n, "key": key(*[repr(x) for x in done]), "sample": done[:6]}


def twice(src):
    """results given out earlier do not change, and giving them out again gives the same"""
    for kind in KINDS:
        w = fresh(kind, src)
        a = result(kind, src)
        b = result(kind, src)
        if not a == b == w:
            raise Violation(f"{kind}: the second result differs from the first or from a fresh one", src)
    c = objects(src)
    x = phase(c, "compile")
    if isinstance(x[0], str):
        def error(c, ops):
            """the error of the first phase that fails"""
            for op in ops:
                z = phase(c, op)
                if isinstance(z, tuple) and isinstance(z[0], str):
                    return z

        for again in (["compile"], ["parse", "process", "compile"], ["reformat"], ["parse", "process"]):
            w = error(objects(src), again)
            for before in (["compile"], ["reformat"], ["parse"], ["parse", "parse"], ["parse", "process"], ["parse", "process", "process"]):
                c2 = objects(src)
                error(c2, before)
                if error(c2, again) != w:
                    raise Violation(f"{', '.join(again)} after {', '.join(before)} on one object: not the result on a new one", src)
        return {"programs": 1, "key": key(src)}
    for ops in (["parse", "parse"], ["parse", "process", "process"], ["parse", "process", "parse"]):
        c2 = objects(src)
        for op in ops + ["compile"]:
            y = phase(c2, op)
        if y != x:
            raise Violation(f"{', '.join(ops)}, compile on one object gives another result", src)
    for op in ("compile", "reformat", "compile", "compile"):
        y = phase(c, op)
        if op == "compile" and y != x:
            raise Violation("compile() again on one object gives another result", src)
    with env.quiet():
        teal, m = tealish.compile_program(src)
        before = (list(teal), text(m))
        for s in BAD + GOOD:
            result("compile", s)
    if (list(teal), text(m)) != before:
        raise Violation("a result changes when other programs are compiled", src)
    return {"programs": 1, "key": key(src)}


def pairs(a):
    """every pair: a then b gives b's fresh result; interleaved phases too"""
    x, y = a
    for kind in KINDS:
        w = fresh(kind, y)
        for first in KINDS:
            result(first, x)
            if result(kind, y) != w:
                raise Violation(f"{kind} after {first} of another program: not the result of a fresh process", y, before=x)
    wx, wy = fresh("compile", x), fresh("compile", y)
    for order in ("pP cC", "pPqQ cC", "pP Cc", "pPq cC", "pPqQ Cc", "pqP cC", "pPQ Cc"):
        cs = {"p": objects(x), "P": objects(y)}
        dead = set()
        for ch in order.replace(" ", ""):
            who = "p" if ch in "pqc" else "P"
            if who in dead:
                continue
            op = {"p": "parse", "q": "process", "c": "compile"}[ch.lower()]
            z = phase(cs[who], op)
            w = wx if who == "p" else wy
            if op == "compile":
                if z != w:
                    raise Violation(f"phases {order} of two compiler objects: not the result of a fresh process", x if who == "p" else y, other=y if who == "p" else x)
            elif isinstance(z, tuple):
                if z != w:
                    raise Violation(f"phases {order}: the error is not that of a fresh process", x if who == "p" else y, other=y if who == "p" else x)
                dead.add(who)
    return {"pairs": 1, "key": key(x, y)}


def run(c):
    files = sorted(glob.glob(os.path.join(env.REPO, "examples/**/*.tl"), recursive=True) + glob.glob(os.path.join(env.REPO, "tests/**/*.tl"), recursive=True))
    srcs = [open(f).read() for f in files]
    small = BAD + GOOD
    pool = small + srcs + list(c11.CASES)
    c.bounded("all ordered pairs of 38 small programs (valid, invalid, sharing struct and constant names) through the three entry points and seven interleavings of the phases of two compiler objects; "
              "random histories of up to 60 steps over the repository's programs and generated ones, every result compared with that of a fresh process; non-trivial: distinct history")
    d, pid = start()
    try:
        ps = [(x, y) for x in small for y in small]
        c.run(pairs, random.Random(c.seed).sample(ps, 700) if c.quick else ps, "pairs", c.scale(25, 200))
        c.run(twice, pool, "repeated", c.scale(25, 100))
        c.run(history, [(c.seed * 7001 + i, c.scale(40, 80), pool) for i in range(c.scale(160, 2500))], "histories", c.scale(30, 300))
    finally:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        shutil.rmtree(d)
