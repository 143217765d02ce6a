"""C17: the commands, over the contracts of the library (C10-C16), of the assemblers and of the file system (files.py).

The commands are taken from the command group itself, with their arguments as click makes them."""
import inspect as pyinspect
import os
import tempfile

import click
import z3

import tealish
from tealish import build as tbuild
from tealish import cli as tcli
from tealish.errors import CompileError, ParseError

from .domain import Refuted, runs
from .files import B, CONTENT, EachFile, File, Files, Fn, I, Loops, Path, STR, lines_in, text_of
from .values import *  # noqa: F401,F403

ASSUMPTIONS = ["reading, writing, seeking and truncating files, json.dumps and click do what they say; the folder 'build' is no file, no two names are one file",
               "the name of a source file ends in .tl and has no .tl before that", "an accepted program has a line of TEAL"]

TEAL = z3.Function("line of TEAL for", STR, I, STR)
LINES = z3.Function("number of lines of TEAL for", STR, I)
PRINTED = z3.Function("formatted", STR, STR)


class MapObj:
    """the map the library returns, and what it was updated from"""

    pyver_symbolic = True

    def __init__(self, src):
        self.src, self.updates = src, []

    def sym_getattr(self, ip, name):
        if name == "update_from_teal_sourcemap":
            def update(ip, sm):
                self.updates.append(ip.resolve(sm))
            return Fn(update)
        if name == "as_dict":
            return Fn(lambda ip: Opaque("dictionary of the map", attrs={"map": self, "updates": list(self.updates)}))
        raise Unsupported(f"TealishMap.{name}")


def rejects(ip, what, src):
    """a program is rejected with one of the two errors"""
    i = ip.ctx.decide(3, f"{what} accepts")
    if i:
        e = (CompileError, ParseError)[i - 1](f"the reason the program is rejected, {i}")
        ip.rejected = e
        raise PyRaise(e)


def source_of(ip, src):
    src = ip.resolve(src)
    if not is_str(src):
        raise Refuted(f"{src!r} is given to the library")
    ip.sources.append(src)
    return src


def compile_program(ip, source):
    src = source_of(ip, source)
    rejects(ip, "compile_program", src)
    z = zs(src)
    ip.ctx.assume(LINES(z) >= 1)
    m = MapObj(src)
    ip.maps.append(m)
    return (SList("teal", LINES(z), lambda i: Rope([Atom(TEAL(z, i if z3.is_expr(i) else z3.IntVal(i)))])), m)


def reformat_program(ip, source):
    src = source_of(ip, source)
    rejects(ip, "reformat_program", src)
    return Rope([Atom(PRINTED(zs(src)))])


def inspect_program(ip, source):
    src = source_of(ip, source)
    rejects(ip, "inspect_program", src)
    ip.description = {"structs": Opaque("structs of the program", attrs={"src": src})}
    return ip.description


def assembler(name):
    def f(ip, teal, *url):
        t = ip.resolve(teal)
        if not is_str(t):
            raise Refuted("something else than a text is assembled")
        if ip.ctx.decide(2, "the assembler works") == 1:
            ip.failed = OSError(f"the reason {name} gives")
            raise PyRaise(ip.failed)
        ip.assembled = (name, t, [ip.resolve(u) for u in url], Opaque("the code"), Opaque("the source map"))
        return ip.assembled[3], ip.assembled[4]
    return f


def dumps(ip, x, **kw):
    if set(kw) - {"indent", "sort_keys", "separators", "ensure_ascii"}:
        raise Unsupported("options of json.dumps")
    ip.texts += 1
    return Rope([Atom(z3.String(f"json {ip.texts}"), what=("json", ip.resolve(x)))])


def dump(ip, x, f, **kw):
    ip.call(ip.get_attr(f, "write"), [dumps(ip, x, **kw)], {})


def echo(ip, message=None, file=None, nl=True, err=False, color=None, **kw):
    ip.said.append(("err" if ip.resolve(err) or file is not None else "out", ip.to_str(message) if message is not None else ""))


def printed(ip, *a, **kw):
    if kw:
        raise Unsupported("options of print")
    ip.said.append(("out", mkstr(Rope([x for i, v in enumerate(a) for x in ([" "] if i else []) + [ip.to_str(v)]]))))


def exit_(ip, code=0):
    raise PyRaise(SystemExit(code))


def replace(ip, t, old, new, *n):
    """of .tl in the name of a source file"""
    if isinstance(t, Rope) and old == ".tl" and isinstance(t.parts[-1], str) and t.parts[-1] == ".tl" and len(t.parts) == 2 and is_str(new):
        return mkstr(Rope([t.parts[0], new]))
    return NotImplemented


def removesuffix(ip, t, s):
    if isinstance(t, Rope) and isinstance(t.parts[-1], str) and isinstance(s, str) and t.parts[-1].endswith(s) and s:
        return mkstr(Rope(list(t.parts[:-1]) + [t.parts[-1][: -len(s)]]))
    return NotImplemented


def split(ip, t, sep=None, n=-1):
    if isinstance(t, Rope) and sep == ".tl" and len(t.parts) == 2 and t.parts[-1] == ".tl":
        return [mkstr(Rope([t.parts[0]])), ""]
    if isinstance(t, Rope) and sep == "." and n == -1 and len(t.parts) == 2:
        # the name before its first dot
        return Opaque("parts of a name") if not hasattr(ip, "fs") else Parts(t)
    return NotImplemented


class Parts:
    pyver_symbolic = True

    def __init__(self, t):
        self.t = t

    def sym_getitem(self, ip, i):
        if ip.resolve(i) == 0:
            return Rope([Atom(z3.Function("before the first dot", STR, STR)(zs(self.t)))])
        raise Unsupported("part of a name")


def rsplit(ip, t, sep=None, n=-1):
    if isinstance(t, Rope) and len(t.parts) == 2 and t.parts[-1] == ".tl" and sep in (".", ".tl") and n == 1:
        return [mkstr(Rope([t.parts[0]])), "tl" if sep == "." else ""]
    return NotImplemented


def opener(ip, p, *a, **kw):
    return ip.fs.open(ip, ip.fs.path(ip, p), *a, **kw)


CONTRACTS = {
    "compile_program": compile_program, "reformat_program": reformat_program, "inspect_program": inspect_program,
    "assemble_with_goal": assembler("goal"), "assemble_with_algod": assembler("algod"),
    "Path": lambda ip, p: ip.fs.path(ip, p), "open": opener, "_io.open": opener, "io.open": opener,
    "json.dumps": dumps, "dumps": dumps, "json.dump": dump, "dump": dump,
    "click.utils.echo": echo, "echo": echo, "click.termui.secho": echo, "secho": echo, "exit": exit_, "sys.exit": exit_,
    "str.replace": replace, "str.removesuffix": removesuffix, "str.split": split, "str.rsplit": rsplit, "print": printed,
}


def prepare(ip):
    ip.fs, ip.said, ip.sources, ip.maps, ip.texts = Files(), [], [], [], 0
    ip.rejected = ip.failed = ip.assembled = ip.source = ip.description = None


def context(quiet):
    ctx = Opaque("context")
    ctx.attrs.update(obj={"quiet": quiet}, exit=Fn(exit_), ensure_object=Fn(lambda ip, t: ctx.attrs["obj"]))

    def fail(ip, message):
        raise PyRaise(click.UsageError(message))
    ctx.attrs["fail"] = Fn(fail)
    return ctx


def command(name):
    c = tcli.cli.commands.get(name)
    if c is None:
        raise Refuted(f"there is no command {name}")
    f = pyinspect.unwrap(c.callback)
    return c, f, f is not c.callback


def forms(name):
    """the arguments the command's function gets, for every choice of its flags: click's own parser"""
    c, *_ = command(name)
    flags = [[]] + [[o] for p in c.params for o in p.opts if isinstance(p, click.Option) and p.is_flag and o.startswith("--")]
    if any(p.name == "algod_url" for p in c.params):
        flags += [f + ["--algod-url", "URL"] for f in flags]
    out = []
    with tempfile.TemporaryDirectory(prefix="tlv-c17-") as d:
        p = os.path.join(d, "x.tl")
        with open(p, "w") as f:
            f.write("x")
        for fl in flags:
            ctx = c.make_context(name, fl + [p], obj={})
            out.append((fl, dict(ctx.params)))
            ctx.close()
    return c, out


def arguments(ip, c, params):
    """with unknown files in the place of the file"""
    top = Path(ip.fs, None, "folder of the source", folder=True)
    ip.source = Path(ip.fs, top, Rope([Atom(z3.String("name without .tl")), ".tl"]))
    ip.fs.there[ip.fs.key(ip, ip.source)] = True
    args = {}
    for p in c.params:
        if isinstance(p.type, click.Path):
            args[p.name] = ip.source if p.type.type is not None else ip.source.sym_str(ip)
        elif isinstance(p.type, click.File):
            ip.source.folder = False
            if p.type.atomic:
                raise Unsupported("a file replaced at once")
            args[p.name] = File(ip, ip.fs, ip.source, p.type.mode.replace("t", ""))
        else:
            args[p.name] = params[p.name]
    return args


def build(name, params, quiet):
    c, f, with_context = command(name)

    def go(ip):
        prepare(ip)
        args = arguments(ip, c, params)
        return ip.call(f, [context(quiet)] if with_context else [], args)
    return go


def name_of(ip):
    """the source's name without .tl"""
    return Rope([ip.source.nm.parts[0]])


def message(ip, e):
    """what the user reads"""
    out = [t for where, t in ip.said]
    if isinstance(e, click.ClickException):
        a = e.args[0] if e.args else getattr(e, "message", "")
        out.append(ip.to_str(a))
    return out


def reported(ip, e, reason, what):
    if isinstance(e, SystemExit):
        if e.code in (0, None, False):
            raise Refuted(f"{what}: the command succeeds")
    elif not isinstance(e, click.ClickException):
        raise Refuted(f"{what}: {type(e).__name__} and no report")
    if not any(isinstance(t, str) and str(reason) in t or isinstance(t, Rope) and any(isinstance(p, str) and str(reason) in p for p in t.parts) for t in message(ip, e)):
        raise Refuted(f"{what}: the reason is not reported")


def the_source(ip):
    """the library was asked for the whole source, and nothing else"""
    if not ip.sources:
        raise Refuted("the library is not asked")
    want = CONTENT(zs(ip.source.nm))
    for s in ip.sources:
        if not ip.ctx.valid(zs(s) == want):
            raise Refuted(f"the library is given {s!r}")


def is_teal(ip, parts, what):
    t = text_of(ip, parts)
    is_teal_text(ip, t, what)


def is_teal_text(ip, t, what):
    l = lines_in(t) if t is not None else None
    if l is None:
        raise Refuted(f"{what} is not the lines of TEAL: {t!r}")
    m, rope, _ = l
    src = CONTENT(zs(ip.source.nm))
    if not ip.ctx.valid(m.n == LINES(src)):
        raise Refuted(f"{what} has another number of lines than the TEAL of the library")
    i = m.k
    if not ip.ctx.valid(z3.Implies(z3.And(i >= 0, i < m.n), rope.z() == TEAL(src, i))):
        raise Refuted(f"{what} has another line than the TEAL of the library: {rope!r}")


def output(ip, suffix):
    """this file of the folder build beside the source"""
    return ip.fs.key(ip, Path(ip.fs, Path(ip.fs, ip.source.up, "build"), mkstr(Rope([name_of(ip), suffix]))))


def written(ip, want):
    """exactly these files have changed"""
    left = ip.fs.changed()
    out = {}
    for suffix in want:
        k = output(ip, suffix)
        if k not in left:
            raise Refuted(f"no {suffix} is written")
        out[suffix] = left.pop(k)
    if left:
        raise Refuted(f"another file is changed: {list(left)}")
    return out


def untouched(ip, allowed=()):
    ks = {output(ip, s) for s in allowed}
    bad = [k for k in ip.fs.changed() if k not in ks]
    if bad:
        raise Refuted(f"a file is changed: {bad[0]}")


def built(assembled):
    """what compile and build leave of one file"""
    def check(ip):
        the_source(ip)
        ws = written(ip, [".teal"] + ([".teal.tok", ".map.json"] if assembled else []))
        is_teal(ip, ws[".teal"], "the .teal file")
        if not assembled:
            return
        if ip.assembled is None or ip.assembled[0] != assembled[0]:
            raise Refuted(f"{assembled[0]} is not used")
        _, text, url, code, sm = ip.assembled
        if list(url) != list(assembled[1]):
            raise Refuted(f"the assembler is given {url}")
        is_teal_text(ip, text, "what is assembled")
        if ws[".teal.tok"] != [code]:
            raise Refuted("the .tok file is not the assembled code")
        t = text_of(ip, ws[".map.json"])
        what = t.parts[0].what if isinstance(t, Rope) and len(t.parts) == 1 and isinstance(t.parts[0], Atom) else None
        if not (isinstance(what, tuple) and what[0] == "json" and isinstance(what[1], Opaque) and what[1].name == "dictionary of the map"):
            raise Refuted("the .map.json file is not the map")
        d = what[1].attrs
        if d["map"] not in ip.maps or d["map"] is not ip.maps[-1] or d["updates"] != [sm]:
            raise Refuted("the map is not that of the program and the assembled code")
    return check


def outcomes(o, name, params, check, assembled=None, told=None):
    n = 0
    for quiet in (True, False):
        kinds = set()
        for r in runs(o, build(name, params, quiet), CONTRACTS, loops=Loops(EachFile(check))):
            ip = r.ip
            n += 1
            if r.kind == "cut":
                kinds.add("folder")
                continue
            if r.kind == "ok":
                if ip.rejected is not None or ip.failed is not None:
                    raise Refuted("the command succeeds without a result")
                if ip.source is None:  # after the files of a folder
                    if ip.fs.changed():
                        raise Refuted("files are changed after all")
                    continue
                kinds.add("ok")
                check(ip)
                continue
            if ip.rejected is not None:
                kinds.add("rejected")
                the_source(ip)
                reported(ip, r.value, ip.rejected, "a rejected program")
                untouched(ip)
            elif ip.failed is not None:
                kinds.add("failed")
                reported(ip, r.value, ip.failed, "the assembler fails")
                untouched(ip, [".teal"])
            else:
                raise Refuted(f"an accepted program gives {r.value!r}")
        if not {"ok", "rejected"} | ({"failed"} if assembled else set()) <= kinds:
            raise Refuted(f"only {sorted(kinds)}")
    return n


def compile_(o):
    c, fs = forms("compile")
    return sum(outcomes(o, "compile", p, built(None)) for _, p in fs)


def build_(o):
    c, fs = forms("build")
    n, seen = 0, set()
    for fl, p in fs:
        want = "goal" if "--goal" in fl else "algod"
        if "--sandbox" in fl:
            continue
        seen.add(want)
        n += outcomes(o, "build", p, built((want, ["URL" if "URL" in fl else "https://testnet-api.algonode.cloud"] if want == "algod" else [])), assembled=True)
    if seen != {"goal", "algod"}:
        raise Refuted("an assembler cannot be chosen")
    return n


def format_(o):
    def check(ip):
        the_source(ip)
        left = ip.fs.changed()
        parts = left.pop(ip.fs.key(ip, ip.source), None)
        if left or parts is None:
            raise Refuted("another file is changed" if left else "the file is not replaced")
        t = text_of(ip, parts)
        if t is None or not ip.ctx.valid(zs(t) == PRINTED(CONTENT(zs(ip.source.nm)))):
            raise Refuted(f"the file is {t!r}, not the formatted text")
    return sum(outcomes(o, "format", p, check) for _, p in forms("format")[1])


def inspect_(o):
    def check(ip):
        the_source(ip)
        untouched(ip)
        out = [t for w, t in ip.said if w == "out"]
        t = out[0] if len(out) == 1 else None
        what = t.parts[0].what if isinstance(t, Rope) and len(t.parts) == 1 and isinstance(t.parts[0], Atom) else None
        if not (isinstance(what, tuple) and what[0] == "json" and what[1] == ip.description and what[1] is not None):
            raise Refuted(f"{out} is printed, not the description")
    return sum(outcomes(o, "inspect", p, check) for _, p in forms("inspect")[1])


def group(o):
    """quiet is what the commands see of the flag"""
    f = pyinspect.unwrap(tcli.cli.callback)
    n = 0
    for q in (True, False):
        ctx = context(None)
        ctx.attrs["obj"] = {}

        def go(ip):
            prepare(ip)
            return ip.call(f, [ctx], {"quiet": q})
        for r in runs(o, go, CONTRACTS):
            if r.kind != "ok" or ctx.attrs["obj"].get("quiet") is not q:
                raise Refuted("the flag is lost")
            n += 1
    return n


# -- the assemblers --------------------------------------------------------------------------------------
def code_of(t):
    return Opaque("the assembled code", attrs={"of": t})


def json_value(ip, f):
    x = ip.resolve(ip.call(ip.get_attr(f, "read"), [], {}))
    return parsed(ip, x)


def parsed(ip, x):
    p = x.parts[0] if isinstance(x, Rope) and len(x.parts) == 1 else None
    if isinstance(p, Atom) and isinstance(p.what, tuple) and p.what[0] == "json":
        return p.what[1]
    raise Unsupported("json of another text")


class Result:
    """the answer of algod"""

    pyver_symbolic = True

    def __init__(self, text, with_map):
        self.text, self.with_map = text, with_map

    def sym_getitem(self, ip, k):
        k = ip.resolve(k)
        if k == "result":
            return Opaque("base64 of the code", attrs={"of": self.text})
        if k == "sourcemap" and self.with_map:
            return Opaque("the source map", attrs={"of": self.text})
        if k == "hash":
            return Opaque("hash")
        raise PyRaise(KeyError(k))


class Client:
    pyver_symbolic = True

    def __init__(self, token, url):
        self.token, self.url = token, url

    def sym_getattr(self, ip, name):
        if name != "compile":
            raise Unsupported(f"AlgodClient.{name}")

        def compile_(ip, source, source_map=False, **kw):
            ip.asked.append((self.token, self.url))
            if ip.ctx.decide(2, "algod works") == 1:
                ip.failed = OSError("algod fails")
                raise PyRaise(ip.failed)
            return Result(ip.resolve(source), ip.resolve(source_map) is True)
        return Fn(compile_)


def b64(ip, x):
    x = ip.resolve(x)
    if isinstance(x, Opaque) and x.name == "base64 of the code":
        return code_of(x.attrs["of"])
    raise Unsupported("b64decode")


def source_map(ip, d):
    d = ip.resolve(d)
    if isinstance(d, Opaque) and d.name == "the source map":
        return Opaque("SourceMap", attrs={"of": d.attrs["of"]})
    raise Refuted(f"the source map is made of {d!r}")


def run_goal(ip, cmd, **kw):
    import subprocess

    cmd = [ip.resolve(x) for x in ip.resolve(cmd)]
    i = ip.ctx.decide(3, "goal works")
    if i:
        ip.failed = [FileNotFoundError("goal"), subprocess.CalledProcessError(1, "goal", output=b"goal's message")][i - 1]
        raise PyRaise(ip.failed)
    data = ip.resolve(kw.get("input"))
    if not (isinstance(data, Opaque) and data.name == "bytes of text"):
        raise Unsupported("the input of goal")
    if cmd[:3] != ["goal", "clerk", "compile"] or "-o" not in cmd or "-" not in cmd:
        raise Unsupported(f"{cmd}")
    out = cmd[cmd.index("-o") + 1]
    f = ip.fs.open(ip, ip.fs.path(ip, out), "wb")
    f.write(ip, code_of(data.attrs["text"]))
    if "--map" in cmd or "-m" in cmd:
        f = ip.fs.open(ip, ip.fs.path(ip, mkstr(Rope([out, ".map"])) if not isinstance(out, str) else out + ".map"), "w")
        f.write(ip, Rope([Atom(z3.String("json of the map"), what=("json", Opaque("the source map", attrs={"of": data.attrs["text"]})))]))
    return b"" if False else Opaque("output of goal")


ASSEMBLERS = {**{k: v for k, v in CONTRACTS.items() if not k.startswith("assemble")}, "check_output": run_goal, "subprocess.check_output": run_goal,
              "json.load": json_value, "load": json_value, "json.loads": lambda ip, x: parsed(ip, ip.resolve(x)), "loads": lambda ip, x: parsed(ip, ip.resolve(x)),
              "AlgodClient": lambda ip, token, url, *a: Client(ip.resolve(token), ip.resolve(url)), "b64decode": b64, "SourceMap": source_map}


def assembles(o, f, args, asked=None):
    """the code and the source map of this text, or an exception"""
    text = Rope([Atom(z3.String("the TEAL"))])
    kinds = set()
    n = 0

    def go(ip):
        prepare(ip)
        ip.asked = []
        return ip.call(f, [text] + args, {})
    for r in runs(o, go, ASSEMBLERS):
        n += 1
        if r.ip.failed is not None:
            if r.kind != "raise":
                raise Refuted("a failure is not told")
            kinds.add("failed")
            continue
        if r.kind != "ok":
            raise Refuted(f"{r.value!r} though all went well")
        v = r.ip.resolve(r.value)
        code, sm = [r.ip.resolve(x) for x in v]
        for x, name in ((code, "the assembled code"), (sm, "SourceMap")):
            if not (isinstance(x, Opaque) and x.name == name):
                raise Refuted(f"{x!r} is not {name}")
            if not is_str(x.attrs["of"]) or not r.ctx.valid(zs(x.attrs["of"]) == zs(text)):
                raise Refuted(f"{name} of another text")
        if asked is not None and r.ip.asked != [asked]:
            raise Refuted(f"algod is asked at {r.ip.asked}")
        kinds.add("ok")
    if kinds != {"ok", "failed"}:
        raise Refuted(f"only {kinds}")
    return n


def goal(o):
    return assembles(o, tbuild.assemble_with_goal, [])


def algod(o):
    """(the form of the URL: three examples)"""
    return sum(assembles(o, tbuild.assemble_with_algod, [u], a) for u, a in (("https://a.b", ("", "https://a.b")), ("http://localhost:4001#aaa", ("aaa", "http://localhost:4001")), ("x", ("", "x"))))


OBLIGATIONS = [("assemble_with_goal", goal), ("assemble_with_algod (bounded: three URLs)", algod), ("compile", compile_, 120), ("build", build_, 120), ("format", format_), ("inspect", inspect_), ("quiet", group)]
