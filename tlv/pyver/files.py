"""Contracts of the file system and of pathlib, click and json, as far as the command line uses them.

A file is its content: a list of parts, each a text (Rope, str), bytes (Opaque), the old content (Old), or what is left of
older parts behind a write in the middle (Left).  Names of files are texts, folders are places in a tree over unknown
folders.  Trusted: that reading, writing, seeking, truncating and closing a file of Python do this."""
import z3

from . import maps
from .domain import Refuted
from .interp import PathEnd, fresh
from .values import *  # noqa: F401,F403

STR, B, I = z3.StringSort(), z3.BoolSort(), z3.IntSort()
CONTENT = z3.Function("content of", STR, STR)  # of the source file with this name
STEM = z3.Function("name without .tl", I, STR)


class Fn:
    """something to call"""

    pyver_symbolic = True

    def __init__(self, f, what="?"):
        self.f, self.what = f, what

    def sym_call(self, ip, args, kwargs):
        return self.f(ip, *args, **kwargs)

    def __repr__(self):
        return f"<{self.what}>"


class Left:
    """the rest of older parts, behind what was written over them"""

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return f"<left over of {self.parts}>"


class Path:
    pyver_symbolic = True

    def __init__(self, fs, parent, name, text=None, folder=None):
        self.fs, self.up, self.nm, self.txt, self.folder = fs, parent, name, text, folder

    def __repr__(self):
        return f"{self.up!r}/{self.nm!r}" if self.up is not None else f"<{self.nm}>"

    def key(self):
        return (self.up.key() if self.up is not None else (), self.nm if isinstance(self.nm, str) else str(z3.simplify(zs(self.nm))))

    def child(self, ip, name):
        name = ip.resolve(name)
        if isinstance(name, Path):
            raise Unsupported("joining of two paths")
        if isinstance(name, str) and "/" in name:
            raise Unsupported("several folders at once")
        return Path(self.fs, self, name)

    def sym_truediv(self, ip, other):
        return self.child(ip, other)

    def sym_str(self, ip):
        return Rope([Atom(z3.String(f"path {self.key()}"), what=self)])

    def sym_truth(self, ip):
        return True

    def sym_eq(self, ip, other):
        if not isinstance(other, Path):
            return False
        return self.key() == other.key() or (_ for _ in ()).throw(Unsupported("comparison of paths"))

    def sym_isinstance(self, ip, cls):
        import pathlib

        return any(issubclass(pathlib.PosixPath, c) for c in (cls if isinstance(cls, tuple) else (cls,)))

    def stem(self, ip):
        n = self.nm
        if isinstance(n, Rope) and isinstance(n.parts[-1], str) and "." in n.parts[-1]:
            i = n.parts[-1].rindex(".")
            return mkstr(Rope(list(n.parts[:-1]) + [n.parts[-1][:i]])), n.parts[-1][i:]
        if isinstance(n, str):
            import pathlib

            return pathlib.PurePosixPath(n).stem, pathlib.PurePosixPath(n).suffix
        raise Unsupported("the suffix of an unknown name")

    def sym_getattr(self, ip, name):
        if name == "parent":
            return self.up
        if name == "name":
            return self.nm
        if name == "stem":
            return self.stem(ip)[0]
        if name == "suffix":
            return self.stem(ip)[1]
        f = getattr(self, "m_" + name, None)
        if f is None:
            raise Unsupported(f"Path.{name}")
        return Fn(f, f"Path.{name}")

    def m_is_dir(self, ip):
        return self.fs.is_dir(ip, self)

    def m_is_file(self, ip):
        return not self.fs.is_dir(ip, self)

    def m_exists(self, ip):
        return self.fs.exists(ip, self)

    def m_absolute(self, ip):
        return self

    m_resolve = m_expanduser = m_absolute

    def m_joinpath(self, ip, *names):
        p = self
        for n in names:
            p = p.child(ip, n)
        return p

    def m_with_suffix(self, ip, s):
        return Path(self.fs, self.up, mkstr(Rope([self.stem(ip)[0], s])))

    def m_with_name(self, ip, s):
        return Path(self.fs, self.up, s)

    def m_mkdir(self, ip, mode=0o777, parents=False, exist_ok=False):
        if ip.resolve(exist_ok) is not True and self.fs.exists(ip, self):
            raise PyRaise(FileExistsError(str(self)))
        self.fs.folders.add(self.key())

    def m_glob(self, ip, pattern):
        if pattern != "*.tl":
            raise Unsupported(f"glob of {pattern!r}")
        return SList("files" if self is ip.source else "other files", z3.Int("number of files"), lambda i: self.fs.source(self, i))

    def m_open(self, ip, *a, **kw):
        return self.fs.open(ip, self, *a, **kw)

    def m_read_text(self, ip, **kw):
        return self.fs.open(ip, self, "r").read(ip)

    def m_read_bytes(self, ip):
        return self.fs.open(ip, self, "rb").read(ip)

    def m_write_text(self, ip, t, **kw):
        return self.fs.open(ip, self, "w").write(ip, t)

    def m_write_bytes(self, ip, t):
        return self.fs.open(ip, self, "wb").write(ip, t)


class Files:
    """the files of one run"""

    def __init__(self):
        self.files, self.folders, self.dirs, self.there = {}, set(), {}, {}
        self.paths = {}

    def key(self, ip, p):
        """the key of this file: names that must be the same are"""
        k = p.key()
        if k in self.paths:
            return k
        for k2, q in self.paths.items():
            if k2[0] == k[0] and ip.ctx.valid(zs(p.nm) == zs(q.nm)):
                return k2
        self.paths[k] = p
        return k

    def source(self, folder, i):
        """the i-th source file of a folder"""
        i = z3.IntVal(i) if isinstance(i, int) else i
        return Path(self, folder, Rope([Atom(STEM(i)), ".tl"]), folder=False)

    def is_dir(self, ip, p):
        if p.folder is not None:
            return p.folder
        k = p.key()
        if k in self.folders:
            return True
        if k not in self.dirs:
            self.dirs[k] = ip.ctx.branch(z3.Bool(f"{k} is a folder"))
        return self.dirs[k]

    def exists(self, ip, p):
        k = self.key(ip, p)
        if p.folder is not None or k in self.folders or k in self.files and self.files[k] is not None:
            return True
        if k not in self.there:
            self.there[k] = ip.ctx.branch(z3.Bool(f"{k} exists"))
        return self.there[k]

    def path(self, ip, p):
        p = ip.resolve(p)
        if isinstance(p, Path):
            return p
        if isinstance(p, Rope) and len(p.parts) == 1 and isinstance(p.parts[0], Atom) and isinstance(p.parts[0].what, Path):
            return p.parts[0].what
        if isinstance(p, str):
            return Path(self, None, p)
        raise Unsupported(f"the file {p!r}")

    def content(self, ip, p):
        k = self.key(ip, p)
        return self.files.setdefault(k, [Rope([Atom(CONTENT(zs(p.nm)), what=("old", k))])])

    def open(self, ip, p, mode="r", *a, **kw):
        mode = ip.resolve(mode)
        p = self.path(ip, p)
        if set(kw) - {"encoding"} or a:
            raise Unsupported("options of open")
        m = mode.replace("t", "")
        if m.strip("+b") in ("w", "a", "x"):
            if p.up is not None and p.up.folder is None and p.up.key() not in self.folders:
                if not self.exists(ip, p.up):
                    raise PyRaise(FileNotFoundError(str(p)))
            if m.strip("+b") == "x" and self.exists(ip, p):
                raise PyRaise(FileExistsError(str(p)))
        elif p.folder is None and self.key(ip, p) not in self.files and not self.exists(ip, p):
            raise PyRaise(FileNotFoundError(str(p)))
        return File(ip, self, p, m)

    def changed(self):
        """the files whose content may not be what it was"""
        out = {}
        for k, parts in self.files.items():
            if not (len(parts) == 1 and isinstance(parts[0], Rope) and len(parts[0].parts) == 1 and getattr(parts[0].parts[0], "what", None) == ("old", k)):
                out[k] = parts
        return out


class File:
    """an open file"""

    pyver_symbolic = True

    def __init__(self, ip, fs, p, mode):
        self.fs, self.p, self.mode, self.open = fs, p, mode, True
        c = fs.content(ip, p)
        if "w" in mode or "x" in mode:
            c[:] = []
        self.c = c
        self.pos = len(c) if "a" in mode else 0

    def sym_getattr(self, ip, name):
        if name == "name":
            return self.p.sym_str(ip)
        if name == "__enter__":
            return Fn(lambda ip: self)
        if name == "__exit__":
            return Fn(lambda ip, *a: self.close(ip))
        f = getattr(self, name, None)
        if name not in ("read", "write", "writelines", "seek", "truncate", "close", "flush") or f is None:
            raise Unsupported(f"file.{name}")
        return Fn(f, f"file.{name}")

    def sym_truth(self, ip):
        return True

    def close(self, ip):
        self.open = False

    def flush(self, ip):
        pass

    def need(self, what):
        if not self.open:
            raise PyRaise(ValueError("I/O operation on closed file"))
        if what == "read" and not ("r" in self.mode or "+" in self.mode) or what == "write" and self.mode.strip("b") == "r":
            import io

            raise PyRaise(io.UnsupportedOperation(what))

    def read(self, ip):
        self.need("read")
        parts = self.c[self.pos:]
        self.pos = len(self.c)
        if not parts:
            return "" if "b" not in self.mode else b""
        if len(parts) == 1:
            return parts[0] if is_str(parts[0]) else parts[0]
        if all(is_str(x) for x in parts):
            return mkstr(Rope(parts))
        raise Unsupported("reading of mixed content")

    def write(self, ip, x):
        self.need("write")
        x = ip.resolve(x)
        if "b" not in self.mode and not is_str(x):
            raise PyRaise(TypeError("write() argument must be str"))
        if "b" in self.mode and is_str(x):
            raise PyRaise(TypeError("a bytes-like object is required"))
        if "a" in self.mode:
            self.pos = len(self.c)
        rest = self.c[self.pos:]
        self.c[self.pos:] = [x] + ([Left(rest)] if rest else [])
        self.pos += 1
        return mkint(z3.Int("written")) if not isinstance(x, str) else len(x)

    def writelines(self, ip, xs):
        self.write(ip, ip.join("", xs))

    def seek(self, ip, n, whence=0):
        n, whence = ip.resolve(n), ip.resolve(whence)
        if n != 0 or whence not in (0, 2):
            raise Unsupported("seek into the middle")
        self.pos = 0 if whence == 0 else len(self.c)
        return 0

    def truncate(self, ip, size=None):
        self.need("write")
        size = ip.resolve(size)
        if size is None:
            del self.c[self.pos:]
        elif size == 0:
            del self.c[:]
            if self.pos:
                self.c[:] = [Left(["zeros"])]
                self.pos = 1
        else:
            raise Unsupported("truncate to a size")
        return 0


class EachFile:
    """the loop over the files of a folder: one arbitrary file, over arbitrary files; and nothing after them"""

    def __init__(self, check):
        self.check = check

    def run(self, ip, s, fr, it):
        segs = ip.iterate(it)
        if len(segs) != 1 or segs[0][0] != "many" or segs[0][1].name != "files":
            return ip.for_each(s, fr, it)
        lst = segs[0][1]
        if ip.fs.changed() or ip.said:
            raise Unsupported("effects before the files of a folder")
        for v in maps._stored(s):
            if v in fr.loc:
                fr.loc[v] = Poison(f"{v}, of another file")
        if ip.ctx.decide(2, "a file, or after all") == 0:
            i = fresh("file")
            ip.ctx.assume(z3.And(i >= 0, i < lst.n))
            if not ip.ctx.feasible():
                raise Infeasible()
            p = lst.at(i)
            ip.source = p
            at = len(ip.journal)
            ip.assign(s.target, p, fr)
            try:
                ip.block(s.body, fr)
            except BreakExceptions:
                raise Refuted("files are left out")
            except ContinueExceptions:
                pass
            for e in ip.effects_since(at):
                raise Unsupported(f"what one file leaves to the next: {e}")
            self.check(ip)
            raise PathEnd()
        ip.source = None
        ip.block(s.orelse, fr)


class Loops(dict):
    """the same for every loop"""

    def __init__(self, each):
        super().__init__({("*", "for"): each})
        self.each = each

    def get(self, k, default=None):
        return self.each if k[1] == "for" else super().get(k, default)


from .interp import BreakEx as BreakExceptions, ContinueEx as ContinueExceptions  # noqa: E402


def text_of(ip, parts):
    """a text that the parts make, or None"""
    if any(isinstance(p, Left) for p in parts):
        raise Refuted(f"something of the old content is left: {parts}")
    if not all(is_str(p) for p in parts):
        return None
    return mkstr(Rope(parts)) if parts else ""


def lines_in(t):
    """a text made of the lines of a list: (list, whether a line break follows the last)"""
    t = t if isinstance(t, Rope) else Rope([t])
    ps = list(t.parts)
    if not ps or not isinstance(ps[0], Many) or len(ps) > 2:
        return None
    m = ps[0]
    if m.rope is None:
        return None
    if m.glue == "\n" and (len(ps) == 1 or ps[1] == "\n"):
        return m, m.rope, len(ps) == 2
    last = m.rope.parts[-1] if m.rope.parts else None
    if m.glue == "" and len(ps) == 1 and isinstance(last, str) and last.endswith("\n"):
        return m, Rope(list(m.rope.parts[:-1]) + [last[:-1]]), True
    return None
