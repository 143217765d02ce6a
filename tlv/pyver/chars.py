"""Texts of unknown length as sequences of characters (code points), for code that goes through a text character by character."""
import z3

from .interp import fresh
from .values import *  # noqa: F401,F403

I, B = z3.IntSort(), z3.BoolSort()
SPACE = z3.Function("is space", I, B)  # str.strip strips exactly these


def zz(v):
    return v if z3.is_expr(v) else zi(v)


class Char:
    """one character"""

    pyver_symbolic = True

    def __init__(self, code):
        self.code = code

    def sym_eq(self, ip, o):
        o = ip.resolve(o)
        if isinstance(o, str):
            return mkbool(self.code == ord(o)) if len(o) == 1 else False
        if isinstance(o, Char):
            return mkbool(self.code == o.code)
        raise Unsupported(f"a character and {o!r}")

    def sym_isinstance(self, ip, cls):
        return issubclass(str, cls)

    def sym_getattr(self, ip, name):
        return CharMethod(self, name)


class CharMethod:
    pyver_symbolic = True

    def __init__(self, o, name):
        self.o, self.name = o, name

    def sym_call(self, ip, args, kwargs):
        if self.name == "isspace" and not args:
            return mkbool(SPACE(self.o.code))
        raise Unsupported(f"str.{self.name} of a character")


class Text:
    """the characters at(lo) .. at(hi - 1)"""

    pyver_symbolic = True

    def __init__(self, name, at, lo, hi, root=None, line=None):
        self.name, self.at, self.lo, self.hi = name, at, z3.simplify(zz(lo)), z3.simplify(zz(hi))
        self.line = line  # the number of the line it is of
        self.root = self.lo if root is None else root  # the texts that begin in the same lexical state as the text from there

    def __repr__(self):
        return f"<text {self.name}[{self.lo}:{self.hi}]>"

    @classmethod
    def new(cls, name):
        return cls(name, z3.Function(f"character of {name}", I, I), 0, z3.Int(f"length of {name}"))

    @property
    def n(self):
        return z3.simplify(self.hi - self.lo)

    def same(self, o):
        return isinstance(o, Text) and o.name == self.name

    def sym_isinstance(self, ip, cls):
        return issubclass(str, cls)

    def sym_len(self, ip):
        return self.n

    def sym_truth(self, ip):
        return ip.ctx.branch(self.hi > self.lo)

    def sym_iter(self, ip):
        return [("many", SList(f"characters of {self.name}", self.n, lambda i: Char(self.at(self.lo + i))))]

    def sym_getitem(self, ip, i):
        if isinstance(i, slice):
            a, b, st = (ip.resolve(x) for x in (i.start, i.stop, i.step))
            if st not in (None, 1):
                raise Unsupported("step in a text")
            lo, hi = ip.clamp(a, self.n, z3.IntVal(0)), ip.clamp(b, self.n, self.n)
            if not ip.ctx.branch(lo <= hi):
                hi = lo
            return Text(self.name, self.at, self.lo + lo, self.lo + hi, self.root if z3.is_int_value(lo) and lo.as_long() == 0 else None, self.line)
        x = zi(ip.resolve(i))
        if ip.ctx.branch(x < 0):
            x = x + self.n
        if not ip.ctx.branch(z3.And(x >= 0, x < self.n)):
            raise PyRaise(IndexError("string index out of range"))
        return Char(self.at(z3.simplify(self.lo + x)))

    def begins(self, marker, i=0):
        """z3: the marker (a str) begins at i"""
        i = zz(i)
        return z3.And(i >= 0, i + len(marker) <= self.n, *[self.at(z3.simplify(self.lo + i + j)) == ord(c) for j, c in enumerate(marker)])

    def sym_eq(self, ip, o):
        o = ip.resolve(o)
        if isinstance(o, str):
            return mkbool(z3.And(self.n == len(o), self.begins(o)))
        if isinstance(o, Text) and o.name == self.name and z3.eq(o.lo, self.lo) and z3.eq(o.hi, self.hi):
            return True
        raise Unsupported(f"{self!r} and {o!r}")

    def sym_contains(self, ip, o):
        o = ip.resolve(o)
        if isinstance(o, str) and o:
            j = z3.Int("j!in")
            return mkbool(z3.Exists([j], z3.And(j >= 0, self.begins(o, j))))
        raise Unsupported("in a text")

    def sym_getattr(self, ip, name):
        return TextMethod(self, name)

    def sym_add(self, ip, o, before):
        return Cat([o, self] if before else [self, o])

    def strip(self, ip, left=True, right=True):
        """without the white space around: its first and last characters are none"""
        t = Text(self.name, self.at, self.lo, self.hi, self.root, self.line)
        key = ("strip", self.name, str(self.lo), str(self.hi), left, right)
        memo = ip.__dict__.setdefault("strips", {})
        if key not in memo:
            lo, hi = fresh("lo", I) if left else self.lo, fresh("hi", I) if right else self.hi
            j = z3.Int("j!strip")
            a = [self.lo <= lo, lo <= hi, hi <= self.hi]
            if left:
                a += [z3.Or(lo == self.hi, z3.Not(SPACE(self.at(lo)))), z3.ForAll([j], z3.Implies(z3.And(j >= self.lo, j < lo), SPACE(self.at(j))))]
            if right:
                a += [z3.Or(hi == lo, z3.Not(SPACE(self.at(hi - 1)))), z3.ForAll([j], z3.Implies(z3.And(j >= hi, j < self.hi), SPACE(self.at(j))))]
            memo[key] = lo, hi
            for c in a:
                ip.ctx.assume(c)
        t.lo, t.hi = memo[key]
        return t


class Cat:
    """texts one after the other"""

    pyver_symbolic = True

    def __init__(self, parts):
        self.parts = [y for x in parts for y in (x.parts if isinstance(x, Cat) else [x])]

    def __repr__(self):
        return " + ".join(map(repr, self.parts))

    def sym_add(self, ip, o, before):
        return Cat([o, self] if before else [self, o])

    def sym_isinstance(self, ip, cls):
        return issubclass(str, cls)


class TextMethod:
    pyver_symbolic = True

    def __init__(self, o, name):
        self.o, self.name = o, name

    def sym_call(self, ip, args, kwargs):
        o, name = self.o, self.name
        args = [ip.resolve(a) for a in args]
        if name in ("startswith", "endswith") and args and (isinstance(args[0], str) or isinstance(args[0], tuple) and all(isinstance(x, str) for x in args[0])):
            ms = args[0] if isinstance(args[0], tuple) else (args[0],)
            if len(args) == 1:
                return mkbool(z3.Or(*[o.begins(m, 0 if name == "startswith" else o.n - len(m)) for m in ms]))
            if len(args) == 2 and name == "startswith":
                i = zi(args[1])
                if ip.ctx.branch(i < 0):
                    raise Unsupported("a negative position")
                return mkbool(z3.Or(*[o.begins(m, i) for m in ms]))
        if name in ("strip", "lstrip", "rstrip") and not args:
            return o.strip(ip, name != "rstrip", name != "lstrip")
        if name == "isspace" and not args:
            raise Unsupported("isspace")
        raise Unsupported(f"str.{name} of a text")
