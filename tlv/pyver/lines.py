"""The source as an obligation sees it: a list of unknown lines, read by peek and consume_line.

LINE(p) is what peek returns at position p (the text of the line without indentation and comment):
the contract of peek and consume_line, proved in C12."""
import z3

from tealish.errors import ParseError

from .values import *  # noqa: F401,F403

I, STR = z3.IntSort(), z3.StringSort()
LINE = z3.Function("line", I, STR)
TOTAL = z3.Int("number of lines")
START = z3.Int("first line")


def line(p):
    return Rope([Atom(LINE(z3.simplify(p)), what="source line")])


class Source:
    """the compiler as the parser uses it"""

    def __init__(self, **attrs):
        self.attrs = attrs

    def make(self, pos=START, **attrs):
        return Opaque("compiler", attrs={"line_no": SInt(pos), "conditional_count": SInt(z3.Int("conditional_count")), **self.attrs, **attrs}, cls=_compiler())


def _compiler():
    import tealish

    return tealish.TealishCompiler


def pos(ip, comp):
    return zi(ip.get_attr(comp, "line_no"))


def peek(ip, self):
    p = pos(ip, self)
    if not ip.ctx.branch(p < TOTAL):
        raise PyRaise(ParseError("Unexpected end of program"))
    return line(p)


def consume_line(ip, self):
    t = peek(ip, self)
    ip.set_attr(self, "line_no", mkint(pos(ip, self) + 1))
    return t


CONTRACTS = {"TealishCompiler.peek": peek, "TealishCompiler.consume_line": consume_line}
BASE = [START >= 0, START <= TOTAL]
