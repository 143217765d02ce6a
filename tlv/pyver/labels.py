"""Texts built from parts, and whether two of them can be equal.

A template is a graph of parts; each part is a language and a mark (None for fixed text, or what the
part tells: the number of a construct, the index of a branch, a name).  Two templates are run side by
side over the same text by derivatives: `clash` finds the shortest text both make in which some
character has different marks in the two readings (or any common text).  If all characters have the
same marks, the marked parts are equal piece by piece.
"""
from . import regex
from .values import *  # noqa: F401,F403

NUMBER = regex.fullmatch("0|[1-9][0-9]*")


class Template:
    """nodes: [(language, mark, successors, final)]; entries: the first parts"""

    def __init__(self, nodes, entries, what=""):
        self.nodes, self.entries, self.what = nodes, entries, what

    def __repr__(self):
        return self.what

    def starts(self):
        return self._close({(i, self.nodes[i][0]) for i in self.entries})

    def _close(self, st):
        """through parts that are complete"""
        todo, out = list(st), set(st)
        while todo:
            i, d = todo.pop()
            if d.nullable:
                for j in self.nodes[i][2]:
                    x = (j, self.nodes[j][0])
                    if x not in out:
                        out.add(x)
                        todo.append(x)
        return out

    def step(self, st, c):
        """[(mark of the character, position)]"""
        i, d = st
        e = regex.derive(d, c)
        if e is regex.EMPTY:
            return []
        return [(self.nodes[i][1], x) for x in self._close({(i, e)})]

    def final(self, st):
        i, d = st
        return d.nullable and self.nodes[i][3]

    def letters(self):
        return [n[0] for n in self.nodes]


def line(parts, what=""):
    """a template of parts in a row"""
    n = len(parts)
    return Template([(r, m, [i + 1] if i + 1 < n else [], i + 1 == n) for i, (r, m) in enumerate(parts)], [0], what)


def clash(a, b, anyway=False, limit=200000):
    """the shortest text of both templates read with different marks (anyway: however read), or None"""
    letters = regex.representatives(a.letters() + b.letters())
    start = [(x, y, anyway) for x in a.starts() for y in b.starts()]
    seen, todo = set(start), [(s, "") for s in start]
    while todo:
        nxt = []
        for (x, y, diff), t in todo:
            if diff and a.final(x) and b.final(y):
                return t
            for c in letters:
                for m, x2 in a.step(x, c):
                    for k, y2 in b.step(y, c):
                        s = (x2, y2, diff or m != k)
                        if s not in seen:
                            seen.add(s)
                            if len(seen) > limit:
                                raise Unsupported("too many readings of two labels")
                            nxt.append((s, t + chr(c)))
        todo = nxt
    return None


def of_rope(t, mark):
    """the template of a text; mark(part) -> (language, mark) of an unknown part"""
    parts = t.parts if isinstance(t, Rope) else (t,)
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append((regex.text(p), None))
        else:
            out.append(mark(p))
    return line(out, repr(t))
