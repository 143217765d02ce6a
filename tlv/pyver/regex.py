"""Which texts Python's regular expressions and text tests accept, decided exactly.

A test of a text (re.match, re.fullmatch, startswith, endswith, ==, "in") is a language; languages
are run side by side by Brzozowski derivatives over a partition of all of Unicode, which gives
every combination of outcomes some text has (with the shortest such text), and no other.
Patterns are read by Python's own parser (re._parser).  Texts may be limited to lines (no line feed).
"""
import functools
import re
import sys

from .values import Unsupported

MAX = sys.maxunicode


# -- languages -------------------------------------------------------------------
class R:
    """a regular language; equal ones that are built alike are the same object"""

    table = {}

    def __new__(cls, op, *args):
        key = (op,) + args
        r = cls.table.get(key)
        if r is None:
            r = object.__new__(cls)
            r.op, r.args, r.n = op, args, len(cls.table)
            r.nullable = {"empty": lambda: False, "eps": lambda: True, "chars": lambda: False, "cat": lambda: args[0].nullable and args[1].nullable,
                          "alt": lambda: any(a.nullable for a in args), "and": lambda: all(a.nullable for a in args), "not": lambda: not args[0].nullable,
                          "star": lambda: True}[op]()
            r.memo = {}
            cls.table[key] = r
        return r

    def __lt__(self, o):
        return self.n < o.n


EMPTY, EPS = R("empty"), R("eps")


def norm(rs):
    out = []
    for a, b in sorted(rs):
        if out and a <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return tuple((a, b) for a, b in out)


def inv(rs):
    out, at = [], 0
    for a, b in norm(rs):
        if a > at:
            out.append((at, a - 1))
        at = b + 1
    if at <= MAX:
        out.append((at, MAX))
    return tuple(out)


def chars(rs):
    rs = norm(rs)
    return R("chars", rs) if rs else EMPTY


ANY = chars([(0, MAX)])


def cat(a, b):
    if a is EMPTY or b is EMPTY:
        return EMPTY
    if a is EPS:
        return b
    if b is EPS:
        return a
    if a.op == "cat":
        return cat(a.args[0], cat(a.args[1], b))
    return R("cat", a, b)


def star(a):
    return EPS if a in (EMPTY, EPS) else a if a.op == "star" else R("star", a)


ALL = star(ANY)


def _many(op, xs):
    zero, one = (EMPTY, ALL) if op == "alt" else (ALL, EMPTY)
    s = set()
    for x in xs:
        s |= set(x.args) if x.op == op else {x}
    if one in s:
        return one
    s.discard(zero)
    cs = [x for x in s if x.op == "chars"]
    if op == "alt" and len(cs) > 1:
        s = {x for x in s if x.op != "chars"} | {chars([r for c in cs for r in c.args[0]])}
    if not s:
        return zero
    return s.pop() if len(s) == 1 else R(op, *sorted(s))


def alt(*xs):
    return _many("alt", xs)


def both(*xs):
    return _many("and", xs)


def neg(a):
    return a.args[0] if a.op == "not" else ALL if a is EMPTY else EMPTY if a is ALL else R("not", a)


def text(s):
    r = EPS
    for c in reversed(s):
        r = cat(chars([(ord(c), ord(c))]), r)
    return r


def derive(r, c):
    d = r.memo.get(c)
    if d is None:
        op, a = r.op, r.args
        if op in ("empty", "eps"):
            d = EMPTY
        elif op == "chars":
            d = EPS if any(x <= c <= y for x, y in a[0]) else EMPTY
        elif op == "cat":
            d = cat(derive(a[0], c), a[1])
            if a[0].nullable:
                d = alt(d, derive(a[1], c))
        elif op == "alt":
            d = alt(*[derive(x, c) for x in a])
        elif op == "and":
            d = both(*[derive(x, c) for x in a])
        elif op == "not":
            d = neg(derive(a[0], c))
        else:
            d = cat(derive(a[0], c), r)
        r.memo[c] = d
    return d


def sets(r, seen, out):
    if r not in seen:
        seen.add(r)
        if r.op == "chars":
            out.add(r.args[0])
        else:
            for a in r.args:
                sets(a, seen, out)


def representatives(rs):
    """one character of each class of characters that the languages do not tell apart, readable ones first"""
    seen, out = set(), set()
    for r in rs:
        sets(r, seen, out)
    cuts = sorted({0} | {a for s in out for a, b in s} | {b + 1 for s in out for a, b in s if b < MAX})
    idx = {c: i for i, c in enumerate(cuts)}
    sig = [[] for _ in cuts]
    for k, s in enumerate(sorted(out)):
        for a, b in s:
            for i in range(idx[a], idx.get(b + 1, len(cuts))):
                sig[i].append(k)
    best = {}
    for i, c in enumerate(cuts):
        end = (cuts[i + 1] if i + 1 < len(cuts) else MAX + 1) - 1
        for good in (ord("a"), ord("1"), ord(" "), c):
            if c <= good <= end:
                break
        k = tuple(sig[i])
        if k not in best or (not 32 <= best[k] < 127 and 32 <= good < 127):
            best[k] = good
    return sorted(best.values())


def outcomes(langs, within=ALL, limit=60000):
    """{outcome of each language: shortest text that has it} over the texts of the language within"""
    rs = list(langs) + [within]
    alphabet = representatives(rs)
    start = tuple(rs)
    found, seen, todo = {}, {start}, [(start, "")]
    while todo:
        nxt = []
        for st, t in todo:
            if st[-1].nullable:
                found.setdefault(tuple(x.nullable for x in st[:-1]), t)
            for c in alphabet:
                d = tuple(derive(x, c) for x in st)
                if d[-1] is EMPTY or d in seen:
                    continue
                seen.add(d)
                if len(seen) > limit:
                    raise Unsupported("too many states of the text tests")
                nxt.append((d, t + (chr(c) if c <= MAX else "|")))
        todo = nxt
    return found


def included(a, b, within=ALL):
    """None, or a text of a that is not in b"""
    return outcomes([both(a, neg(b))], within).get((True,))


# -- Python's tests ----------------------------------------------------------------
@functools.lru_cache(None)
def category(pattern):
    f = re.compile(pattern).fullmatch
    out, start = [], None
    for i in range(MAX + 1):
        ok = f(chr(i)) is not None
        if ok and start is None:
            start = i
        elif not ok and start is not None:
            out.append((start, i - 1))
            start = None
    if start is not None:
        out.append((start, MAX))
    return tuple(out)


LINE = star(chars(inv([(10, 10)])))  # texts without a line feed


@functools.lru_cache(None)
def stripped():
    """texts that str.strip() leaves alone"""
    ws = norm([(i, i) for i in range(MAX + 1) if chr(i).isspace()])
    no = chars(inv(ws))
    return alt(EPS, no, cat(no, cat(ALL, no)))


class Pattern:
    def __init__(self, pattern, flags=0):
        import re._constants as K
        import re._parser as P

        self.K = K
        tree = P.parse(pattern, flags)
        self.dotall = bool(tree.state.flags & re.DOTALL)
        if tree.state.flags & ~(re.UNICODE.value | re.DOTALL.value):
            raise Unsupported("flags of a regular expression")
        self.items = list(tree)

    def ranges(self, op, av):
        K = self.K
        if op is K.LITERAL:
            return norm([(av, av)])
        if op is K.NOT_LITERAL:
            return inv([(av, av)])
        if op is K.ANY:
            return norm([(0, MAX)]) if self.dotall else inv([(10, 10)])
        if op is K.IN:
            no = bool(av) and av[0][0] is K.NEGATE
            parts = []
            for o, a in av[1:] if no else av:
                if o is K.LITERAL:
                    parts.append((a, a))
                elif o is K.RANGE:
                    parts.append(tuple(a))
                elif o is K.CATEGORY:
                    parts += category({K.CATEGORY_DIGIT: r"\d", K.CATEGORY_WORD: r"\w", K.CATEGORY_SPACE: r"\s", K.CATEGORY_NOT_SPACE: r"\S",
                                       K.CATEGORY_NOT_DIGIT: r"\D", K.CATEGORY_NOT_WORD: r"\W"}[a])
                else:
                    raise Unsupported(f"regular expression: {o}")
            return inv(parts) if no else norm(parts)
        return None

    @staticmethod
    @functools.lru_cache(None)
    def word(rs):
        """True if every one of the characters is of a word, False if none is, None if it depends"""
        w = chars(category(r"\w"))
        inside = outcomes([w], chars(rs))
        return {(True,): True, (False,): False}.get(next(iter(inside)) if len(inside) == 1 else None)

    def seq(self, items, rest, before, anchors=True):
        """the texts that items match, followed by rest; before: the last character is of a word (None: it depends)"""
        K = self.K
        if not items:
            return rest
        (op, av), tail = items[0], items[1:]
        rs = self.ranges(op, av)
        if rs is not None:
            return cat(chars(rs), self.seq(tail, rest, self.word(rs), anchors))
        if op is K.SUBPATTERN:
            _, add, sub, inner = av
            if add or sub:
                raise Unsupported("flags in a regular expression")
            return self.seq(list(inner) + tail, rest, before, anchors)
        if op is K.BRANCH:
            return alt(*[self.seq(list(b) + tail, rest, before, anchors) for b in av[1]])
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, inner = av
            inner = list(inner)
            r = self.seq(inner, EPS, None, False)
            out = EPS
            if hi is K.MAXREPEAT:
                out = star(r)
            else:
                for _ in range(hi - lo):
                    out = alt(EPS, cat(r, out))
            for _ in range(lo):
                out = cat(r, out)
            last = self.ranges(*inner[-1]) if lo > 0 and inner else None
            return cat(out, self.seq(tail, rest, self.word(last) if last else None, anchors))
        if op is K.AT and anchors:
            after = self.seq(tail, rest, before, anchors)
            if av is K.AT_END_STRING:
                return both(after, EPS)
            if av is K.AT_END:  # the end, or before a line feed at the end
                return both(after, alt(EPS, text("\n")))
            if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING) and before == "start":
                return after
            if av is K.AT_BOUNDARY and before is not None:
                w = cat(chars(category(r"\w")), ALL)
                return both(after, neg(w) if before is True else w)
        raise Unsupported(f"regular expression: {op} {av}")

    def match(self):
        return self.seq(self.items, ALL, "start")

    def fullmatch(self):
        return self.seq(self.items, EPS, "start")


class Rest(Pattern):
    """what a text has outside the named groups of the pattern, each of them left as one mark, without white space"""

    MARK = chars([(0xE000, 0xE000)])

    def __init__(self, pattern, flags=0):
        super().__init__(pattern, flags)
        self.named = set(re.compile(pattern, flags).groupindex.values())

    def seq(self, items, rest, before, anchors=True):
        if items:
            op, av = items[0]
            if op is self.K.SUBPATTERN and av[0] in self.named:
                return cat(self.MARK, self.seq(items[1:], rest, None, anchors))
            rs = self.ranges(op, av)
            if rs is not None and included(chars(rs), chars(category(r"\s"))) is None:
                return self.seq(items[1:], rest, None, anchors)
        return super().seq(items, rest, before, anchors)


def texts_of(r, limit=200):
    """the texts of a language; None if there are more of them, or infinitely many"""
    alphabet, out, todo = representatives([r]), [], [(r, "")]
    while todo:
        r, t = todo.pop()
        if len(t) > limit or len(out) > limit:
            return None
        if r.nullable:
            out.append(t)
        for c in alphabet:
            d = derive(r, c)
            if d is not EMPTY and outcomes([d]).get((True,)) is not None:
                if any(0 <= x <= MAX and derive(r, x) is d for x in (c - 1, c + 1)):  # any of several characters
                    return None
                todo.append((d, t + chr(c)))
    return sorted(out)


@functools.lru_cache(None)
def match(pattern, flags=0):
    return Pattern(pattern, flags).match()


@functools.lru_cache(None)
def fullmatch(pattern, flags=0):
    return Pattern(pattern, flags).fullmatch()


def starts(s):
    return cat(text(s), ALL)


def ends(s):
    return cat(ALL, text(s))


# -- the groups of a match ---------------------------------------------------------------
MARKS = MAX + 1  # characters that no text has: where a group begins and ends


def marks(names):
    """{name: (mark of its begin, of its end)}"""
    return {n: (MARKS + 2 * i, MARKS + 2 * i + 1) for i, n in enumerate(sorted(names))}


def marked(mark, language):
    return cat(chars([(mark[0], mark[0])]), cat(language, chars([(mark[1], mark[1])])))


class Program(Pattern):
    """a pattern as an automaton with priorities: its matches are those Python's matcher prefers (greedy and lazy repetitions, the order of alternatives)"""

    def __init__(self, pattern, flags=0):
        super().__init__(pattern, flags)
        self.code, self.sets = [], []
        self.names = marks(re.compile(pattern, flags).groupindex)
        self.by_no = {i: self.names[n] for n, i in re.compile(pattern, flags).groupindex.items()}
        self.start = self.build(self.items, self.add("match"))

    def add(self, *ins):
        self.code.append(list(ins))
        return len(self.code) - 1

    def build(self, items, then):
        K = self.K
        for op, av in reversed(list(items)):
            rs = self.ranges(op, av)
            if rs is not None:
                self.sets.append(rs)
                then = self.add("char", rs, then)
            elif op is K.SUBPATTERN:
                no, add, sub, inner = av
                if add or sub:
                    raise Unsupported("flags in a regular expression")
                m = self.by_no.get(no)
                if m:
                    then = self.add("mark", m[0], self.build(inner, self.add("mark", m[1], then)))
                else:
                    then = self.build(inner, then)
            elif op is K.BRANCH:
                then = self.add("split", [self.build(b, then) for b in av[1]])
            elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
                lo, hi, inner = av
                way = (lambda a, b: [a, b]) if op is K.MAX_REPEAT else (lambda a, b: [b, a])
                if hi is K.MAXREPEAT:
                    if self.seq(list(inner), EPS, None, False).nullable:
                        raise Unsupported("a repetition of what may be empty")
                    at = self.add("split", None)
                    self.code[at][1] = way(self.build(inner, at), then)
                    then = at
                else:
                    end = then
                    for _ in range(hi - lo):
                        then = self.add("split", way(self.build(inner, then), end))
                for _ in range(lo):
                    then = self.build(inner, then)
            elif op is K.AT:
                then = self.add("at", av, then)
            else:
                raise Unsupported(f"regular expression: {op} {av}")
        return then

    def holds(self, at, prev, nxt):
        K = self.K
        if at in (K.AT_END, K.AT_END_STRING):  # (the texts have no line feed)
            return nxt is None
        if at in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            return prev is None
        if at is K.AT_BOUNDARY:
            return bool(prev) != bool(nxt)
        raise Unsupported(f"regular expression: {at}")

    def close(self, threads, prev, nxt, seen, full):
        """the threads at a place between two characters, by priority: (instruction, it is not where the marks of the text are)"""
        out, visited = [], set()

        def go(pc, bad, passed):
            """False: those of less priority do not count"""
            if pc in visited:
                return True
            visited.add(pc)
            ins = self.code[pc]
            if ins[0] == "char":
                out.append((pc, bad or passed != seen))
            elif ins[0] == "match":
                if full and nxt is not None:
                    return True
                out.append((pc, bad or passed != seen))
                return False
            elif ins[0] == "split":
                return all(go(x, bad, passed) for x in ins[1])
            elif ins[0] == "mark":
                return go(ins[2], bad, passed | {ins[1]})
            elif self.holds(ins[1], prev, nxt):
                return go(ins[2], bad, passed)
            return True

        for pc, bad in threads:
            if pc == "matched":
                out.append((pc, bad or bool(seen)))
                break
            if not go(pc, bad, frozenset()):
                break
        return out


def groups(template, pattern, inside=ALL, full=False, limit=100000, flags=0):
    """None, or a text of the template (marks where its parts are) that is also of the language inside,
    which the pattern does not match, or whose groups are not exactly the marked parts"""
    p = Program(pattern, flags)
    word = chars(category(r"\w"))
    ms = [m for pair in p.names.values() for m in pair]
    alphabet = [c for c in representatives([template, inside, word] + [chars(s) for s in p.sets]) if c <= MAX]
    start = (template, inside, ((p.start, False),), None)
    seen, todo = {start}, [(start, "")]
    while todo:
        nxt = []
        for (t, i, threads, prev), s in todo:
            # the marks that the template may have here
            here, more = {(t, frozenset())}, [(t, frozenset())]
            while more:
                x, got = more.pop()
                for m in ms:
                    d = derive(x, m)
                    if d is not EMPTY and m not in got and (d, got | {m}) not in here:
                        here.add((d, got | {m}))
                        more.append((d, got | {m}))
            for x, got in here:
                if x.nullable and i.nullable:
                    end = [bad for pc, bad in p.close(threads, prev, None, got, full) if pc == "matched" or p.code[pc][0] == "match"]
                    if not end or end[0]:
                        return s
                for c in alphabet:
                    d, j = derive(x, c), derive(i, c)
                    if d is EMPTY or j is EMPTY:
                        continue
                    w = derive(word, c).nullable
                    new = []
                    for pc, bad in p.close(threads, prev, w, got, full):
                        if pc == "matched" or p.code[pc][0] == "match":
                            y = ("matched", bad)
                        elif any(a <= c <= b for a, b in p.code[pc][1]):
                            y = (p.code[pc][2], bad)
                        else:
                            continue
                        if y[0] not in [z[0] for z in new]:
                            new.append(y)
                    state = (d, j, tuple(new), w)
                    if state not in seen:
                        seen.add(state)
                        if len(seen) > limit:
                            raise Unsupported("too many states of a pattern")
                        nxt.append((state, s + chr(c)))
        todo = nxt
    return None


def selftest(n=3000, seed=0):
    """the languages agree with re on random texts"""
    import random

    r = random.Random(seed)
    pats = [r"return\b", r"[A-Za-z][a-zA-Z_0-9]*(\[[0-9]+\])? [a-zA-Z_0-9]+( = .*)?", r"[a-z_][a-zA-Z0-9_,\s]* = .*", r"a{2,3}b?$", r"(?P<x>\bint\b|\bby\b) =", r"[^\"\\]*\.", r"\S+", r"(a|bc)*c$"]
    for p in pats:
        for kind in ("match", "fullmatch"):
            l = globals()[kind](p)
            for _ in range(n // len(pats)):
                t = "".join(r.choice(["a", "b", "c", "ab", "return", "int", "=", " = ", " ", "[1]", ".", '"', "\\", "\u00e9", "_", "1", ",", "\x0b", "by "]) for _ in range(r.randrange(6)))
                x = l
                for c in t:
                    x = derive(x, ord(c))
                if x.nullable != (getattr(re, kind)(p, t) is not None):
                    return f"{kind} {p!r} {t!r}"
    return None
