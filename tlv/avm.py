"""An assembler front end and interpreter for the TEAL that tealish emits.

Written from the AVM documentation, independently of tealish.  Opcodes whose result
depends on the ledger are pseudo-functions of (opcode, immediates, operands, number of
effects so far), so any change in evaluation order, operands or immediates shows.
"""
import hashlib
import json
import os

U64 = 1 << 64
_here = os.path.dirname(os.path.abspath(__file__))
OPS = {o["Name"]: o for o in json.load(open(os.path.join(_here, "..", "data", "avm_ops.json")))["Ops"]}


class AsmError(Exception):
    pass


class Fail(Exception):
    """the AVM program failed"""


class Budget(Exception):
    pass


# ---------------------------------------------------------------- assembler


def tokenize(line):
    """Split one TEAL line into tokens; ';' is a token; comments are dropped."""
    toks, i, n = [], 0, len(line)
    while i < n:
        c = line[i]
        if c in " \t\r":
            i += 1
            continue
        if line.startswith("//", i):
            break
        if c == ";":
            toks.append(";")
            i += 1
            continue
        if c == '"':
            j = i + 1
            while j < n and line[j] != '"':
                j += 2 if line[j] == "\\" else 1
            if j >= n:
                raise AsmError(f"unterminated string: {line}")
            toks.append(line[i : j + 1])
            i = j + 1
            continue
        j = i
        while j < n and line[j] not in " \t\r;" and not line.startswith("//", j):
            j += 1
        toks.append(line[i:j])
        i = j
    return toks


def parse_string(tok):
    """bytes denoted by a quoted TEAL string"""
    body, out, i = tok[1:-1], bytearray(), 0
    while i < len(body):
        c = body[i]
        if c != "\\":
            out += c.encode()
            i += 1
            continue
        e = body[i + 1 : i + 2]
        if e == "x":
            out.append(int(body[i + 2 : i + 4], 16))
            i += 4
        elif e in 'nrt\\"':
            out += {"n": b"\n", "r": b"\r", "t": b"\t", "\\": b"\\", '"': b'"'}[e]
            i += 2
        else:
            raise AsmError(f"bad escape in {tok}")
    return bytes(out)


def parse_bytes(tok):
    if tok.startswith('"'):
        return parse_string(tok)
    if tok.startswith("0x"):
        return bytes.fromhex(tok[2:])
    raise AsmError(f"bad byte literal {tok}")


NAMED_INTS = {
    "NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4,
    "DeleteApplication": 5, "pay": 1, "keyreg": 2, "acfg": 3, "axfer": 4, "afrz": 5, "appl": 6,
}


def parse_int(tok, hi=U64):
    try:
        # as Go's ParseUint with base 0 reads it
        v = int(tok, 16) if tok.startswith("0x") else int(tok, 8) if tok.startswith("0") else int(tok)
    except ValueError:
        raise AsmError(f"bad integer {tok}")
    if tok.startswith(("+", "-")) or "_" in tok or not 0 <= v < hi:
        raise AsmError(f"integer out of range {tok}")
    return v


class Instr:
    __slots__ = ("op", "args", "line")

    def __init__(self, op, args, line):
        self.op, self.args, self.line = op, args, line

    def key(self):
        return (self.op, tuple(self.args))

    def __repr__(self):
        return " ".join([self.op] + list(self.args))


BRANCHES = {"b", "bz", "bnz", "callsub"}
MULTI = {"switch", "match"}


class Program:
    def __init__(self, lines, check=True):
        self.instrs, self.labels, self.label_line, defines = [], {}, {}, {}
        self.dups, self.version = [], None
        text = "\n".join(lines).split("\n")
        for ln, line in enumerate(text, 1):
            toks = tokenize(line)
            if toks and toks[0] == "#pragma":
                self.version = int(toks[2])
                continue
            if toks and toks[0] == "#define":
                rest = toks[2:]
                defines[toks[1]] = rest
                continue
            stmt = []
            for t in toks + [";"]:
                if t != ";":
                    stmt.append(t)
                    continue
                while stmt:
                    if len(stmt[0]) > 1 and stmt[0].endswith(":") and not stmt[0].startswith('"'):
                        name = stmt[0][:-1]
                        if name in self.labels:
                            self.dups.append(name)
                            if check:
                                raise AsmError(f"duplicate label {name}")
                        self.labels.setdefault(name, len(self.instrs))
                        self.label_line.setdefault(name, ln)
                        stmt = stmt[1:]
                        continue
                    ex = [stmt[0]]
                    for a in stmt[1:]:
                        ex += defines.get(a, [a])
                    self.instrs.append(Instr(ex[0], ex[1:], ln))
                    break
                stmt = []
        if check:
            for ins in self.instrs:
                self.check(ins)

    def targets(self, ins):
        if ins.op in BRANCHES or ins.op in MULTI:
            return ins.args
        return []

    def undefined(self):
        return [t for i in self.instrs for t in self.targets(i) if t not in self.labels]

    def check(self, ins):
        op, a = ins.op, ins.args
        for t in self.targets(ins):
            if t not in self.labels:
                raise AsmError(f"undefined label {t}")
        if op in BRANCHES:
            if len(a) != 1:
                raise AsmError(f"{ins}")
        elif op in MULTI:
            pass
        elif op in ("pushint", "int"):
            if len(a) != 1:
                raise AsmError(f"{ins}")
            if a[0] not in NAMED_INTS:
                parse_int(a[0])
        elif op in ("pushbytes", "byte"):
            if len(a) != 1:
                raise AsmError(f"{ins}")
            parse_bytes(a[0])
        elif op == "addr":
            if len(a) != 1:
                raise AsmError(f"{ins}")
        elif op == "method":
            if len(a) != 1 or not a[0].startswith('"'):
                raise AsmError(f"{ins}")
        elif op == "replace":
            if len(a) > 1:
                raise AsmError(f"{ins}")
            for x in a:
                parse_int(x, 256)
        elif op in OPS:
            n = OPS[op]["Size"] - 1
            if n >= 0 and len(a) != n:
                raise AsmError(f"wrong number of immediates: {ins}")
            if op in ("load", "store", "extract", "substring", "dig", "uncover", "cover",
                      "gload", "gloads", "arg", "extract_", "replace2", "bury", "popn", "dupn"):
                for x in a:
                    parse_int(x, 256)
            enum = OPS[op].get("ArgEnum")
            if enum:
                pos = {"gtxn": 1, "gtxna": 1, "gtxnas": 1, "gitxn": 1, "gitxna": 1, "gitxnas": 1}.get(op, 0)
                if a[pos] not in enum and not a[pos].isdigit():
                    raise AsmError(f"unknown field {ins}")
                for k, x in enumerate(a):
                    if k != pos:
                        parse_int(x, 256)
        else:
            raise AsmError(f"unknown opcode {ins}")


# ---------------------------------------------------------------- opcode semantics


def _h(*parts):
    return hashlib.sha256(repr(parts).encode()).digest()


def big(b):
    return int.from_bytes(b, "big")


def unbig(v):
    return v.to_bytes((v.bit_length() + 7) // 8, "big")


def need(c):
    if not c:
        raise Fail("check")


def u64(v):
    need(0 <= v < U64)
    return v


def isint(x):
    need(isinstance(x, int))
    return x


def isb(x):
    need(isinstance(x, bytes))
    need(len(x) <= 4096)
    return x


def _bb(f):
    def g(a, b):
        need(len(a) <= 64 and len(b) <= 64)
        r = f(big(a), big(b))
        if isinstance(r, bool):
            return int(r)
        need(r >= 0)
        return unbig(r)

    return g


def _bbit(f):
    def g(a, b):
        n = max(len(a), len(b))
        return bytes(f(x, y) for x, y in zip(a.rjust(n, b"\0"), b.rjust(n, b"\0")))

    return g


def _div(a, b):
    need(b != 0)
    return a // b


def _mod(a, b):
    need(b != 0)
    return a % b


def _sub(b, s, e):
    need(s <= e <= len(b))
    return b[s:e]


def _btoi(b):
    need(len(b) <= 8)
    return big(b)


def _bzero(n):
    need(n <= 4096)
    return bytes(n)


def _concat(a, b):
    need(len(a) + len(b) <= 4096)
    return a + b


def _eq(a, b):
    need(type(a) == type(b))
    return int(a == b)


def _getbit(a, i):
    if isinstance(a, int):
        need(i < 64)
        return a >> i & 1
    need(i < 8 * len(a))
    return a[i // 8] >> (7 - i % 8) & 1


def _setbit(a, i, v):
    need(v < 2)
    if isinstance(a, int):
        need(i < 64)
        return (a & ~(1 << i)) | v << i
    need(i < 8 * len(a))
    out = bytearray(a)
    m = 1 << (7 - i % 8)
    out[i // 8] = (out[i // 8] & ~m) | (m if v else 0)
    return bytes(out)


def _setbyte(a, i, v):
    need(i < len(a) and v < 256)
    return a[:i] + bytes([v]) + a[i + 1 :]


def _replace(a, s, b):
    need(s + len(b) <= len(a))
    return a[:s] + b + a[s + len(b) :]


def _isqrt(n):
    import math

    return math.isqrt(n)


def _bsqrt(a):
    need(len(a) <= 64)
    return unbig(_isqrt(big(a)))


def _exp(a, b):
    need(not (a == 0 and b == 0))
    need(a <= 1 or b < 64)
    return u64(a**b)


def _expw(a, b):
    need(not (a == 0 and b == 0))
    need(a <= 1 or b < 128)
    v = a**b
    need(v < 1 << 128)
    return v >> 64, v % U64


def _divmodw(a, b, c, d):
    x, y = a << 64 | b, c << 64 | d
    need(y)
    q, r = divmod(x, y)
    return q >> 64, q % U64, r >> 64, r % U64


def _divw(a, b, c):
    need(c)
    return u64((a << 64 | b) // c)


def _extract(imms, b):
    s, n = imms
    if n == 0:
        need(s <= len(b))
        return b[s:]
    need(s + n <= len(b))
    return b[s : s + n]


# name: (function of operands in push order); results in push order
PURE = {
    "+": lambda a, b: u64(a + b), "-": lambda a, b: u64(a - b), "*": lambda a, b: u64(a * b),
    "/": _div, "%": _mod, "<": lambda a, b: int(a < b), ">": lambda a, b: int(a > b),
    "<=": lambda a, b: int(a <= b), ">=": lambda a, b: int(a >= b),
    "&&": lambda a, b: int(bool(a) and bool(b)), "||": lambda a, b: int(bool(a) or bool(b)),
    "==": _eq, "!=": lambda a, b: 1 - _eq(a, b), "!": lambda a: int(a == 0), "~": lambda a: a ^ (U64 - 1),
    "|": lambda a, b: a | b, "&": lambda a, b: a & b, "^": lambda a, b: a ^ b,
    "len": len, "itob": lambda a: a.to_bytes(8, "big"), "btoi": _btoi,
    "mulw": lambda a, b: (a * b >> 64, a * b % U64), "addw": lambda a, b: (a + b >> 64, (a + b) % U64),
    "divmodw": _divmodw, "divw": _divw, "exp": _exp, "expw": _expw, "sqrt": _isqrt, "bsqrt": _bsqrt,
    "shl": lambda a, b: (need(b < 64), (a << b) % U64)[1], "shr": lambda a, b: (need(b < 64), a >> b)[1],
    "bitlen": lambda a: a.bit_length() if isinstance(a, int) else big(a).bit_length(),
    "concat": _concat, "bzero": _bzero, "substring3": _sub,
    "extract3": lambda b, s, n: _sub(b, s, s + n),
    "extract_uint16": lambda b, s: big(_sub(b, s, s + 2)),
    "extract_uint32": lambda b, s: big(_sub(b, s, s + 4)),
    "extract_uint64": lambda b, s: big(_sub(b, s, s + 8)),
    "getbit": _getbit, "setbit": _setbit, "setbyte": _setbyte,
    "getbyte": lambda a, i: (need(i < len(a)), a[i])[1], "replace3": _replace,
    "select": lambda a, b, c: b if c else a,
    "b+": _bb(lambda a, b: a + b), "b-": _bb(lambda a, b: a - b), "b*": _bb(lambda a, b: a * b),
    "b/": _bb(_div), "b%": _bb(_mod), "b<": _bb(lambda a, b: a < b), "b>": _bb(lambda a, b: a > b),
    "b<=": _bb(lambda a, b: a <= b), "b>=": _bb(lambda a, b: a >= b), "b==": _bb(lambda a, b: a == b),
    "b!=": _bb(lambda a, b: a != b), "b|": _bbit(lambda a, b: a | b), "b&": _bbit(lambda a, b: a & b),
    "b^": _bbit(lambda a, b: a ^ b), "b~": lambda a: bytes(x ^ 255 for x in a),
}
PURE_IMM = {
    "substring": lambda im, b: _sub(b, im[0], im[1]),
    "extract": _extract,
    "replace2": lambda im, a, b: _replace(a, im[0], b),
}
LENIENT = set(
    """+ * / % exp shl shr getbit setbit getbyte setbyte extract_uint16 extract_uint32 extract_uint64 divw divmodw
    b+ b- b* b/ b% b== b!= b<= b>= b< b> b& b^ b~ || && ! ~ & ^ bitlen expw mulw addw sqrt bsqrt substring3
    select""".split()
)
SHORT_PRINTABLE = "sha256 sha512_256 keccak256 sha3_256".split()


class World:
    """everything outside stack and scratch: what a program does to the ledger"""

    def __init__(self, ctx=None):
        self.ctx = ctx or {}
        self.effects = []
        self.logs = []
        self.boxes = {k: bytes(v) for k, v in self.ctx.get("boxes", {}).items()}
        self.groups = []  # submitted inner groups
        self.cur = None  # group being prepared
        self.lenient = self.ctx.get("lenient", False)

    def pseudo(self, typ, *key):
        d = _h(self.ctx.get("salt", 0), *key)
        if typ == "U":
            # small, medium and large values
            return [d[0] % 4, d[1], big(d[1:3]), big(d[1:9])][d[9] % 4]
        if typ == "B":
            n = [1, 8, 8, 32, 20][d[10] % 5]
            return (d * 2)[11 : 11 + n]
        return self.pseudo("UB"[d[31] & 1], *key, 1)

    def effect(self, *e):
        self.effects.append(e)

    def group_size(self):
        return self.ctx.get("group_size", 16)

    def txn(self, gi, field, idx=None):
        need(0 <= gi < self.group_size())
        own = self.ctx.get("group_index", 2)
        if gi == own:
            fields = self.ctx.get("txn", {})
            if field in fields:
                v = fields[field]
                if idx is None:
                    return v if not isinstance(v, list) else v[0]
                need(idx < len(v))
                return v[idx]
        if field == "GroupIndex":
            return gi
        t = FIELD_TYPES[field]
        if idx is not None:
            need(idx < 256)
        if field in ("Sender", "Receiver"):
            return _h("addr", self.ctx.get("salt", 0), gi, field)
        return self.pseudo(t, "txn", gi, field, idx)

    def global_(self, field):
        g = self.ctx.get("global", {})
        if field in g:
            return g[field]
        enum = OPS["global"]
        return self.pseudo(enum["ArgEnumTypes"][enum["ArgEnum"].index(field)], "global", field)

    def itxn(self, field, idx=None):
        need(self.groups)
        last = self.groups[-1][-1]
        vals = [v for f, v in last if f == field]
        if idx is not None:
            if vals:
                need(idx < len(vals))
                return vals[idx]
            return self.pseudo(FIELD_TYPES[field], "itxn", len(self.groups), field, idx)
        if vals:
            return vals[-1]
        return self.pseudo(FIELD_TYPES[field], "itxn", len(self.groups), field)

    def itxn_begin(self):
        need(self.cur is None)
        self.cur = [[]]

    def itxn_next(self):
        need(self.cur is not None and len(self.cur) < 16)
        self.cur.append([])

    def itxn_field(self, f, v):
        need(self.cur is not None)
        self.cur[-1].append((f, v))

    def itxn_submit(self):
        need(self.cur is not None)
        self.groups.append(self.cur)
        self.cur = None
        self.effect("itxn_submit", self.groups[-1])

    def op(self, name, imms, args):
        """lenient contexts make opcodes that no construct of the language relies on
        for a check total (a pseudo value instead of a failure), so runs get further"""
        if not self.lenient or name not in LENIENT:
            return self.op_strict(name, imms, args)
        try:
            return self.op_strict(name, imms, args)
        except Fail:
            rets = OPS[name].get("Returns", "")
            return [self.pseudo(t, name, tuple(imms), tuple(args), k) for k, t in enumerate(rets)]

    def op_strict(self, name, imms, args):
        """value-producing or effectful opcode; returns results in push order"""
        spec = OPS.get(name)
        if spec is None and name in ("addr", "method"):
            return [_h(name, imms)[: 32 if name == "addr" else 4]]
        for t, a in zip(spec.get("Args", ""), args):
            if t == "U":
                isint(a)
            if t == "B":
                isb(a)
        if name in PURE:
            r = PURE[name](*args)
            return list(r) if isinstance(r, tuple) else [r]
        if name in PURE_IMM:
            return [PURE_IMM[name](tuple(int(i) for i in imms), *args)]
        if name in SHORT_PRINTABLE:
            return [_h(name, *args)]
        own = self.ctx.get("group_index", 2)
        if name == "txn":
            return [self.txn(own, imms[0])]
        if name == "txna":
            return [self.txn(own, imms[0], int(imms[1]))]
        if name == "txnas":
            return [self.txn(own, imms[0], args[0])]
        if name == "gtxn":
            return [self.txn(int(imms[0]), imms[1])]
        if name == "gtxna":
            return [self.txn(int(imms[0]), imms[1], int(imms[2]))]
        if name == "gtxnas":
            return [self.txn(int(imms[0]), imms[1], args[0])]
        if name == "gtxns":
            return [self.txn(args[0], imms[0])]
        if name == "gtxnsa":
            return [self.txn(args[0], imms[0], int(imms[1]))]
        if name == "gtxnsas":
            return [self.txn(args[0], imms[0], args[1])]
        if name == "global":
            return [self.global_(imms[0])]
        if name == "itxn":
            return [self.itxn(imms[0])]
        if name == "itxna":
            return [self.itxn(imms[0], int(imms[1]))]
        if name == "itxnas":
            return [self.itxn(imms[0], args[0])]
        if name == "itxn_begin":
            return self.itxn_begin() or []
        if name == "itxn_next":
            return self.itxn_next() or []
        if name == "itxn_submit":
            return self.itxn_submit() or []
        if name == "itxn_field":
            return self.itxn_field(imms[0], args[0]) or []
        if name == "log":
            need(len(self.logs) < 32 or self.ctx.get("nolog"))
            self.logs.append(args[0])
            self.effect("log", args[0])
            return []
        if name.startswith("box_"):
            r = self.box(name, *args)
            self.effect(name, *args)
            return r
        # pseudo opcode: result depends on everything
        rets = spec.get("Returns", "")
        stateful = "app_" in name or name in ("balance", "min_balance", "acct_params_get", "asset_params_get",
                                              "asset_holding_get", "block", "gaid", "gaids", "gload", "gloads", "gloadss")
        self.effect(name, tuple(imms), tuple(args))
        if name == "app_global_get":
            for e in reversed(self.effects[:-1]):
                if e[0] == "app_global_put" and e[2][0] == args[0]:
                    return [e[2][1]]
        n = len([e for e in self.effects if e[0].endswith(("_put", "_del"))]) if stateful else 0
        return [self.pseudo(t, name, tuple(imms), tuple(args), n, k) for k, t in enumerate(rets)]

    def box(self, name, key, *a):
        need(0 < len(key) <= 64)
        if name == "box_create":
            if key in self.boxes:
                need(len(self.boxes[key]) == a[0])
                return [0]
            need(a[0] <= 32768)
            self.boxes[key] = bytes(a[0])
            return [1]
        if name == "box_len":
            return [len(self.boxes[key]), 1] if key in self.boxes else [0, 0]
        if name == "box_get":
            return [self.boxes[key], 1] if key in self.boxes else [b"", 0]
        if name == "box_put":
            need(key not in self.boxes or len(self.boxes[key]) == len(a[0]))
            self.boxes[key] = a[0]
            return []
        if name == "box_del":
            return [1 if self.boxes.pop(key, None) is not None else 0]
        need(key in self.boxes)
        b = self.boxes[key]
        if name == "box_extract":
            return [_sub(b, a[0], a[0] + a[1])]
        if name == "box_replace":
            self.boxes[key] = _replace(b, a[0], a[1])
            return []
        raise AsmError(name)


FIELD_TYPES = dict(zip(OPS["txn"]["ArgEnum"], OPS["txn"]["ArgEnumTypes"]))
FIELD_TYPES.update(dict(zip(OPS["txna"]["ArgEnum"], OPS["txna"]["ArgEnumTypes"])))


class Result:
    def __init__(self, status, world, stack, value=None, slots=None, reason=None, steps=0):
        self.status, self.world, self.stack, self.value = status, world, stack, value
        self.slots, self.reason, self.steps = slots, reason, steps

    def summary(self):
        w = self.world
        return {
            "status": self.status, "value": self.value, "stack": self.stack,
            "logs": w.logs, "groups": w.groups, "pending": w.cur, "boxes": w.boxes, "effects": w.effects,
        }


def run(prog, ctx=None, budget=60000, world=None, on_step=None):
    """Execute an assembled program"""
    w = world or World(ctx)
    stack, calls, slots = [], [], [0] * 256
    pc, steps = 0, 0
    ins = None
    try:
        while pc < len(prog.instrs):
            ins = prog.instrs[pc]
            steps += 1
            if steps > budget:
                raise Budget()
            if on_step:
                on_step(pc, ins, stack, slots, calls)
            op, a = ins.op, ins.args
            pc += 1
            if op in ("pushint", "int"):
                stack.append(NAMED_INTS[a[0]] if a[0] in NAMED_INTS else parse_int(a[0]))
            elif op in ("pushbytes", "byte"):
                stack.append(parse_bytes(a[0]))
            elif op == "load":
                stack.append(slots[int(a[0])])
            elif op == "store":
                slots[int(a[0])] = stack.pop()
            elif op == "loads":
                need(isint(stack[-1]) < 256)
                stack.append(slots[stack.pop()])
            elif op == "stores":
                v = stack.pop()
                need(isint(stack[-1]) < 256)
                slots[stack.pop()] = v
            elif op == "b":
                pc = prog.labels[a[0]]
            elif op == "bz":
                if isint(stack.pop()) == 0:
                    pc = prog.labels[a[0]]
            elif op == "bnz":
                if isint(stack.pop()) != 0:
                    pc = prog.labels[a[0]]
            elif op == "callsub":
                calls.append(pc)
                pc = prog.labels[a[0]]
            elif op == "retsub":
                need(calls)
                pc = calls.pop()
            elif op == "return":
                v = isint(stack.pop())
                return Result("approve" if v else "reject", w, stack, v, slots, None, steps)
            elif op == "err":
                raise Fail("err")
            elif op == "assert":
                need(isint(stack.pop()) != 0)
            elif op == "switch":
                k = isint(stack.pop())
                if k < len(a):
                    pc = prog.labels[a[k]]
            elif op == "match":
                v = stack.pop()
                need(len(stack) >= len(a))
                cands = stack[len(stack) - len(a) :]
                del stack[len(stack) - len(a) :]
                for c, t in zip(cands, a):
                    if type(c) == type(v) and c == v:
                        pc = prog.labels[t]
                        break
            elif op == "pop":
                stack.pop()
            elif op == "dup":
                stack.append(stack[-1])
            elif op == "dup2":
                stack += stack[-2:] if len(stack) >= 2 else _under()
            elif op == "swap":
                stack[-1], stack[-2] = stack[-2], stack[-1]
            elif op == "dig":
                stack.append(stack[-1 - int(a[0])])
            elif op == "uncover":
                stack.append(stack.pop(-1 - int(a[0])))
            elif op == "cover":
                v = stack.pop()
                n = int(a[0])
                need(n <= len(stack))
                stack.insert(len(stack) - n, v)
            elif op == "replace":
                if a:
                    b2 = isb(stack.pop())
                    stack.append(_replace(isb(stack.pop()), int(a[0]), b2))
                else:
                    b2, s = isb(stack.pop()), isint(stack.pop())
                    stack.append(_replace(isb(stack.pop()), s, b2))
            else:
                n = len(OPS[op].get("Args", "")) if op in OPS else 0
                need(len(stack) >= n)
                args = stack[len(stack) - n :]
                del stack[len(stack) - n :]
                stack += w.op(op, a, args)
            need(len(stack) <= 1000)
        # falling off the end: succeeds iff exactly one non-zero int is left
        if len(stack) == 1 and isinstance(stack[0], int):
            v = stack.pop()
            return Result("approve" if v else "reject", w, stack, v, slots, None, steps)
        raise Fail("end")
    except Fail as e:
        return Result("fail", w, stack, None, slots, f"{e} at {ins}", steps)
    except IndexError:
        return Result("fail", w, stack, None, slots, f"stack underflow at {ins}", steps)


def _under():
    raise IndexError
