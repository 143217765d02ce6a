"""definitions of the planted bugs: edits are (file under tealish/, old text, new text)"""
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


TEAL = '''
from tealish import compile_program


def teal(src):
    """the instructions of the compiled program, without comments"""
    out = []
    for l in compile_program(src)[0]:
        l = l.split(" //")[0].strip()
        if l and not l.startswith("//"):
            out += [x.strip() for x in l.split(";") if x.strip()]
    return out
'''

bug("C01-group-array-order", "C01", "a group transaction array field whose two indices are both computed",
    "the two indices of Gtxn[i].Field[j] are evaluated in the wrong order, so each is used for the other",
    [("expression_nodes.py", '''            writer.write(self, self.index)
            if not isinstance(self.arrayIndex, Integer):
                # arrayIndex is an expression that needs to be evaluated
                writer.write(self, self.arrayIndex)
                writer.write(self, f"gtxnsas {self.field}")
            else:
                # arrayIndex is a constant
                writer.write(''', '''            if not isinstance(self.arrayIndex, Integer):
                # arrayIndex is an expression that needs to be evaluated
                writer.write(self, self.arrayIndex)
                writer.write(self, self.index)
                writer.write(self, f"gtxnsas {self.field}")
            else:
                # arrayIndex is a constant
                writer.write(self, self.index)
                writer.write(''')],
    TEAL + '''
t = teal("int i = 3\\nint j = 5\\nbytes b = Gtxn[i].ApplicationArgs[j]\\nexit(1)\\n")
k = t.index("gtxnsas ApplicationArgs")
assert t[k - 2:k] == ["load 0", "load 1"], t
''')

bug("C01-not-of-not", "C01", "! directly applied to another ! of a value that is neither 0 nor 1",
    "the pair of negations is dropped, so !!x yields x instead of 0 or 1",
    [("expression_nodes.py", '''        self.op = op
        self.nodes = [a]
        self.parent = parent
''', '''        self.op = op
        self.nodes = [a]
        self.parent = parent
        # a negation of a negation is the value itself
        self.cancelled = isinstance(a, UnaryOp) and a.op == op
'''), ("expression_nodes.py", '''        writer.write(self, self.a)
        writer.write(self, f"{self.op}")

    def _tealish(self) -> str:
        return f"{self.op}{self.a.tealish()}"''', '''        if self.cancelled:
            writer.write(self, self.a.a)
        else:
            writer.write(self, self.a)
            writer.write(self, f"{self.op}")

    def _tealish(self) -> str:
        return f"{self.op}{self.a.tealish()}"''')],
    TEAL + '''
t = teal("int x = 5\\nint y = !!x\\nexit(y)\\n")
assert t.count("!") == 2, t
''')

bug("C02-elif-fallthrough", "C02", "an if with exactly two elifs and no else whose first elif is taken (or the last but one of several)",
    "after the last but one elif body the next elif is tested, and possibly executed, too",
    [("nodes.py", "if i != (len(self.elifs) - 1) or self.else_:", "if i + 1 < len(self.elifs) - 1 or self.else_:")],
    TEAL + '''
t = teal("int x = 1\\nif x == 0:\\nx = 10\\nelif x == 1:\\nx = 11\\nelif x == 2:\\nx = 12\\nend\\nexit(x)\\n")
i = t.index("pushint 11")
assert t[i + 2].startswith("b "), t
''')

bug("C02-break-in-for", "C02", "a break inside a for loop that is itself inside a while loop",
    "the break leaves the for loop only and the while loop goes on",
    [("nodes.py", "        if parent_loop is not None:\n            self.parent_loop = parent_loop\n", "        if parent_loop is not None:\n            # innermost loop\n            self.parent_loop = self.find_parent((WhileStatement, ForStatement, For_Statement))\n")],
    TEAL + '''
t = teal("while 1:\\nfor i in 0:3:\\nbreak\\nend\\nend\\nexit(1)\\n")
start = t.index([l for l in t if l.endswith("_while:")][0])
cond_exit = [l for l in t[start:] if l.startswith("bz ")][0].split()[1]
body = t[[k for k, l in enumerate(t) if l.startswith("bnz ")][0] + 1]
assert body == "b " + cond_exit, t
''')

bug("C03-trailing-underscores", "C03", "a multiple assignment that ends with three or more underscores",
    "the trailing discarded values are dropped with one popn of the wrong count, leaving a value on the stack",
    [("nodes.py", '''                writer.write(self, "pop // discarding value for _")
            else:''',
      '''                rest = [n.value for n in self.name_nodes[i:]]
                if len(rest) > 2 and set(rest) == {"_"}:
                    writer.write(self, f"popn {len(rest) - 1} // discarding values")
                    break
                writer.write(self, f"pop // discarding value for {name.value}")
            else:''')],
    TEAL + '''
t = teal("#pragma version 8\\nint a = 0\\na, _, _, _ = f()\\nexit(a)\\nfunc f() int, int, int, int:\\nreturn 1, 2, 3, 4\\nend\\n")
k = t.index("callsub __func__f")
t = t[k + 1:t.index("return")]
n = sum(1 for x in t if x.split()[0] in ("pop", "store")) + sum(int(x.split()[1]) for x in t if x.startswith("popn"))
loads = sum(1 for x in t if x.startswith("load"))
assert n == 4 and loads == 1, t
''')

bug("C03-return-order-calls", "C03", "a return with several values of which one, not the last, is a call of a user defined function",
    "the values are pushed in another order than the callers expect",
    [("nodes.py", '''            for i, expression in enumerate(self.args_expressions[::-1]):
                writer.write(self, expression)''',
      '''            # calls first, so that their arguments are not mixed with the results
            for expression in sorted(self.args_expressions[::-1], key=lambda e: "(" not in e.tealish()):
                writer.write(self, expression)''')],
    TEAL + '''
t = teal("int a = 0\\nint b = 0\\na, b = f()\\nexit(a)\\nfunc f() int, int:\\nreturn g(), 2\\nend\\nfunc g() int:\\nreturn 1\\nend\\n")
k = t.index("__func__f:")
assert t[k + 1:k + 4] == ["pushint 2", "callsub __func__g", "retsub"], t
''')

bug("C04-block-functions", "C04", "a function with a variable declared inside a block, called while variables of the block or of other blocks are live",
    "variables of functions inside blocks are given the lowest free slots instead of slots of their own",
    [("base.py", 'if "func__" in scope.name:', 'if scope.name.startswith("func__"):')],
    TEAL + '''
src = """jump a
block a:
  int s = 1
  g()
  jump b
  func g():
    int t = 7
    log(itob(t))
    return
  end
end
block b:
  int v = 3
  exit(v)
end
"""
from tealish import TealishCompiler
src = """jump a
block a:
  int s = 1
  int r = 0
  r = g(4)
  exit(s)
  func h(k: int) int:
    int m = 8
    return k + m
  end
  func g(n: int) int:
    int t = h(n)
    return t + n
  end
end
"""
t = teal(src)
h = t[t.index("a__func__h:"):t.index("a__func__g:")]
g = t[t.index("a__func__g:"):]
sh = {x.split()[1] for x in h if x.startswith("store")}
sg = {x.split()[1] for x in g if x.startswith("store")}
assert not (sh & sg), (sh, sg)
''')

bug("C05-any-into-uint8", "C05", "a value of unknown type (such as the result of app_global_get) assigned to, or passed for, a small unsigned integer",
    "values of any type are accepted for uint8",
    [("types.py", "if isinstance(other, AnyType) and self.size == 8:", "if isinstance(other, AnyType) and self.size:")],
    '''
from tealish import compile_program
try:
    compile_program('uint8 x = app_global_get("a")\\nexit(x)\\n')
except Exception as e:
    assert "ncorrect type" in str(e), e
else:
    assert False, "accepted"
''')

bug("C05-struct-smaller", "C05", "a byte string of known length shorter than a struct, assigned to a variable of the struct type",
    "structs accept byte strings that are too short",
    [("types.py", '''            if not other.size:
                return False
            if self.size == other.size:
                return True
        return False


class BoxType(BytesType):''', '''            if not other.size:
                return False
            if self.size >= other.size:
                return True
        return False


class BoxType(BytesType):''')],
    '''
from tealish import compile_program
try:
    compile_program('struct S:\\na: int\\nend\\nS s = bzero(7)\\nexit(1)\\n')
except Exception as e:
    assert "ncorrect type" in str(e), e
else:
    assert False, "accepted"
''')

bug("C06-uint8-width", "C06", "a struct with a small unsigned integer field that is followed by another field",
    "a uint8 field moves the fields behind it by 8 bytes instead of 1",
    [("types.py", "        self.size += tealish_type.size\n", "        self.size += IntType.size if isinstance(tealish_type, IntType) else tealish_type.size\n")],
    '''
from tealish import inspect_program
s = inspect_program("struct S:\\na: uint8\\nb: int\\nend\\nexit(1)\\n")["structs"]["S"]
assert s["size"] == 9 and s["fields"]["b"]["offset"] == 1, s
''')

bug("C06-box-int-size", "C06", "OpenBox or CreateBox of a struct with an array field",
    "the size asserted and allocated for a box leaves the array fields out",
    [("nodes.py", "        self.box_size = self.struct.size\n", "        self.box_size = sum(f.tealish_type.size for f in self.struct.fields.values() if f.tealish_type.name != 'array')\n")],
    TEAL + '''
t = teal('struct S:\\na: int\\nb: uint8[4]\\nend\\nbox<S> s = CreateBox("k")\\nexit(1)\\n')
assert t[t.index("box_create") - 1] == "pushint 12", t
''')

bug("C07-convert-nine", "C07", "Convert of an integer to bytes of exactly nine bytes",
    "the result is not padded and has eight bytes",
    [("stdlib.py", '''            if self.size and self.size < 8:
                writer.write(self, f"extract {8 - self.size} {self.size}")
            elif self.size > 8:''', '''            if self.size and self.size < 8:
                writer.write(self, f"extract {8 - self.size} {self.size}")
            elif self.size - 1 > 8:''')],
    TEAL + '''
t = teal("bytes[9] b = Convert(5, bytes[9])\\nexit(1)\\n")
assert "b|" in t and "pushint 9" in t, t
''')

bug("C07-lpad-literal", "C07", "Lpad of a value whose length is known when compiling and below 8",
    "the padding of a value of known length is computed for the padded length of 8-byte integers",
    [("stdlib.py", '''                f"pushint {self.size}",
                "swap",
                "-",
                "bzero",
                "swap",
                "concat",''', '''                f"pushint {max(self.size, self.expression.type.size)}",
                "swap",
                "-",
                "bzero",
                "swap",
                "concat",''')],
    TEAL + '''
t = teal('bytes b = Lpad("abcdef", 3)\\nexit(1)\\n')
assert "pushint 3" in t, t
''')

bug("C08-uint8-result", "C08", "a public function that returns a uint8",
    "uint8 results are concatenated and logged without being converted to bytes",
    [("nodes.py", '''                    if isinstance(r, IntType):
                        writer.write(self, "itob")
                # concat''', '''                    if type(r) is IntType:
                        writer.write(self, "itob")
                # concat''')],
    TEAL + '''
t = teal("router:\\nf\\nend\\n@public()\\nfunc f() uint8:\\nreturn 3\\nend\\n")
assert "itob" in t, t
''')

bug("C08-four-results", "C08", "a public function with four or more results",
    "the results from the fourth on are taken from the wrong place on the stack",
    [("nodes.py", 'writer.write(self, f"uncover {i} // {r.name}")', 'writer.write(self, f"uncover {min(i, 2)} // {r.name}")')],
    TEAL + '''
t = teal("router:\\nf\\nend\\n@public()\\nfunc f() int, int, int, int:\\nreturn 1, 2, 3, 4\\nend\\n")
assert "uncover 3" in t, t
''')

bug("C09-function-in-group", "C09", "an inner transaction under an elif in a function that is called inside an inner group",
    "conditional inner transactions outside the text of a group are begun and submitted on their own even while a group is being built",
    [("nodes.py", '''        writer.write(self, f"// tl:{self.line_no}: {self.line}")
        if self.compiler.use_inner_txns_macro:
            writer.write(self, "callsub _itxn_begin")''', '''        writer.write(self, f"// tl:{self.line_no}: {self.line}")
        if self.compiler.use_inner_txns_macro and (
            self.group is not None or not isinstance(self.parent, Elif)
        ):
            writer.write(self, "callsub _itxn_begin")''')],
    TEAL + '''
t = teal("inner_group:\\nf()\\nend\\nexit(1)\\nfunc f():\\nif 0:\\nelif 1:\\ninner_txn:\\nTypeEnum: Pay\\nend\\nend\\nreturn\\nend\\n")
k = t.index("__func__f:")
assert "callsub _itxn_begin" in t[k:t.index("retsub", k)], t
''')

bug("C09-fields-by-name", "C09", "an inner transaction with the elements of two array fields interleaved, or a plain field between elements",
    "array elements are moved behind the other fields",
    [("nodes.py", '''            writer.write(self, "itxn_begin")
            writer.level += 1
            for node in self.child_nodes:
                writer.write(self, node)''', '''            writer.write(self, "itxn_begin")
            writer.level += 1
            for node in sorted(self.child_nodes, key=lambda n: getattr(n, "index", None) is not None):
                writer.write(self, node)''')],
    TEAL + '''
t = teal('inner_txn:\\nApplicationArgs[0]: "a"\\nFee: 0\\nend\\nexit(1)\\n')
assert t.index("itxn_field ApplicationArgs") < t.index("itxn_field Fee"), t
''')

bug("C10-nearest-pc", "C10", "a lookup of a program counter that the source map does not list",
    "a pc that is not in the map is resolved to the line of the nearest earlier pc",
    [("utils.py", "        return self.pc_teal.get(pc, None)", "        return self.pc_teal.get(max((p for p in self.pc_teal if p <= pc), default=None))")],
    '''
from tealish.utils import TealishMap
m = TealishMap({"pc_teal": {1: 1, 3: 2}, "teal_tealish": {1: 1, 2: 2}, "errors": {2: "x"}})
assert m.get_tealish_line_for_pc(2) is None and m.get_error_for_pc(9) is None
assert m.get_tealish_line_for_pc(3) == 2
''')

bug("C10-elif-condition", "C10", "an elif on a later line than its if",
    "the test of an elif is attributed to the line of the last statement before it",
    [("__init__.py", '''            if hasattr(parent, "line_no"):
                self.current_input_line = parent.line_no''', '''            if hasattr(parent, "line_no") and not 0 < (parent.line_no or 0) < self.current_input_line:
                self.current_input_line = parent.line_no''')],
    '''
from tealish import compile_program
teal, m = compile_program("while 1:\\nint x = 1\\nend\\nexit(1)\\n")
k = [i for i, l in enumerate(teal) if l.strip().startswith("b l0_while")][0] + 1
assert m.get_tealish_line_for_teal(k) == 1, m.teal_tealish
''')

bug("C11-inline-teal-spaces", "C11", "an inline TEAL line with several spaces in a row inside a string",
    "formatting collapses runs of spaces inside inline TEAL",
    [("nodes.py", '            output += indent(n.line) + "\\n"\n        output += "end\\n"\n        return output\n\n\nclass InnerTxnFieldSetter', '            output += indent(" ".join(n.line.split())) + "\\n"\n        output += "end\\n"\n        return output\n\n\nclass InnerTxnFieldSetter')],
    '''
from tealish import reformat_program
assert 'byte "a  b"' in reformat_program('teal:\\nbyte "a  b"\\npop\\nend\\nexit(1)\\n')
''')

bug("C11-two-decorators", "C11", "a function with more than one decorator",
    "the formatter keeps only the last of several decorators of a function",
    [("nodes.py", "        for n in self.decorators:\n            output += n.tealish()", "        for n in self.decorators:\n            output = n.tealish()")],
    '''
from tealish import reformat_program
f = reformat_program("router:\\nf\\nend\\n@public(OnCompletion=OptIn)\\n@other()\\nfunc f():\\nreturn\\nend\\n")
assert "@public(OnCompletion=OptIn)\\n@other()\\nfunc f():" in f, f
''')

bug("C11-first-index", "C11", "an inner transaction with an array field of several items",
    "the formatter leaves out the index of the first item of an array field",
    [("nodes.py", 'array_index = f"[{self.index}]" if self.index is not None else ""', 'array_index = f"[{self.index}]" if int(self.index or 0) else ""')],
    '''
from tealish import compile_program, reformat_program
s = "inner_txn:\\nTypeEnum: Appl\\nApplicationArgs[0]: \\"a\\"\\nApplicationArgs[1]: \\"b\\"\\nend\\nexit(1)\\n"
compile_program(s)
compile_program(reformat_program(s))
''')

bug("C12-extra-returns", "C12", "a return with more values than the function declares",
    "a return with too many values is accepted",
    [("nodes.py", "if len(self.args_expressions) != len(self.func.returns):", "if len(self.args_expressions) < len(self.func.returns):")],
    '''
from tealish import compile_program
try:
    compile_program("exit(1)\\nfunc f() int:\\nreturn 1, 2\\nend\\n")
except Exception:
    pass
else:
    assert False, "accepted"
''')

bug("C12-teal-after-return", "C12", "a function that ends with inline TEAL behind its return statement",
    "a function is accepted whose last statement is not a return",
    [("nodes.py", "last_node = [n for n in func.nodes if type(n) not in {cls, Comment, Blank}][-1]", "last_node = [n for n in func.nodes if type(n) not in {cls, Comment, Blank, Teal}][-1]")],
    '''
from tealish import compile_program
try:
    compile_program("exit(1)\\nfunc f():\\nreturn\\nteal:\\nint 1\\nend\\nend\\n")
except Exception:
    pass
else:
    assert False, "accepted"
''')

bug("C13-function-labels", "C13", "functions of the same name in two nested blocks of the same name within different blocks",
    "function labels only name the innermost block, so two functions get the same label",
    [("nodes.py", 'self.label = scope.name + "__func__" + self.name', 'self.label = scope.name.split("__")[-1] + "__func__" + self.name')],
    TEAL + '''
inner = "block c:\\nf()\\nexit(1)\\nfunc f():\\nreturn\\nend\\nend\\n"
t = teal("jump a\\nblock a:\\njump c\\n" + inner + "end\\nblock b:\\njump c\\n" + inner + "end\\n")
labels = [l for l in t if l.endswith(":")]
assert len(labels) == len(set(labels)), labels
''')

bug("C13-index-in-group", "C13", "an if inside an elif of an if, or after a for _ loop",
    "for _ loops do not count, so that the next conditional has the same number",
    [("nodes.py", '''        super().__init__(line, parent, compiler)
        self.conditional_index = compiler.conditional_count
        compiler.conditional_count += 1
        self.start_label = f"l{self.conditional_index}_for"
        self.end_label = f"l{self.conditional_index}_end"
        self.new_scope(f"for__{self.conditional_index}")

    @classmethod
    def consume(cls, compiler: "TealishCompiler", parent: Node) -> "For_Statement":''', '''        super().__init__(line, parent, compiler)
        self.conditional_index = compiler.conditional_count
        if not isinstance(parent, (For_Statement, ForStatement)):
            compiler.conditional_count += 1
        self.start_label = f"l{self.conditional_index}_for"
        self.end_label = f"l{self.conditional_index}_end"
        self.new_scope(f"for__{self.conditional_index}")

    @classmethod
    def consume(cls, compiler: "TealishCompiler", parent: Node) -> "For_Statement":''')],
    TEAL + '''
t = teal("for i in 0:2:\\nfor _ in 0:3:\\nint x = 1\\nend\\nif 1:\\nlog(\\"a\\")\\nend\\nend\\nexit(1)\\n")
labels = [l for l in t if l.endswith(":")]
assert len(labels) == len(set(labels)), labels
''')

bug("C14-three-labels", "C14", "three labels in a row in the TEAL given to minify_teal, with a branch to the third",
    "branches to the third label of a row are sent to the second, which was removed",
    [("utils.py", "                    label_replacements[label] = previous_label\n                    continue\n                previous_line_is_label = True\n                previous_label = label\n", "                    label_replacements[label], previous_label = previous_label, label\n                    continue\n                previous_line_is_label = True\n                previous_label = label\n")],
    '''
from tealish.utils import minify_teal
out, _ = minify_teal(["b c", "a:", "b:", "c:", "int 1"])
assert "b a" in out and "a:" in out, out
''')

bug("C14-comment-backslash", "C14", "a comment line that ends with a backslash, a quote or a semicolon followed by code",
    "the text of a comment behind a semicolon is written on a line of its own, as code",
    [("nodes.py", '''        writer.write(self, f"//{self.comment}")''', '''        # one line for each part of the comment
        for part in f"//{self.comment}".split(" ; "):
            writer.write(self, part)''')],
    TEAL + '''
assert teal("# a ; err\\nexit(1)\\n") == ["pushint 1", "return"]
''')

bug("C15-shared-type", "C15", "a setbyte of a byte string of known length, and later another program (or expression) with an opcode that yields bytes",
    "the length of the result of a setbyte is stored in the type object all opcodes share",
    [("expression_nodes.py", "        self.type = returns[0] if len(returns) == 1 else returns\n", "        # setbyte keeps the length of its first argument\n        if self.name == \"setbyte\" and getattr(self.args[0].type, \"size\", 0):\n            returns[0].size = self.args[0].type.size\n        self.type = returns if len(returns) != 1 else returns[0]\n")],
    '''
from tealish import compile_program
b = 'bytes[3] x = sha256("a")\\nexit(1)\\n'
def run():
    try:
        return compile_program(b)[0]
    except Exception as e:
        return str(e)
before = run()
compile_program('bytes x = setbyte("abc", 0, 1)\\nexit(1)\\n')
assert run() == before, run()
''')

bug("C16-local-spec-merged", "C16", "a langspec.json in the working directory that lacks an opcode of the packaged one",
    "opcodes missing from the local specification are still accepted",
    [("langspec.py", '    local_lang_spec = LangSpec(json.load(open("langspec.json")))', '''    _local = json.load(open("langspec.json"))
    _names = {op["Name"] for op in _local["Ops"]}
    _local["Ops"] = _local["Ops"] + [op for op in packaged_lang_spec.spec["Ops"] if op["Name"] not in _names]
    local_lang_spec = LangSpec(_local)''')],
    '''
import json, subprocess, tempfile
repo = os.getcwd()
spec = json.load(open(os.path.join(repo, "tealish", "langspec.json")))
spec["Ops"] = [o for o in spec["Ops"] if o["Name"] != "sha256"]
with tempfile.TemporaryDirectory() as d:
    json.dump(spec, open(os.path.join(d, "langspec.json"), "w"))
    r = subprocess.run([sys.executable, "-c", "import sys\\nsys.path.insert(0, %r)\\nfrom tealish.langspec import get_active_langspec\\nprint('sha256' in get_active_langspec().ops)" % repo], cwd=d, capture_output=True, text=True)
assert r.stdout.strip() == "False", r
''')

bug("C16-itxn-fields", "C16", "an opcode with field immediates of a type other than int that is not a txn or global field opcode",
    "the field types of two-result opcodes are taken in reverse",
    [("langspec.py", "            self.arg_enum_dict = dict(zip(self.arg_enum, self.arg_enum_types))\n", "            types = self.arg_enum_types if self.arg_types == [] or len(self.returns_types) < 2 else self.arg_enum_types[::-1]\n            self.arg_enum_dict = dict(zip(self.arg_enum, types))\n")],
    '''
from tealish.langspec import packaged_lang_spec as s
bad = [o.name for o in s.ops.values() if o.arg_enum and o.arg_enum_dict and any(o.arg_enum_dict[f].name != t.name for f, t in zip(o.arg_enum, o.arg_enum_types))]
assert not bad, bad
''')

bug("C17-output-first", "C17", "compiling a file that is rejected when an earlier compilation left output",
    "the existing output is emptied when the source is rejected",
    [("cli.py", '''        teal, tealish_map = _compile_program(open(path).read())
        teal_string = "\\n".join(teal + [""])
        with open(teal_filename, "w") as f:
            f.write("\\n".join(teal + [""]))
''', '''        with open(teal_filename, "w") as f:
            teal, tealish_map = _compile_program(open(path).read())
            teal_string = "\\n".join(teal + [""])
            f.write(teal_string)
''')],
    '''
import tempfile, pathlib
from click.testing import CliRunner
from tealish.cli import cli
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / "a.tl"
    p.write_text("exit(1)\\n")
    assert CliRunner().invoke(cli, ["compile", str(p)]).exit_code == 0
    out = pathlib.Path(d) / "build" / "a.teal"
    before = out.read_text()
    p.write_text("exit(\\n")
    assert CliRunner().invoke(cli, ["compile", str(p)]).exit_code != 0
    assert out.read_text() == before
''')

bug("C17-format-leftover", "C17", "formatting a file whose formatted text is shorter than the original",
    "the end of the old text is left behind the formatted text",
    [("cli.py", "    tealish_file.write(output)\n    tealish_file.truncate()\n", "    tealish_file.write(output)\n    if len(output) > len(input):\n        tealish_file.truncate()\n")],
    '''
import tempfile, pathlib
from click.testing import CliRunner
from tealish import reformat_program
from tealish.cli import cli
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / "a.tl"
    src = "        exit(   1   )      \\n\\n\\n\\n"
    p.write_text(src)
    assert CliRunner().invoke(cli, ["format", str(p)]).exit_code == 0
    assert p.read_text() == reformat_program(src), p.read_text()
''')

bug("C02-while-constant", "C02", "a while loop whose condition is a declared constant with the value 0",
    "the test of a condition known at compile time to be other than 0 is left out; the value of a declared constant is text, so \"0\" counts as such and the loop never ends",
    [("nodes.py", '''        writer.write(self, self.condition)
        if self.modifier == "not":
            writer.write(self, f"bnz {self.end_label}")
''', '''        from .expression_nodes import Constant

        always = False
        if self.modifier != "not" and isinstance(self.condition, Constant):
            always = bool(self.condition.value)
        if not always:
            writer.write(self, self.condition)
        if always:
            # nothing to test
            pass
        elif self.modifier == "not":
            writer.write(self, f"bnz {self.end_label}")
''')],
    TEAL + '''
t = teal("const int DEBUG = 0\\nint i = 1\\nwhile DEBUG:\\n  i = 2\\nend\\nexit(i)\\n")
assert "bz l0_end" in t, t
''')

bug("C01-inverse-comparison", "C01", "the negation of a grouped >= comparison",
    "!(a >= b) is emitted as a <= b",
    [("expression_nodes.py", '''class UnaryOp(BaseNode):
    def __init__(self, op: str, a: "Node", parent: Optional[BaseNode] = None) -> None:
        self.a = a
        self.op = op
        self.nodes = [a]
        self.parent = parent

    def process(self) -> None:
        self.a.process()
        self.check_arg_types(self.op, [self.a])
        op = self.lookup_op(self.op)
        self.type = type_lookup(op.returns)

    def write_teal(self, writer: "TealWriter") -> None:
        writer.write(self, self.a)
        writer.write(self, f"{self.op}")
''', '''class UnaryOp(BaseNode):
    def __init__(self, op: str, a: "Node", parent: Optional[BaseNode] = None) -> None:
        self.a = a
        self.op = op
        self.nodes = [a]
        self.parent = parent

    def process(self) -> None:
        self.a.process()
        self.check_arg_types(self.op, [self.a])
        op = self.lookup_op(self.op)
        self.type = type_lookup(op.returns)

    def write_teal(self, writer: "TealWriter") -> None:
        comparison = getattr(self.a, "expression", None)
        inverse = {"==": "!=", "!=": "==", "<": ">=", ">": "<=", "<=": ">", ">=": "<="}
        if (
            self.op == "!"
            and isinstance(comparison, BinaryOp)
            and comparison.op in inverse
        ):
            # one operation less
            writer.write(self, comparison.a)
            writer.write(self, comparison.b)
            writer.write(self, inverse[comparison.op])
        else:
            writer.write(self, self.a)
            writer.write(self, f"{self.op}")
''')],
    TEAL + '''
t = teal("int a = 1\\nint b = 2\\nexit(!(a >= b))\\n")
assert t[-4:] == [">=", "!", "return"][-4:] or t[-2] in ("!", "<"), t
''')

bug("C07-cast-struct", "C07", "a cast of a struct to a struct, or byte string, of another size",
    "the length of a struct counts as known, so the cast of one to another size is not checked at run time and succeeds",
    [("stdlib.py", '''            self.expression = BytesSizeAssertionWrapper(self.expression, self.type.size)
            self.expression.process()
        else:
            raise CompileError(
                f"Unexpected cast''', '''            if not getattr(self.expression.type, "fields", None):
                # the length of a struct is known
                self.expression = BytesSizeAssertionWrapper(
                    self.expression, self.type.size
                )
                self.expression.process()
        else:
            raise CompileError(
                f"Unexpected cast''')],
    TEAL + '''
t = teal("struct A:\\n  x: int\\n  y: int\\nend\\nA a = bzero(16)\\nbytes[8] y = Cast(a, bytes[8])\\nexit(1)\\n")
assert len([x for x in t if x.startswith("assert")]) == 1, t
''')

bug("C11-frombytes-args", "C11", "formatting a program that uses FromBytes",
    "the type argument is dropped from the arguments once it is known, so the formatter prints the call with one argument",
    [("stdlib.py", '''        to_type = get_type_instance(self.args[1].name)
''', '''        to_type = get_type_instance(self.args.pop().name)
''')],
    '''
from tealish import reformat_program
s = 'int b = FromBytes("x", int)\\nexit(b)\\n'
assert reformat_program(s) == s, reformat_program(s)
''')

bug("C12-end-prefix", "C12", "a loop with a line that begins with the word end, such as an assignment to end_time",
    "the loop ends at that line, which is dropped without a word",
    [("nodes.py", '''        node = For_Statement(compiler.consume_line(), parent, compiler=compiler)
        while True:
            if compiler.peek() == "end":
''', '''        node = For_Statement(compiler.consume_line(), parent, compiler=compiler)
        while True:
            if re.match("end", compiler.peek()):
''')],
    TEAL + '''
try:
    t = teal("int end_time = 0\\nfor _ in 0:3:\\n  end_time = 7\\nend\\nexit(end_time)\\n")
    assert "pushint 7" in t, t
except AssertionError:
    raise
except Exception as e:
    assert False, e
''')

bug("C05-literal-width", "C05", "an integer literal of 256 or more given to a parameter of type uint8",
    "integer literals are accepted for every integer parameter whatever their width",
    [("expression_nodes.py", '''            if expected_args[i].can_hold(incoming_arg.type):  # type: ignore
                continue
''', '''            expected = expected_args[i]
            if expected.can_hold(incoming_arg.type) or (
                # literals are adapted to the parameter
                isinstance(incoming_arg, Integer)
                and expected.can_hold_with_cast(incoming_arg.type)
            ):
                continue
''')],
    TEAL + '''
from tealish.errors import CompileError
try:
    teal("exit(f(300))\\nfunc f(x: uint8) int:\\n  return x\\nend\\n")
except CompileError:
    pass
else:
    assert False
''')

bug("C10-max-line", "C10", "a function defined before a later block of the program whose code is emitted after it",
    "the line of a TEAL line is never taken from a node on an earlier source line than the last",
    [("__init__.py", '''            if hasattr(parent, "line_no"):
                self.current_input_line = parent.line_no
''', '''            line_no = getattr(parent, "line_no", None)
            if line_no and line_no >= (self.current_input_line or 0):
                self.current_input_line = line_no
''')],
    '''
from tealish import compile_program
s = "exit(f(1))\\nfunc f(x: int) int:\\n  while x < 3:\\n    x = x + 1\\n  end\\n  return x\\nend\\n"
t, m = compile_program(s)
for i, l in enumerate(t):
    if l.strip().startswith("b l0_while"):
        assert m.teal_tealish[i + 1] == 3, m.teal_tealish
''')

bug("C02-switch-once", "C02", "a switch on a function call with an effect, such as one that counts its calls in a global",
    "the value is evaluated once and kept on the stack for the options; the copy is still there at the target block",
    [("nodes.py", '''        for node in self.options:
            writer.write(self, self.expression)
            writer.write(self, node.expression)
            writer.write(self, "==")
''', '''        if len(self.options) > 4:
            writer.write(self, self.expression)
        for node in self.options:
            if len(self.options) > 4:
                # evaluate once only
                writer.write(self, "dup")
            else:
                writer.write(self, self.expression)
            writer.write(self, node.expression)
            writer.write(self, "==")
''')],
    TEAL + '''
opts = "".join("  %d: a\\n" % i for i in range(5))
t = teal("int x = 1\\nswitch x:\\n" + opts + "  else: a\\nend\\nblock a:\\n  exit(1)\\nend\\n")
assert t.count("dup") == 0 or "pop" in t, t
''')

bug("C03-args-by-name", "C03", "a function with two or more parameters of which a later one has the same name as a variable argument given for an earlier one",
    "an argument that is a variable with the name of a parameter is bound to the parameter of that name",
    [("expression_nodes.py", '''        for i, arg in enumerate(self.args):
            writer.write(self, arg)
        writer.write(self, f"callsub {self.func.label}")
''', '''        names = [name for name, _ in self.func.args.args]
        args = list(self.args)
        if {getattr(arg, "name", None) for arg in args} == set(names):
            # named as the parameters
            args.sort(key=lambda arg: names.index(arg.name))
        for arg in args:
            writer.write(self, arg)
        writer.write(self, f"callsub {self.func.label}")
''')],
    TEAL + '''
t = teal("exit(g(1, 2))\\nfunc g(a: int, b: int) int:\\n  return f(b, a)\\nend\\nfunc f(a: int, b: int) int:\\n  return a\\nend\\n")
k = t.index("callsub __func__f")
g = t.index("__func__g:")
assert [x.split()[1] for x in t[k - 2:k]] == [x.split()[1] for x in t[g + 1:g + 3]], t
''')

bug("C06-struct-in-struct", "C06", "a struct that has a field of a struct type defined before it with bytes fields",
    "fields that follow a field of a struct type are laid out after the number of its fields",
    [("types.py", '''        self.fields[field_name] = field
        self.size += tealish_type.size
''', '''        self.fields[field_name] = field
        self.size += len(getattr(tealish_type, "fields", ())) * 8 or tealish_type.size
''')],
    '''
from tealish import inspect_program
r = inspect_program("struct A:\\n  x: bytes[32]\\nend\\nstruct B:\\n  a: A\\n  y: int\\nend\\nexit(1)\\n")
assert r["structs"]["B"]["fields"]["y"]["offset"] == 32, r
''')

bug("C16-arg-order-swap", "C16", "an opcode with four stack arguments of which only three are given",
    "too few arguments are accepted for opcodes that take four or more",
    [("expression_nodes.py", '''        if len(self.args) != num_args:
            raise CompileError(f"Expected {num_args} args for {op.name}!", node=self)
''', '''        if len(self.args) > num_args or (num_args < 4 and len(self.args) < num_args):
            raise CompileError(f"Expected {num_args} args for {op.name}!", node=self)
''')],
    TEAL + '''
from tealish.errors import CompileError
try:
    t = teal("int a\\nint b\\nint c\\nint d\\na, b, c, d = divmodw(1, 2, 3)\\nexit(1)\\n")
except CompileError:
    pass
else:
    assert False, t
''')


bug("C08-inherits-guard", "C08", "a router in which a route without OnCompletion follows one with OnCompletion",
    "a route without OnCompletion is guarded by that of the route before it",
    [("nodes.py", '''        for i, route in enumerate(self.routes):
            writer.write(self, f"{route.label}:")
''', '''        oc = "NoOp"
        for i, route in enumerate(self.routes):
            writer.write(self, f"{route.label}:")
'''), ("nodes.py", '''func.attributes["public"].get("OnCompletion", "NoOp")''', '''func.attributes["public"].get("OnCompletion", oc)''')],
    TEAL + '''
t = teal("router:\\nf\\ng\\nend\\n@public(OnCompletion=OptIn)\\nfunc f():\\nreturn\\nend\\n@public()\\nfunc g():\\nreturn\\nend\\n")
k = t.index("callsub __func__g")
assert "pushint 0" in t[k - 5:k], t
''')

bug("C02-switch-after-else", "C02", "a switch whose else line is written before an option",
    "the options of a switch behind its else line are dropped",
    [("nodes.py", '''        self.options.append(node)
''', '''        if self.else_ is None:
            self.options.append(node)
''')],
    TEAL + '''
t = teal("switch Txn.Fee:\\n1: a\\nelse: b\\n2: a\\nend\\nblock a:\\nexit(1)\\nend\\nblock b:\\nexit(0)\\nend\\n")
assert "pushint 2" in t, t
''')

bug("C12-block-trailing", "C12", "a statement on the line of a block's name",
    "what is written behind the colon of a block is accepted and dropped",
    [("nodes.py", '''    pattern = r"block (?P<name>[a-zA-Z_0-9]+):$"
''', '''    pattern = r"block (?P<name>[a-zA-Z_0-9]+):"
''')],
    TEAL + '''
from tealish.errors import ParseError, CompileError
try:
    t = teal("jump a\\nblock a: log(\\"x\\")\\nexit(1)\\nend\\n")
except (ParseError, CompileError):
    pass
else:
    assert False, t
''')

bug("C17-dotted-name", "C17", "a source file whose name has another dot before .tl",
    "the output file is named after the part of the name before its first dot, so that the outputs of two sources overwrite each other",
    [("cli.py", '''        base_filename = filename.replace(".tl", "")
''', '''        base_filename = filename.split(".")[0]
''')], '''
import os, tempfile
from pathlib import Path
from tealish.cli import _build
with tempfile.TemporaryDirectory() as d:
    for v in (1, 2):
        with open(os.path.join(d, f"app.v{v}.tl"), "w") as f:
            f.write(f"exit({v})\\n")
    _build(Path(d), quiet=True)
    names = sorted(os.listdir(os.path.join(d, "build")))
    assert names == ["app.v1.teal", "app.v2.teal"], names
''')

bug("C10-reverse-runs", "C10", "a Tealish line whose TEAL lies in more than one place, like the parts of a conditional",
    "the reverse map lists every TEAL line between the first and the last one of a Tealish line",
    [("utils.py", '''        return self.tealish_teal.get(tealish_line, [])
''', '''        lines = self.tealish_teal.get(tealish_line, [])
        return list(range(lines[0], lines[-1] + 1)) if lines else []
''')], '''
from tealish import compile_program
s = "int x = 1\\nwhile x < 3:\\n  x = x + 1\\nend\\nexit(1)\\n"
t, m = compile_program(s)
want = [k for k, v in m.teal_tealish.items() if v == 2]
assert m.get_teal_lines_for_tealish(2) == want, (m.get_teal_lines_for_tealish(2), want)
''')

bug("C13-label-innermost", "C13", "blocks of the same name two levels deep in different blocks of the same name",
    "the label of a block names only the innermost block around it",
    [("nodes.py", '''        self.label = scope.name + ("__" if scope.name else "") + self.name
''', '''        self.label = scope.name.split("__")[-1] + ("__" if scope.name else "") + self.name
''')],
    TEAL + '''
s = "exit(1)\\n" + "".join(f"block {n}:\\nexit(1)\\nblock x:\\nexit(2)\\nblock y:\\nexit(3)\\nend\\nend\\nend\\n" for n in ("a", "b"))
t = [l for l in teal(s) if l.endswith(":")]
assert len(t) == len(set(t)), t
''')

bug("C15-decorators-kept", "C15", "two programs compiled one after the other, one with a public function and one with a function of the same name without decorator",
    "the decorators of functions are kept by name across programs",
    [("nodes.py", '''        self.attributes = {}
''', '''        self.attributes = ATTRIBUTES.setdefault(self.name, {})
'''), ("nodes.py", '''class Decorator(Node):
    pattern = ''', '''ATTRIBUTES: Dict[str, dict] = {}


class Decorator(Node):
    pattern = ''')], '''
from tealish import compile_program
from tealish.errors import CompileError
s = "router:\\nf\\nend\\n{}func f():\\nreturn\\nend\\n"
compile_program(s.format("@public()\\n"))
try:
    compile_program(s.format(""))
except CompileError:
    pass
else:
    assert False
''')
