import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe:a["observe_at"]=observe
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Expressions compute their documented value on the stack",
"The TEAL emitted for any accepted expression (literals, constants, variables, grouped unary and binary operators, opcode calls, transaction, group, inner-transaction and global fields, and their indexed forms) leaves exactly the value or values the language guide gives it, in order, on top of an otherwise untouched stack. Each operand is evaluated exactly once, left to right, with no short-circuiting, and the operator, opcode, field name and every immediate argument reach the TEAL unchanged. This holds for every nesting of expressions and for every value, index and operand type.",
["programs","inputs"],"every expression of the grammar (any depth, any operand, any literal, any index) in every run-time state",
"The tests compare the emitted text of about forty sample expressions; correctness for all nestings, operand types, literals and run-time states is a statement about infinitely many programs and executions.",
["tealish/expression_nodes.py","tealish/tealish_expressions.tx","tealish/base.py"],
[("operand/operator emission","expression_nodes.py: UnaryOp, BinaryOp, Group, OpCall, *Field .write_teal"),("grammar","tealish_expressions.tx")],["compile_program() output executed on an AVM model"])

p("C02","Control flow executes as the source structure says",
"For every program, the emitted branches make if/elif/else (with or without not), while, for, break, switch, jump, block and exit execute exactly the statements the source structure selects, in order and the stated number of times, testing conditions in order and stopping at the first that holds. A switch goes to the first equal option, else to its else target, else fails; a jump or a switch reaches exactly the named block that is in scope. Apart from explicit stack operations and inline TEAL, every statement leaves the operand stack as it found it, however constructs are nested.",
["programs","inputs"],"every nesting and every number of branches, options and body statements, every truth value of the conditions, every loop trip count",
"The tests pin the text of one or two shapes of each construct; they never run the output, and cannot cover all nestings, branch counts and run-time outcomes.",
["tealish/nodes.py"],
[("label wiring","nodes.py: IfStatement.process/write_teal, Elif, Else, WhileStatement, ForStatement, For_Statement, Break, Switch, Jump, Block, Exit")],["compile_program() output executed on an AVM model"])

p("C03","Calls, returns and multiple assignment bind by position",
"In every call of a user-defined function, arguments are evaluated once, left to right, and each parameter receives the argument of its position; every return hands back all its values in order and execution continues just after the call. A multiple assignment gives the i-th name the i-th value, in the order the function returns them or the language guide lists the opcode's results, and a name of underscore discards exactly that value. Nothing else on the stack is consumed or left over, for any number of parameters, results and nested calls.",
["programs","inputs"],"every arity, every number of returned values, every position of underscore, every nesting of calls, every run-time argument",
"The tests show texts for arities 0 to 2; binding by position for all arities and nestings is universally quantified and only visible when the TEAL is run.",
["tealish/nodes.py","tealish/expression_nodes.py","tealish/langspec.py"],
[("parameter stores and returns in reverse","nodes.py: Func.process/write_teal, Return.write_teal, split_return_args"),("argument pushes and callsub","expression_nodes.py: UserDefinedFuncCall"),("stores for each name","nodes.py: Assignment.process/write_teal"),("result order of opcodes","langspec.py: Op.returns_types")],["compile_program() output executed on an AVM model"])

p("C04","Live variables never share a slot and names resolve lexically",
"At every point of every accepted program, two distinct variables that can be live at the same time (variables of the same or enclosing scopes, and variables of a function and of any code that can be running when it is called) are kept in different scratch slots. Every use of a variable, function or block name refers to the declaration in the innermost enclosing scope that has one, a name is not visible outside the scope that declares it, and redeclaring a variable already visible is rejected. A value written to a variable is therefore the value read back until the same variable is written again (setting aside recursion).",
["programs"],"every arrangement and number of nested blocks, loops, functions and declarations",
"Slot sharing depends on the global arrangement of scopes; the tests look at slots in a handful of tiny programs and never check non-interference.",
["tealish/scope.py","tealish/base.py","tealish/nodes.py"],
[("slot choice","scope.py: Scope.find_slot/declare_scratch_var; base.py: BaseNode.declare_scratch_var"),("scope chain merge","base.py: get_scope, get_scopes, get_slots, get_blocks"),("processing order","nodes.py: Program.process, Block.process")],
["slot numbers in the emitted load/store"],[("max_slot","highest slot handed out so far","tealish/__init__.py TealishCompiler")])

p("C05","Type checking accepts exactly the compatible values",
"Every assignment, call argument, opcode operand, function return value and struct or box field assignment is accepted if and only if the value's type may be held by the target's type: integers of at most the target's width, byte strings of the target's exact length when it has one and of any length otherwise, and values of unknown type only where neither a length nor a small width is promised. Literals have the exact length or smallest width of the value they denote. A call that yields no value, or several values, is never accepted where one value is needed, and wrong numbers of arguments, names or returned values are rejected.",
["programs","inputs"],"every pair of source and target type (all sizes), every literal, every operator and opcode, every checked position",
"The tests try about ten type pairs; the compatibility relation is over all types and sizes and over every place where a check must occur.",
["tealish/types.py","tealish/base.py","tealish/nodes.py","tealish/expression_nodes.py"],
[("compatibility relation","types.py: can_hold of every type"),("check sites","base.py: check_arg_types; nodes.py: VarDeclaration, Assignment, Return, StructOrBoxAssignment; expression_nodes.py: OpCall, UserDefinedFuncCall"),("literal types","expression_nodes.py: Integer, Bytes; nodes.py: LiteralInt/LiteralBytes/LiteralHex")],["CompileError raised or not"])

p("C06","Struct and box fields occupy disjoint exact byte ranges",
"For every struct definition, the fields are laid out in declaration order without gaps or overlap, each with the width of its type, and the struct's size is the sum of the widths. Reading a field of a struct or box yields exactly the bytes (as an integer for integer fields) last written to that field, and writing one changes no other byte, for structs held in variables and for boxes. Creating, opening or referencing a box uses the struct's size and makes exactly the documented run-time assertions.",
["programs","inputs","histories"],"every struct (any number and widths of fields), every sequence of field writes and reads on correctly sized values",
"The tests check the offsets of one or two small structs; disjointness and exactness hold for all definitions and all sequences of writes only by an argument over offsets.",
["tealish/types.py","tealish/nodes.py","tealish/expression_nodes.py"],
[("layout","types.py: StructType.add_field, StructField, BoxType"),("field get","expression_nodes.py: StructOrBoxField"),("field set","nodes.py: StructOrBoxAssignment"),("box references","nodes.py: BoxDeclaration")],["compile_program() output executed on an AVM model","inspect_program()"])

p("C07","Casts, conversions and padding do what the guide says at run time",
"At run time, Cast and Convert to a sized type succeed if and only if the value fits that size (exact length for bytes, bit width for integers) and then yield the same value in the target representation; otherwise the program fails, never silently truncating or extending it. Values that fit are encoded to bytes as big-endian zero-padded to the requested length, and decoded back to the same integer; left and right padding add zero bytes on the stated side up to the stated length and fail if the value is longer; concatenation, size-of, zero strings and event prefixes are exact. Unchecked casts emit no check, and a multi-value type assertion checks each value against its own type.",
["programs","inputs"],"every target type and size, every run-time value of every length",
"No test executes these functions; the guarantee is over all run-time values and all sizes.",
["tealish/stdlib.py"],
[("assertion wrappers","stdlib.py: BytesSizeAssertionWrapper, UIntSizeAssertionWrapper, TypeAssertionWrapper"),("conversions","stdlib.py: Convert, Cast, ToBytes, FromBytes, UIntToBytesWrapper, BytesToUIntWrapper"),("padding and concatenation","stdlib.py: Rpad, Lpad, Concat, ARC28Event, SizeOf, Bzero")],["compile_program() output executed on an AVM model"])

p("C08","The router dispatches, guards, decodes and logs exactly as specified",
"An application call whose first argument is the name of a listed public function runs that function and no other, and any other first argument fails; the call is accepted only with the on-completion action the function declares (none declared means no-op) or, for creation, only when the application does not exist yet. The i-th parameter receives the (i+1)-th application argument decoded by its type, failing if it does not fit a sized type. After the function returns, its return values in order (integers as 8 big-endian bytes) are concatenated behind the 4-byte return prefix and logged once if there are any, and the program approves.",
["programs","inputs"],"every number of routes, every function signature, every application argument list and on-completion value",
"The tests compare the text for four fixed routers; dispatch, guarding, decoding and logging are over all signatures and all transactions.",
["tealish/nodes.py"],[("argument decoding","nodes.py: Route.process"),("dispatch, guard and return log","nodes.py: Router.write_teal"),("declared action","nodes.py: DecoratedFunc.set_func")],["compile_program() output executed on an AVM model"])

p("C09","Inner transactions submit exactly the fields and grouping written",
"Each inner transaction is begun, gets exactly the fields written in it, in order, each with the value of its expression (array elements in index order), and is submitted at once; inside an inner group, the transactions actually executed are submitted together, in execution order, when the group ends and not before. Between groups, and for any mixture of grouped, ungrouped, conditional, looped and function-made inner transactions in one program, grouping state never leaks from one to the next. An inner transaction's field expressions are evaluated once each and nothing is left on the stack.",
["programs","inputs","histories"],"every list of fields, every control-flow path through groups, every sequence of groups and single transactions at run time",
"Three existing tests of this feature fail on the base commit and none executes the output; grouping is a property of run-time histories.",
["tealish/nodes.py"],[("begin/submit selection","nodes.py: InnerTxn.write_teal, InnerGroup.write_teal"),("group state machine","nodes.py: Program.process/write_teal"),("array fields","nodes.py: InnerTxn.process, InnerTxnFieldSetter")],["inner transactions submitted on an AVM model"],[("inner_group_flag","scratch slot: 0 no group, 1 group opened, 2 in group","nodes.py Program.write_teal")])

p("C10","Source maps and error maps point at the right line",
"For every program, every emitted TEAL line maps to the Tealish line of the statement that produced it, and the reverse map lists exactly the TEAL lines that map to each Tealish line. Once combined with an assembler's source map, every program counter resolves to the Tealish line and error message of the statement it belongs to, and to nothing if unknown. Saving a map and loading it again loses nothing.",
["programs","inputs"],"every program, every emitted line, every program counter of any assembler source map",
"Only one test looks at recorded error messages; line-exactness for all programs and the algebra of the maps are universally quantified.",
["tealish/__init__.py","tealish/utils.py","tealish/nodes.py"],[("recording of lines","__init__.py: TealWriter.write"),("error messages","nodes.py: Assert.process"),("map algebra","utils.py: TealishMap")],["compile_program()[1]"])

p("C11","Formatting preserves the program and is idempotent",
"For every program the compiler accepts, the formatter's output is accepted too and compiles to the same TEAL instructions in the same order. Comments on lines of their own, blank lines inside the text, literals, decorators and inline TEAL survive unchanged, and formatting the output again changes nothing.",
["programs"],"every accepted program",
"One test formats one sample program and compares nothing semantic; preservation is over all programs and all node kinds.",
["tealish/nodes.py","tealish/expression_nodes.py","tealish/stdlib.py","tealish/__init__.py"],[("printers","every _tealish method"),("entry","__init__.py: reformat_program")],["reformat_program()"])

p("C12","Every source text is decided: compiled, or rejected with a proper error",
"On every source text, whatever its length or shape, the compiler terminates; if a construct is left unterminated or a line cannot be understood it raises its parse or compile error, and never loops or drops a line silently. The structural rules of the guide are enforced: structs only at the top, in programs and blocks further blocks and functions only after an exit statement and nothing else but comments after one, every block ending with an exit statement, every function ending with return with the declared number of values, break only inside a while loop, return only inside a function. Programs that satisfy the grammar and the rules are not rejected, unless they nest deeper than the host's recursion limit allows (some 35 calls or 80 groups inside each other), which is a proper error too.",
["inputs","programs"],"every finite sequence of lines",
"The tests try about fifteen malformed programs; totality and the structural rules are over all texts, in particular unfinished ones.",
["tealish/nodes.py","tealish/__init__.py"],[("statement dispatch and consumption","nodes.py: every consume method, Statement.consume, LineStatement.consume"),("line reader","__init__.py: TealishCompiler.consume_line/peek"),("rules","nodes.py: Program.consume, Block.consume, Func.consume, Break.__init__, Return.__init__, StructDefinition.consume")],["ParseError/CompileError or output"])

p("C13","Every branch target is defined exactly once",
"In the TEAL of every accepted program that uses no inline TEAL, each label is defined exactly once and every branch, switch, match and subroutine call names a defined label, whatever the number and nesting of conditionals, loops, blocks, functions, routers and inner groups. A branch emitted for one construct never lands in another construct's code.",
["programs"],"every accepted program whose blocks and functions have distinct names within each scope",
"Uniqueness is a global property of arbitrarily large programs; the tests compare fixed small outputs.",
["tealish/nodes.py","tealish/scope.py","tealish/__init__.py"],[("label names","nodes.py: IfStatement, WhileStatement, ForStatement, For_Statement, Block, Func, Route"),("scope names","scope.py: Scope.__init__")],["labels in compile_program() output"],[("conditional_count","number of conditionals and loops so far","tealish/__init__.py TealishCompiler")])

p("C14","Literals reach TEAL intact; comment handling never alters code",
"Every integer and byte-string literal and constant, including texts containing comment markers, semicolons, colons, escapes or quotes as the language allows them, denotes in the emitted TEAL exactly the value written in the source. Comments of the source or added by the compiler never change an instruction. Stripping comments or minifying TEAL keeps exactly the instructions, in order, and their branch structure, with the minifier's line map pointing each kept line to its original.",
["programs","inputs"],"every literal text, every comment text, every TEAL line list",
"Tests use plain alphanumeric literals; corruption needs particular characters at particular places.",
["tealish/__init__.py","tealish/utils.py","tealish/expression_nodes.py","tealish/nodes.py"],[("line assembly","__init__.py: TealWriter.write, OneLineTealWriter.write, consume_line"),("TEAL utilities","utils.py: strip_comments, minify_teal"),("literals","expression_nodes.py: Integer, Bytes, Constant; nodes.py: Const, Literal*")],["constants in compile_program() output","minify_teal()","strip_comments()"])

p("C15","The result depends only on the source text",
"Compiling, formatting or inspecting a text gives the same TEAL, map, formatted text, structs or error whatever was compiled before in the same process, successfully or not, and however often it is repeated, also on one compiler object. Structs declared by one program are never visible to another.",
["histories","inputs"],"every sequence of compilations, formattings and inspections in one process, every interleaving of several compiler objects' phases",
"Every test compiles once in isolation and never compares results across histories.",
["tealish/__init__.py","tealish/types.py","tealish/nodes.py"],[("struct registry","types.py: _structs, define_struct, get_struct"),("compiler object state","__init__.py: TealishCompiler.parse/process/compile/reformat/get_structs")],["compile_program(), reformat_program(), inspect_program()"])

p("C16","Opcode knowledge is exactly the language specification",
"For every opcode in the active language specification, a call takes the specified immediates first, then the specified stack arguments with the specified types, and yields the specified results last-pushed first; field types are those listed. A specification file in the working directory replaces the packaged one, and the reported differences between two specifications are exactly the opcodes in one and not in the other. Inputs that are not in the specification are rejected.",
["inputs","configurations"],"every specification file in the format of the packaged one, every opcode and field",
"Tests touch perhaps thirty opcodes of the packaged specification and no other specification.",
["tealish/langspec.py","tealish/expression_nodes.py","tealish/base.py"],[("decoding","langspec.py: Op, LangSpec, convert_args_to_types, type_lookup"),("selection and comparison","langspec.py: get_active_langspec, compare_langspecs, get_new_local_ops"),("use","expression_nodes.py: OpCall.process_op_call")],["Op objects, compile results"])

p("C17","Command-line tools write exactly the library's results or nothing",
"For every input file, the compile command writes beside it the same TEAL the library returns, the build command also the assembled code and the matching map, the inspect command prints the library's description, and the format command replaces the file by the formatted text, with nothing left over from the old content. If the source is rejected, the command reports the error, exits with failure, and leaves the source file and any existing output of that file unchanged.",
["inputs","configurations"],"every source text, valid or not, every prior content of the output directory",
"No test runs the command line at all.",
["tealish/cli.py","tealish/__init__.py","tealish/build.py"],[("commands","cli.py: _build, compile, build, format, inspect, _compile_program")],["files and exit status of the tealish command"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:f.write(json.dumps(x)+"\n")
print(len(P))
