"""Edits that keep the behaviour: no obligation may fail on them (undischarged is fine).
usage: refactors.py [group]   applies every edit to one copy, runs the repository's tests and all obligations"""
import concurrent.futures
import os
import shutil
import subprocess
import sys
import tempfile

N = "nodes.py"
GROUPS = {
"helpers": [
 (N, '''        if self.modifier == "not":
            writer.write(self, f"bnz {self.end_label}")
        else:
            writer.write(self, f"bz {self.end_label}")
        for n in self.child_nodes:
            n.write_teal(writer)
        writer.write(self, f"b {self.start_label}")
''', '''        self._leave_unless(writer)
        for n in self.child_nodes:
            n.write_teal(writer)
        writer.write(self, f"b {self.start_label}")
'''),
 (N, '''    def _tealish(self) -> str:
        output = f"while {condition_text''', '''    def _leave_unless(self, writer) -> None:
        op = "bnz" if self.modifier == "not" else "bz"
        writer.write(self, "%s %s" % (op, self.end_label))

    def _tealish(self) -> str:
        output = f"while {condition_text'''),
 (N, '''        writer.write(self, self.start)
        writer.write(self, f"store {self.var.scratch_slot} // {self.var.name}")
''', '''        writer.write(self, self.start)
        slot, name = self.var.scratch_slot, self.var.name
        store = f"store {slot} // {name}"
        writer.write(self, store)
'''),
 (N, '''            teal = []
            if isinstance(self.data_type, IntType):
                teal.append("itob")
                if isinstance(self.data_type, UIntType):
                    teal.append(
                        f"extract {8 - self.data_type.size} {self.data_type.size}"
                    )
            # struct setter one liner
''', '''            teal = self._encoded()
            # struct setter one liner
'''),
 (N, '''            teal = []
            if isinstance(self.data_type, IntType):
                teal.append("itob")
                if isinstance(self.data_type, UIntType):
                    teal.append(
                        f"extract {8 - self.data_type.size} {self.data_type.size}"
                    )
            # box setter one liner
''', '''            teal = self._encoded()
            # box setter one liner
'''),
 (N, '''    def write_teal(self, writer: "TealWriter") -> None:
        if isinstance(self.object_type, StructType):
''', '''    def _encoded(self) -> List[str]:
        if not isinstance(self.data_type, IntType):
            return []
        ops = ["itob"]
        if isinstance(self.data_type, UIntType):
            size = self.data_type.size
            ops.append(f"extract {8 - size} {size}")
        return ops

    def write_teal(self, writer: "TealWriter") -> None:
        if isinstance(self.object_type, StructType):
'''),
 (N, '''        writer.write(self, f"// tl:{self.line_no}: {self.line}")
        if self.compiler.use_inner_txns_macro:
            writer.write(self, "callsub _itxn_begin")
            writer.level += 1
            for node in self.child_nodes:
                writer.write(self, node)
            writer.level -= 1
            writer.write(self, "callsub _itxn_submit")
            writer.write(self, "// end inner_txn")
        else:
            writer.write(self, "itxn_begin")
            writer.level += 1
            for node in self.child_nodes:
                writer.write(self, node)
            writer.level -= 1
            writer.write(self, "itxn_submit")
            writer.write(self, "// end inner_txn")
''', '''        writer.write(self, f"// tl:{self.line_no}: {self.line}")
        macro = self.compiler.use_inner_txns_macro
        begin, submit = ("callsub _itxn_begin", "callsub _itxn_submit") if macro else ("itxn_begin", "itxn_submit")
        writer.write(self, begin)
        writer.level += 1
        for node in self.child_nodes:
            writer.write(self, node)
        writer.level -= 1
        writer.write(self, submit)
        writer.write(self, "// end inner_txn")
'''),
 (N, '''        for node in self.options:
            writer.write(self, self.expression)
            writer.write(self, node.expression)
            writer.write(self, "==")
            b = self.get_block(node.block_name)
            writer.write(self, f"bnz {b.label}")
''', '''        for node in self.options:
            for part in (self.expression, node.expression, "=="):
                writer.write(self, part)
            target = self.get_block(node.block_name).label
            writer.write(self, "bnz " + target)
'''),
 (N, '''        for name, _ in self.args.args[::-1]:
            var = self.vars[name]
            writer.write(
                self, f"store {var.scratch_slot} // {name} [{var.tealish_type}]"
            )
''', '''        for name, _ in reversed(self.args.args):
            var = self.vars[name]
            comment = f"{name} [{var.tealish_type}]"
            writer.write(self, f"store {var.scratch_slot} // {comment}")
'''),
 (N, '''        if self.args:
            for i, expression in enumerate(self.args_expressions[::-1]):
                writer.write(self, expression)
        writer.write(self, "retsub")
''', '''        for expression in self.nodes:
            writer.write(self, expression)
        writer.write(self, "retsub")
'''),
 (N, '''        for i, name in enumerate(self.name_nodes):
            if name.value == "_":
                writer.write(self, "pop // discarding value for _")
            else:
                writer.write(self, f"store {name.slot} // {name.value}")
''', '''        for name in self.name_nodes:
            discard = name.value == "_"
            teal = "pop // discarding value for _" if discard else f"store {name.slot} // {name.value}"
            writer.write(self, teal)
'''),
 (N, '''        for i, r in enumerate(self.func.returns):
            return_expression = self.args_expressions[i]
            if not''', '''        for r, return_expression in zip(self.func.returns, self.args_expressions):
            if not'''),
 (N, '''    functions = [n for n in nodes if isinstance(n, (Func, DecoratedFunc))]
    for n in nodes:
        if n not in functions:
            n.process()
    for n in functions:
        n.process()
''', '''    functions = []
    for n in nodes:
        if isinstance(n, (Func, DecoratedFunc)):
            functions.append(n)
        else:
            n.process()
    for f in functions:
        f.process()
'''),
 (N, '''                # concat n-1 times
                for i in range(len(func.returns) - 1):
                    writer.write(self, "concat")
''', '''                # concat n-1 times
                for _ in func.returns[1:]:
                    writer.write(self, "concat")
'''),
 (N, '''                    if i > 0:
                        writer.write(self, f"uncover {i} // {r.name}")
                    else:
                        # no need to actually uncover the first return value as it's already on top of the stack
                        writer.write(self, f"// uncover {i} {r.name}")
''', '''                    if i == 0:
                        # no need to actually uncover the first return value as it's already on top of the stack
                        writer.write(self, f"// uncover {i} {r.name}")
                    else:
                        writer.write(self, f"uncover {i} // {r.name}")
'''),
 (N, '''        if self.method == "Open":
            writer.write(
                self,
                f"dup; box_len; assert; pushint {self.box_size}; ==; assert // len(box) == {self.struct_name}.size",
            )
        elif self.method == "Create":
            writer.write(
                self,
                f"dup; pushint {self.box_size}; box_create; assert // create & assert created",
            )
        elif self.method == "OpenOrCreate":
            writer.write(
                self,
                f"dup; pushint {self.box_size}; box_create; pop // create if didn't already exist",
            )
        else:
            # assume box exists
            pass
''', '''        checks = {
            "Open": f"dup; box_len; assert; pushint {self.box_size}; ==; assert // len(box) == {self.struct_name}.size",
            "Create": f"dup; pushint {self.box_size}; box_create; assert // create & assert created",
            "OpenOrCreate": f"dup; pushint {self.box_size}; box_create; pop // create if didn't already exist",
        }
        if self.method in checks:
            writer.write(self, checks[self.method])
'''),
 (N, '''            if compiler.peek() == "end":
                compiler.consume_line()
                break
            node.add_child(InlineStatement.consume(compiler, node))
        return node

    def process(self) -> None:
        self.var = self.declare_scratch_var(self.var_name, "int")
        for n in self.nodes:
            n.process()
        self.del_var(self.var_name)
''', '''            if compiler.peek() != "end":
                node.add_child(InlineStatement.consume(compiler, node))
                continue
            compiler.consume_line()
            return node

    def process(self) -> None:
        self.var = self.declare_scratch_var(self.var_name, "int")
        for child in self.nodes:
            child.process()
        self.del_var(self.var_name)
'''),
 (N, '''            elif compiler.peek().startswith("#"):
                node.add_child(
                    Comment(compiler.consume_line(), node, compiler=compiler)
                )
            else:
                node.add_child(
                    StructFieldDefinition(
                        compiler.consume_line(), node, compiler=compiler
                    )
                )

        node.struct = StructType(node.name)
''', '''            kind = Comment if compiler.peek().startswith("#") else StructFieldDefinition
            node.add_child(kind(compiler.consume_line(), node, compiler=compiler))

        node.struct = StructType(node.name)
'''),
],
}

E_, S_, T_, SC, B_, U_, I_, L_ = "expression_nodes.py", "stdlib.py", "types.py", "scope.py", "base.py", "utils.py", "__init__.py", "langspec.py"
GROUPS["expressions"] = [
 (E_, '''        self.a.process()
        self.b.process()
        self.check_arg_types(self.op, [self.a, self.b])
        op = self.lookup_op(self.op)
        self.type = type_lookup(op.returns)
''', '''        for operand in self.nodes:
            operand.process()
        self.check_arg_types(self.op, self.nodes)
        self.type = type_lookup(self.lookup_op(self.op).returns)
'''),
 (E_, '''        writer.write(self, self.a)
        writer.write(self, self.b)
        writer.write(self, f"{self.op}")
''', '''        for part in (self.a, self.b, self.op):
            writer.write(self, part)
'''),
 (E_, '''        size = max(1, (self.value.bit_length() + 7) // 8)
        self.type = UIntType(size)
''', '''        size = (self.value.bit_length() + 7) // 8
        if size == 0:
            size = 1
        self.type = UIntType(size)
'''),
 (E_, '''        try:
            self.var = self.lookup_var(self.name)
        except KeyError as e:
            raise CompileError(e.args[0], node=self)

        self.type = self.var.tealish_type
''', '''        try:
            var = self.lookup_var(self.name)
        except KeyError as error:
            raise CompileError(error.args[0], node=self) from error

        self.var = var
        self.type = var.tealish_type
'''),
 (E_, '''        if isinstance(self.type, IntType):
            writer.write(self, f"pushint {self.value} // {self.name}")
        elif isinstance(self.type, BytesType):
            writer.write(self, f"pushbytes {self.name}")
''', '''        is_int = isinstance(self.type, IntType)
        if not is_int and isinstance(self.type, BytesType):
            writer.write(self, f"pushbytes {self.name}")
        elif is_int:
            writer.write(self, f"pushint {self.value} // {self.name}")
'''),
 (E_, '''        for arg in self.args:
            writer.write(self, arg)
        if self.immediate_args:
            writer.write(self, f"{self.name} {self.immediate_args}")
        else:
            writer.write(self, f"{self.name}")
''', '''        for arg in self.args:
            writer.write(self, arg)
        teal = self.name
        if self.immediate_args:
            teal += " " + self.immediate_args
        writer.write(self, teal)
'''),
 (E_, '''        if len(self.args) != num_args:
            raise CompileError(f"Expected {num_args} args for {op.name}!", node=self)
        for i, arg in enumerate(self.args):
            arg.process()
''', '''        if not len(self.args) == num_args:
            raise CompileError(f"Expected {num_args} args for {op.name}!", node=self)
        for arg in self.args:
            arg.process()
'''),
 (E_, '''            elif hasattr(x, "value") and isinstance(x.type, IntType):
                immediates[i] = x.value
            elif hasattr(x, "value") and isinstance(x.type, BytesType):
                immediates[i] = f'"{x.value}"'
''', '''            elif hasattr(x, "value") and isinstance(x.type, (IntType, BytesType)):
                quote = "" if isinstance(x.type, IntType) else '"'
                immediates[i] = f"{quote}{x.value}{quote}"
'''),
 (E_, '''        expected_args = func.args.arg_types
        for i, incoming_arg in enumerate(self.args):
            if expected_args[i].can_hold(incoming_arg.type):  # type: ignore
                continue

            raise CompileError(
                f"Incorrect type {incoming_arg.type} "  # type: ignore
                + f"for arg {i} of {self.func.name}. Expected {expected_args[i]}",
                node=self,
            )
''', '''        for i, (expected, incoming_arg) in enumerate(zip(func.args.arg_types, self.args)):
            if not expected.can_hold(incoming_arg.type):  # type: ignore
                raise CompileError(
                    f"Incorrect type {incoming_arg.type} "  # type: ignore
                    + f"for arg {i} of {self.func.name}. Expected {expected}",
                    node=self,
                )
'''),
 (E_, '''        if isinstance(self.index, Integer):
            assert self.index.value >= 0, "Group index < 0"
            assert self.index.value < 16, "Group index > 16"
            writer.write(self, f"gtxn {self.index.value} {self.field}")
        else:
            # index is a constant
            # TODO:
            # index is an expression that needs to be evaluated
            writer.write(self, self.index)
            writer.write(self, f"gtxns {self.field}")
''', '''        if not isinstance(self.index, Integer):
            # index is an expression that needs to be evaluated
            writer.write(self, self.index)
            writer.write(self, f"gtxns {self.field}")
            return
        n = self.index.value
        assert 0 <= n < 16, "Group index out of range"
        writer.write(self, f"gtxn {n} {self.field}")
'''),
 (E_, '''            if not isinstance(self.arrayIndex, Integer):
                # arrayIndex is an expression that needs to be evaluated
                writer.write(self, self.arrayIndex)
                writer.write(self, f"gtxnsas {self.field}")
            else:
                # arrayIndex is a constant
                writer.write(self, f"gtxnsa {self.field} {self.arrayIndex.value}")
''', '''            if isinstance(self.arrayIndex, Integer):
                # arrayIndex is a constant
                writer.write(self, f"gtxnsa {self.field} {self.arrayIndex.value}")
            else:
                # arrayIndex is an expression that needs to be evaluated
                writer.write(self, self.arrayIndex)
                writer.write(self, "gtxnsas %s" % self.field)
'''),
 (E_, '''        self.object_type = self.var.tealish_type
        struct = self.var.tealish_type
        struct_field = struct.fields[self.field]
        self.offset = struct_field.offset
        self.size = struct_field.size
        self.type = struct_field.tealish_type

    def write_teal(self, writer: "TealWriter") -> None:
        teal = ""
''', '''        self.object_type = struct = self.var.tealish_type
        field = struct.fields[self.field]
        self.type, self.offset, self.size = field.tealish_type, field.offset, field.size

    def write_teal(self, writer: "TealWriter") -> None:
        teal = []
'''),
 (S_, '''        for arg in self.args:
            writer.write(self, arg)
        for _ in range(len(self.args) - 1):
            writer.write(self, "concat")
''', '''        first, rest = self.args[0], self.args[1:]
        writer.write(self, first)
        for arg in rest:
            writer.write(self, arg)
        for _ in rest:
            writer.write(self, "concat")
'''),
 (S_, '''        writer.write(self, self.expression)
        is_int = isinstance(expression_type, IntType)
        if is_int:
            writer.write(self, "itob")
        if is_int and self.type.size and self.type.size < 8:
            writer.write(self, f"extract {8 - self.type.size} {self.type.size}")
        elif self.type.size > 8 or not is_int:
''', '''        writer.write(self, self.expression)
        is_int = isinstance(expression_type, IntType)
        size = self.type.size
        if is_int:
            writer.write(self, "itob")
        if is_int and 0 < size < 8:
            writer.write(self, f"extract {8 - size} {size}")
        elif not is_int or size > 8:
'''),
 (S_, '''        if self.size == 0:
            writer.write(self, self.expression)
            writer.write(self, "itob")
        else:
            writer.write(self, UIntSizeAssertionWrapper(self.expression, self.size))
            writer.write(self, "itob")
            if self.size and self.size < 8:
                writer.write(self, f"extract {8 - self.size} {self.size}")
            elif self.size > 8:
''', '''        checked = self.expression
        if self.size != 0:
            checked = UIntSizeAssertionWrapper(self.expression, self.size)
        writer.write(self, checked)
        writer.write(self, "itob")
        if self.size != 0:
            if self.size < 8:
                writer.write(self, f"extract {8 - self.size} {self.size}")
            elif self.size > 8:
'''),
 (S_, '''        self.size = self.literal_size(self.args[1])
        self.type = BytesType(self.size)

        if not isinstance(self.expression.type, (BytesType,)):
            raise CompileError(
                f"Incorrect type {self.expression.type} for Lpad. Expected bytes."
            )
''', '''        size = self.literal_size(self.args[1])
        self.size = size
        self.type = BytesType(size)
        source = self.expression.type
        if isinstance(source, BytesType):
            return
        raise CompileError(f"Incorrect type {source} for Lpad. Expected bytes.")
'''),
 (S_, '''        types = expression.type if isinstance(expression.type, list) else [expression.type]
        if not all(types) or len(types) != num_values:
''', '''        types = expression.type
        if not isinstance(types, list):
            types = [types]
        if len(types) != num_values or not all(types):
'''),
 (S_, '''        types = [get_type_instance(a.name) for a in self.args[1:]]
        self.args[0].process()
        self.check_num_values(self.args[0], len(types))
''', '''        value, *names = self.args
        types = list(map(lambda a: get_type_instance(a.name), names))
        value.process()
        self.check_num_values(value, len(types))
'''),
 (T_, '''        # If self and other are the same types and same size
        if isinstance(other, IntType) and other.size <= self.size:
            return True
        # If other is "any" and this is not a small sized int
        if isinstance(other, AnyType) and self.size == 8:
            return True
''', '''        if isinstance(other, IntType):
            return other.size <= self.size
        return isinstance(other, AnyType) and self.size == 8
'''),
 (T_, '''        # If other is any kind of bytes
        if isinstance(other, BytesType):
            if not self.size:
                return True
            if not other.size:
                return False
            if self.size == other.size:
                return True
        if isinstance(other, AnyType) and not self.size:
            return True
        return False
''', '''        if not isinstance(other, (BytesType, AnyType)):
            return False
        if not self.size:
            return True
        return isinstance(other, BytesType) and self.size == other.size
'''),
 (T_, '''        field = StructField(
            tealish_type=tealish_type,
            offset=self.size,
        )
        self.fields[field_name] = field
        self.size += tealish_type.size
''', '''        offset = self.size
        self.size = offset + tealish_type.size
        self.fields[field_name] = StructField(tealish_type, offset)
'''),
 (T_, '''    if type_name == "int":
        return IntType()
    elif type_name == "bytes":
        return BytesType()
    elif type_name == "bigint":
        return BigIntType()
    elif type_name == "addr":
        return AddrType()
    elif type_name == "uint8":
        return UInt8Type()
    elif type_name == "uint64":
        return IntType()
    elif m :=''', '''    simple = {
        "int": IntType,
        "bytes": BytesType,
        "bigint": BigIntType,
        "addr": AddrType,
        "uint8": UInt8Type,
        "uint64": IntType,
    }
    if type_name in simple:
        return simple[type_name]()
    if m :='''),
 (SC, '''        if name in self.slots:
            raise Exception(f'Redefinition of variable "{name}"')

        var = Var(name, type)
        var.slot_type = "scratch"
        var.scratch_slot = max_slot if max_slot is not None else self.find_slot()
        if var.scratch_slot > 255:
            raise Exception("No available slots!")
        self.slots[var.name] = var
        return var
''', '''        if name in self.slots:
            raise Exception(f'Redefinition of variable "{name}"')

        slot = max_slot
        if slot is None:
            slot = self.find_slot()
        if slot >= 256:
            raise Exception("No available slots!")
        var = Var(name, type)
        var.slot_type, var.scratch_slot = "scratch", slot
        self.slots[name] = var
        return var
'''),
 (SC, '''        used_slots = [False] * 255
        for var in self.slots.values():
            used_slots[var.scratch_slot] = True

        min, max = self.slot_range
        for i, occupied in enumerate(used_slots):
            if not occupied and min <= i <= max:
                return i
''', '''        used = [False] * 255
        for name in self.slots:
            used[self.slots[name].scratch_slot] = True

        low, high = self.slot_range
        for i in range(len(used)):
            if low <= i <= high and not used[i]:
                return i
'''),
 (SC, '''        if name not in self.functions:
            raise KeyError(f'Func "{name}" not declared in current scope')
        return self.functions[name]
''', '''        try:
            return self.functions[name]
        except KeyError:
            raise KeyError(f'Func "{name}" not declared in current scope')
'''),
 (SC, '''        if name in self.slots:
            del self.slots[name]
''', '''        self.slots.pop(name, None)
'''),
 (B_, '''        slots = self.get_slots()
        if name in slots:
            return slots[name]
        else:
            return None
''', '''        return self.get_slots().get(name)
'''),
 (B_, '''        s = self.get_current_scope()
        while True:
            scopes.append(s)
            if s.parent is not None:
                s = s.parent
            else:
                break
        return scopes
''', '''        s = self.get_current_scope()
        while s is not None:
            scopes.append(s)
            s = s.parent
        return scopes
'''),
 (B_, '''        p: Optional["Node"] = self.parent  # type: ignore
        while p is not None:
            if isinstance(p, node_class):
                return cast("Node", p)
            p = p.parent  # type: ignore
        return None
''', '''        p = self.parent  # type: ignore
        while p is not None and not isinstance(p, node_class):
            p = p.parent  # type: ignore
        return p
'''),
 (B_, '''    for i, incoming_arg in enumerate(incoming_args):
        if not op.arg_types[i].can_hold(incoming_arg.type):
''', '''    for i in range(len(incoming_args)):
        incoming_arg = incoming_args[i]
        if not expected_args[i].can_hold(incoming_arg.type):
'''),
 (U_, '''            if tealish not in tealish_teal:
                tealish_teal[tealish] = []
            tealish_teal[tealish].append(teal)
''', '''            tealish_teal.setdefault(tealish, []).append(teal)
'''),
 (U_, '''        teal_line = self.get_teal_line_for_pc(pc)
        if teal_line is not None:
            return self.teal_tealish.get(teal_line, None)
        return None
''', '''        teal_line = self.get_teal_line_for_pc(pc)
        if teal_line is None:
            return None
        return self.get_tealish_line_for_teal(teal_line)
'''),
 (I_, '''            self.output.append(teal)
            if hasattr(parent, "line_no"):
                self.current_input_line = parent.line_no
            self.source_map[self.current_output_line] = self.current_input_line
            self.current_output_line += 1
''', '''            if hasattr(parent, "line_no"):
                self.current_input_line = parent.line_no
            line_no = self.current_output_line
            self.current_output_line = line_no + 1
            self.output.append(teal)
            self.source_map[line_no] = self.current_input_line
'''),
]


C, L, I, U, E = "cli.py", "langspec.py", "__init__.py", "utils.py", "expression_nodes.py"
GROUPS["entries"] = [
 (C, '''        teal_string = "\\n".join(teal + [""])
        with open(teal_filename, "w") as f:
            f.write("\\n".join(teal + [""]))
''', '''        teal_string = "".join(line + "\\n" for line in teal)
        teal_filename.write_text(teal_string)
'''),
 (C, '''        filename = pathlib.Path(path).name
        base_filename = filename.replace(".tl", "")
''', '''        base_filename = path.stem
'''),
 (C, '''            with open(tok_filename, "wb") as f:
                f.write(bytecode)
''', '''            tok_filename.write_bytes(bytecode)
'''),
 (C, '''    except ParseError as e:
        raise click.ClickException(str(e))
    except CompileError as e:
        raise click.ClickException(str(e))
    return teal, map
''', '''    except (CompileError, ParseError) as error:
        message = str(error)
        raise click.ClickException(message) from error
    return teal, map
'''),
 (C, '''            with open(map_filename, "w") as f:
                f.write(json.dumps(tealish_map.as_dict()))
''', '''            with open(map_filename, "w") as f:
                json.dump(tealish_map.as_dict(), f)
'''),
 (C, '''    tealish_file.seek(0)
    tealish_file.write(output)
    tealish_file.truncate()
''', '''    tealish_file.seek(0)
    tealish_file.truncate()
    tealish_file.write(output)
'''),
 (C, '''    print(json.dumps(output, indent=2))
''', '''    description = json.dumps(output, indent=2)
    click.echo(description)
'''),
 (L, '''    return [type_lookup(args[idx]) for idx in range(len(args))]
''', '''    types = []
    for code in args:
        types.append(type_lookup(code))
    return types
'''),
 (L, '''        for field_name in self.arg_enum_dict:
            if field_name in field_types:
                self.arg_enum_dict[field_name] = field_types[field_name]
''', '''        for field_name, field_type in field_types.items():
            if field_name in self.arg_enum_dict:
                self.arg_enum_dict[field_name] = field_type
'''),
 (L, '''    a_new = []
    b_new = []
    for op in a.ops:
        if op not in b.ops:
            a_new.append(op)
    for op in b.ops:
        if op not in a.ops:
            b_new.append(op)
    return a_new, b_new
''', '''    a_new = [op for op in a.ops if op not in b.ops]
    b_new = [op for op in b.ops if op not in a.ops]
    return a_new, b_new
'''),
 (L, '''        if name not in self.ops:
            raise KeyError(f'Op "{name}" does not exist!')
        return self.ops[name]
''', '''        op = self.ops.get(name)
        if op is None:
            raise KeyError(f'Op "{name}" does not exist!')
        return op
'''),
 (L, '''    if local_lang_spec is not None:
        return local_lang_spec
    return packaged_lang_spec
''', '''    return packaged_lang_spec if local_lang_spec is None else local_lang_spec
'''),
 (L, '''        self.ignore = False
        for x in ignores:
            if x == self.name or x.endswith("*") and self.name.startswith(x[:-1]):
                self.ignore = True
                break
''', '''        self.ignore = any(
            x == self.name or x.endswith("*") and self.name.startswith(x[:-1])
            for x in ignores
        )
'''),
 (E, '''        self.immediates = list(map(str, immediates))
        self.immediate_args = " ".join(self.immediates)
''', '''        self.immediates = [str(x) for x in immediates]
        self.immediate_args = " ".join(self.immediates)
'''),
 (E, '''        for i, arg in enumerate(self.args):
            arg.process()
        self.check_arg_types(self.name, self.args)
        for i, x in enumerate(immediates):
''', '''        for arg in self.args:
            arg.process()
        self.check_arg_types(self.name, self.args)
        for i in range(len(immediates)):
            x = immediates[i]
'''),
 (I, '''        map = TealishMap()
        map.teal_tealish = dict(self.source_map)
        map.errors = dict(self.error_messages)
        return map
''', '''        result = TealishMap()
        result.errors = dict(self.error_messages)
        result.teal_tealish = dict(self.source_map)
        return result
'''),
 (I, '''    source_lines = source.split("\\n")
    compiler = TealishCompiler(source_lines)
    output = compiler.reformat()
    output = output.strip() + "\\n"
    return output
''', '''    compiler = TealishCompiler(source.split("\\n"))
    return compiler.reformat().strip() + "\\n"
'''),
 (I, '''        if self.process_started:
            # nodes can only be processed once
            self.parse()
        self.process_started = True
        # other programs may have been parsed since this one was
        _structs.clear()
        _structs.update(self.structs)
''', '''        if self.process_started:
            # nodes can only be processed once
            self.parse()
        self.process_started = True
        self._restore_structs()
'''),
 (I, '''    def compile(self) -> List[str]:
        if not self.nodes:
''', '''    def _restore_structs(self) -> None:
        # other programs may have been parsed since this one was
        _structs.clear()
        _structs.update(self.structs)

    def compile(self) -> List[str]:
        if not self.nodes:
'''),
 (U, '''    i = find_outside_strings(line, "//")
    if i < 0:
        return line, None
    return line[:i], line[i + 2 :]
''', '''    start = find_outside_strings(line, "//")
    if start == -1:
        return line, None
    code, comment = line[:start], line[start + 2 :]
    return code, comment
'''),
 (U, '''        self.pc_teal = {pc: line + 1 for pc, line in sourcemap.pc_to_line.items()}
''', '''        pc_teal = {}
        for pc, line in sourcemap.pc_to_line.items():
            pc_teal[pc] = line + 1
        self.pc_teal = pc_teal
'''),
 (N, '''        self.nodes.append(node)
        self.child_nodes.append(node)

    @classmethod
''', '''        for nodes in (self.child_nodes, self.nodes):
            nodes.append(node)

    @classmethod
'''),
 (N, '''        while True:
            if compiler.line_no == len(compiler.source_lines):
                break
            n = Statement.consume(compiler, node)
            if not expect_struct_definition''', '''        while compiler.line_no < len(compiler.source_lines):
            n = Statement.consume(compiler, node)
            if not expect_struct_definition'''),
 (N, '''        for name, (type, value) in self.parent.get_scope().consts.items():
            if name in consts and consts[name][1] != value:
                writer.write(self, define_const(name, type, value))
''', '''        outer = self.parent.get_scope().consts
        for name in outer:
            type, value = outer[name]
            if name in consts and consts[name][1] != value:
                writer.write(self, define_const(name, type, value))
'''),
 (N, '''        raise ParseError(f'Cannot parse "{line}" as Literal')
''', '''        error = ParseError(f'Cannot parse "{line}" as Literal')
        raise error
'''),
]



GROUPS["printing"] = [
 (N, '''        return f"jump {self.block_name}\\n"
''', '''        return "jump " + self.block_name + "\\n"
'''),
 (N, '''m = f', "{self.message}"' if self.message else ""
        return f"assert({self.arg.tealish()}{m})\\n"''', '''parts = [self.arg.tealish()]
        if self.message:
            parts.append(f'"{self.message}"')
        return f"assert({', '.join(parts)})\\n"'''),
 (N, '''        s = f"const {self.tealish_type} {self.name}"
        if self.literal:
            s += f" = {self.literal.tealish()}"
        return s + "\\n"''', '''        value = f" = {self.literal.tealish()}" if self.literal else ""
        return "const " + self.tealish_type + " " + self.name + value + "\\n"'''),
 (N, '''        output = "else:\\n"
        for n in self.child_nodes:
            output += indent(n.tealish())
        return output''', '''        lines = ["else:\\n"]
        for n in self.child_nodes:
            lines.append(indent(n.tealish()))
        return "".join(lines)'''),
 (N, '''        output = "return"
        if self.args_expressions:
            output += f" {', '.join([e.tealish() for e in self.args_expressions])}"
        return output + "\\n"''', '''        if not self.args_expressions:
            return "return\\n"
        args = ", ".join(e.tealish() for e in self.args_expressions)
        return f"return {args}\\n"'''),
 (N, '''        return_types = list(filter(None, self.return_type.split(",")))''', '''        return_types = [t for t in self.return_type.split(",") if t]'''),
 (N, '''    return "\\n".join("    " + l if l.strip() else l for l in s.split("\\n"))''', '''    lines = []
    for l in s.split("\\n"):
        lines.append("    " + l if l.strip() else l)
    return "\\n".join(lines)'''),
 (N, '''output = ", ".join([f"{a}: {t}" for (a, t) in self.args])
        return output''', '''return ", ".join(name + ": " + type_name for name, type_name in self.args)'''),
 (N, '''        return (
            f"{', '.join(n.tealish() for n in self.name_nodes)}"
            + f" = {self.expression.tealish()}\\n"
        )''', '''        names = ", ".join([n.tealish() for n in self.name_nodes])
        value = self.expression.tealish()
        return f"{names} = {value}\\n"'''),
 (E, '''return f"{self.a.tealish()} {self.op} {self.b.tealish()}"''', '''left, right = self.a.tealish(), self.b.tealish()
        return " ".join([left, self.op, right])'''),
 (E, '''        args = [a.tealish() for a in self.args]
        if self.immediate_args:
            args = self.immediates + args
        return''', '''        args = list(self.immediates) if self.immediate_args else []
        for a in self.args:
            args.append(a.tealish())
        return'''),
 ("stdlib.py", '''        args = [a.tealish() for a in self.args]
        return f"{self.name}({', '.join(args)})"''', '''        return self.name + "(" + ", ".join(a.tealish() for a in self.args) + ")"'''),
 (E, '''return f"Gtxn[{self.index.tealish()}].{self.field}[{self.arrayIndex.tealish()}]"''', '''base = GroupTxnField._tealish(self)
        return f"{base}[{self.arrayIndex.tealish()}]"'''),
]


def main():
    only = [a[2:] for a in sys.argv[1:] if a.startswith("--")]
    which = [a for a in sys.argv[1:] if not a.startswith("--")] or list(GROUPS)
    d = tempfile.mkdtemp(prefix="refactor.", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        for g in which:
            for f, old, new in GROUPS[g]:
                p = f"{d}/tealish/{f}"
                s = open(p).read()
                if s.count(old) != 1:
                    print(f"{g}: {s.count(old)} places for {old[:70]!r}")
                    continue
                open(p, "w").write(s.replace(old, new))
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-o", "python_files=test*.py", "tests"], cwd=d, capture_output=True, text=True, env={**os.environ, "PYTHONPATH": d, "PYTHONDONTWRITEBYTECODE": "1"})
        print("tests:", t.stdout.strip().splitlines()[-1:] or t.stderr[-300:])
        mods = sorted(f[:-3] for f in os.listdir("/verif/tlv/pyver") if f.startswith("oc") and f.endswith(".py") and (not only or f[:-3] in only))

        def one(m):
            r = subprocess.run(["python3-vt", "tools/obligations.py", m], cwd="/verif", capture_output=True, text=True, env={**os.environ, "TLV_REPO": d})
            return m, r.stdout + r.stderr[-600:]

        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for m, out in ex.map(one, mods):
                print("==", m)
                print("\n".join(l[:330] for l in out.splitlines()))
    finally:
        shutil.rmtree(d)


main()
