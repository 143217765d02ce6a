From ea590092de72b908be279985f74945c43cd742ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 01/66] fix: parse nested calls in linear time (memoize the
 expression parser)

---
 tealish/tx_expressions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tealish/tx_expressions.py b/tealish/tx_expressions.py
index edfc4a5..7539604 100644
--- a/tealish/tx_expressions.py
+++ b/tealish/tx_expressions.py
@@ -15,6 +15,7 @@ tealish_mm = metamodel_from_file(
     skipws=True,
     ws=" \t",
     debug=False,
+    memoization=True,
     classes=class_provider,
 )
 
-- 
2.43.0


From 2cbacd85f2766b39303c7eaf01f4871532c2c5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 02/66] fix: let inner transactions take part in inner groups

---
 tealish/nodes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index fae3d51..b56ae09 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1043,7 +1043,6 @@ class InnerTxn(InlineStatement):
                 node.expression.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
-        self.compiler.use_inner_txns_macro = False
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
         if self.compiler.use_inner_txns_macro:
             writer.write(self, "callsub _itxn_begin")
-- 
2.43.0


From 13018cbc35a0d562acf1d38dd5c3a443993c7455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 03/66] fix: process while and elif conditions only once

---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index b56ae09..80cc7fb 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1172,7 +1172,7 @@ class Elif(Node):
 
     def process(self) -> None:
         self.condition.process()
-        for n in self.nodes:
+        for n in self.child_nodes:
             n.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -1433,7 +1433,7 @@ class WhileStatement(InlineStatement):
 
     def process(self) -> None:
         self.condition.process()
-        for n in self.nodes:
+        for n in self.child_nodes:
             n.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From 06470ffe4280fd2c9530081066a55a9e4fe218ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 04/66] fix: resolve names to the innermost enclosing scope

---
 tealish/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index 485007b..b58a358 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -45,7 +45,7 @@ class BaseNode:
 
     def get_scope(self) -> Scope:
         scope = Scope()
-        for s in self.get_scopes():
+        for s in reversed(self.get_scopes()):
             scope.update(s)
         return scope
 
@@ -62,7 +62,7 @@ class BaseNode:
 
     def get_slots(self) -> Dict[str, Any]:
         slots = {}
-        for s in self.get_scopes():
+        for s in reversed(self.get_scopes()):
             slots.update(s.slots)
         return slots
 
@@ -103,7 +103,7 @@ class BaseNode:
 
     def get_blocks(self) -> Dict[str, "Block"]:
         blocks = {}
-        for s in self.get_scopes():
+        for s in reversed(self.get_scopes()):
             blocks.update(s.blocks)
         return blocks
 
-- 
2.43.0


From 1b9f361e98ddda28c77b9dc72c040f7e86439108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 05/66] fix: keep function variables apart from those of later
 blocks

---
 tealish/nodes.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 80cc7fb..71d1a2f 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -307,8 +307,7 @@ class Program(Node):
         return node
 
     def process(self) -> None:
-        for n in self.nodes:
-            n.process()
+        process_functions_last(self.nodes)
 
         # enable inner_txns_macro if it is needed and not explicitly disabled
         if self.compiler.use_inner_txns_macro is None and self.has_child_node(InnerGroup):
@@ -701,8 +700,7 @@ class Block(Statement):
         return block
 
     def process(self) -> None:
-        for n in self.nodes:
-            n.process()
+        process_functions_last(self.nodes)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// block {self.name}")
@@ -2058,6 +2056,17 @@ def indent(s: str) -> str:
     return textwrap.indent(s, "    ")
 
 
+def process_functions_last(nodes) -> None:
+    # Functions are given slots above every slot used so far, so everything they can
+    # be called from (including later blocks) must have been given its slots already.
+    functions = [n for n in nodes if isinstance(n, (Func, DecoratedFunc))]
+    for n in nodes:
+        if n not in functions:
+            n.process()
+    for n in functions:
+        n.process()
+
+
 def is_exit_statement(node):
     if isinstance(node, (Exit, Switch, Jump, Router)):
         return True
-- 
2.43.0


From 3c27ab8b914b5a786654f17b07652cac8d5e3552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 06/66] fix: format plain Box references

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 71d1a2f..5e10e6d 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -2031,7 +2031,7 @@ class BoxDeclaration(LineStatement):
     def _tealish(self):
         s = (
             f"box<{self.struct_name}> {self.name.tealish()} = "
-            f"{self.method}Box({self.key.tealish()})"
+            f"{self.method or ''}Box({self.key.tealish()})"
         )
         return s + "\n"
 
-- 
2.43.0


From 325a50ef8b9d2c433eb3c232c93420f7e9faffe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 07/66] fix: treat decorated functions in blocks like other
 functions

---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 5e10e6d..4b79daf 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -682,13 +682,13 @@ class Block(Statement):
 
             n = Statement.consume(compiler, block)
             if exit_statement:
-                if not isinstance(n, (Func, Block, Comment, Blank)):
+                if not isinstance(n, (Func, DecoratedFunc, Block, Comment, Blank)):
                     raise ParseError(
                         f"Unexpected statement at line {n.line_no}."
                         + f" Only Block and Function definitions should occure after a {exit_statement}."
                     )
             else:
-                if isinstance(n, (Func, Block)):
+                if isinstance(n, (Func, DecoratedFunc, Block)):
                     raise ParseError(
                         f"Unexpected {n} definition at line {n.line_no}. "
                         + "Block and Function definitions must occur after an exit statement (e.g. exit, switch, jump)."
-- 
2.43.0


From 9c6bc5dd68ac2bae6ddd97796c7cc8a48063ccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 08/66] fix: separate immediate arguments by commas when
 formatting

---
 tealish/expression_nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 0e55aee..7ddac43 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -304,7 +304,8 @@ class OpCall(BaseNode):
                     f"{x} can not be used as an immediate argument for {op.name}",
                     node=self,
                 )
-        self.immediate_args = " ".join(map(str, immediates))
+        self.immediates = list(map(str, immediates))
+        self.immediate_args = " ".join(self.immediates)
         returns = op.returns_types
         self.type = returns[0] if len(returns) == 1 else returns
 
@@ -319,7 +320,7 @@ class OpCall(BaseNode):
     def _tealish(self) -> str:
         args = [a.tealish() for a in self.args]
         if self.immediate_args:
-            args = self.immediate_args.split(", ") + args
+            args = self.immediates + args
         return f"{self.name}({', '.join(args)})"
 
 
-- 
2.43.0


From b39645079b9d034d45297e615d30ff0a6343eae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 09/66] fix: decode uint64 and bigint router arguments

---
 tealish/nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 4b79daf..10ca2ee 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -820,12 +820,12 @@ class Route(Node):
         for i, (arg, type_name) in enumerate(self.func.args.args):
             a = i + 1
             arg_type = get_type_instance(type_name)
-            if type_name == "bytes":
-                line = f"Txn.ApplicationArgs[{a}]"
-            elif type_name == "int":
+            if isinstance(arg_type, IntType) and arg_type.size == 8:
                 line = f"FromBytes(Txn.ApplicationArgs[{a}], {type_name})"
-            elif isinstance(arg_type, IntType) and arg_type.size != 8:
+            elif isinstance(arg_type, IntType):
                 line = f"Cast(btoi(Txn.ApplicationArgs[{a}]), {type_name})"
+            elif isinstance(arg_type, BytesType) and not arg_type.size:
+                line = f"Txn.ApplicationArgs[{a}]"
             elif isinstance(arg_type, BytesType):
                 line = f"Cast(Txn.ApplicationArgs[{a}], {type_name})"
             expression = GenericExpression.parse(line, self, self.compiler)
-- 
2.43.0


From 61a480bc7a8329bcb6707f07c293d643fcd473e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 10/66] fix: do not take // inside string literals for comments

---
 tealish/__init__.py | 10 +++++-----
 tealish/utils.py    | 30 +++++++++++++++++++++++++++---
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index e230474..6cd8d4f 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -2,7 +2,7 @@ import inspect
 from typing import List, Dict, Union, Tuple
 from .base import BaseNode
 from .nodes import Node, Program
-from .utils import TealishMap
+from .utils import TealishMap, split_comment
 from .types import _structs
 
 
@@ -32,9 +32,9 @@ class TealWriter:
             teal = node_or_teal
             prefix = (" " * 4) * self.level
             teal = prefix + teal
-            if " //" in teal.strip():
-                teal, comment = teal.split("//", 1)
-                teal = teal.ljust(60) + "//" + comment
+            code, comment = split_comment(teal)
+            if comment is not None and code.strip() and code.endswith(" "):
+                teal = code.ljust(60) + "//" + comment
             parent._teal.append(teal)
             self.output.append(teal)
             if hasattr(parent, "line_no"):
@@ -64,7 +64,7 @@ class OneLineTealWriter:
         elif isinstance(node_or_teal, list):
             self.teal += node_or_teal
         else:
-            teal = node_or_teal.split("//", 1)[0]
+            teal = split_comment(node_or_teal)[0]
             self.teal.append(teal)
 
     @property
diff --git a/tealish/utils.py b/tealish/utils.py
index 19d665c..19bc511 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -2,6 +2,29 @@ from typing import Dict, List, Tuple, Optional, Union, Any
 from algosdk.source_map import SourceMap
 
 
+def find_outside_strings(line: str, marker: str) -> int:
+    """Return the index of the first marker that is not inside a string literal or -1"""
+    in_string = False
+    i = 0
+    while i < len(line):
+        if in_string and line[i] == "\\":
+            i += 1
+        elif line[i] == '"':
+            in_string = not in_string
+        elif not in_string and line.startswith(marker, i):
+            return i
+        i += 1
+    return -1
+
+
+def split_comment(line: str) -> Tuple[str, Optional[str]]:
+    """Split a line of TEAL into the code before and the comment after the //"""
+    i = find_outside_strings(line, "//")
+    if i < 0:
+        return line, None
+    return line[:i], line[i + 2 :]
+
+
 def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
     source_map: Dict[int, int] = {}
     n = 1
@@ -13,8 +36,9 @@ def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
         i = i + 1
         line = line.strip()
         if not (not line or line.startswith("//")):
-            if line.split("//")[0].strip().endswith(":"):
-                label = line.split("//")[0].strip()[:-1]
+            code = split_comment(line)[0].strip()
+            if code.endswith(":"):
+                label = code[:-1]
                 # duplicate labels get compressed into 1
                 if previous_line_is_label:
                     label_replacements[label] = previous_label
@@ -39,7 +63,7 @@ def strip_comments(teal_lines: List[str]) -> List[str]:
     for line in teal_lines:
         line = line.strip()
         if not (not line or line.startswith("//")):
-            line = line.split("//")[0].strip()
+            line = split_comment(line)[0].strip()
             output.append(line)
     return output
 
-- 
2.43.0


From 284e3a2da7c5747d79b1507d0ad56a37e5a30ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 11/66] fix: do not take # inside string literals for comments

---
 tealish/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 6cd8d4f..0003e38 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -2,7 +2,7 @@ import inspect
 from typing import List, Dict, Union, Tuple
 from .base import BaseNode
 from .nodes import Node, Program
-from .utils import TealishMap, split_comment
+from .utils import TealishMap, find_outside_strings, split_comment
 from .types import _structs
 
 
@@ -98,7 +98,9 @@ class TealishCompiler:
         line = self.source_lines[self.line_no].strip()
         # strip out inline comments
         if not line.startswith("#"):
-            line = line.split("#")[0]
+            i = find_outside_strings(line, "#")
+            if i >= 0:
+                line = line[:i]
         self.line_no += 1
         return line
 
-- 
2.43.0


From b1302d1d5d1b5883eb833f165e17ccafa703ffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 12/66] fix: replace only whole branch targets when minifying

---
 tealish/utils.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/tealish/utils.py b/tealish/utils.py
index 19bc511..ab78b6d 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -1,3 +1,4 @@
+import re
 from typing import Dict, List, Tuple, Optional, Union, Any
 from algosdk.source_map import SourceMap
 
@@ -25,6 +26,20 @@ def split_comment(line: str) -> Tuple[str, Optional[str]]:
     return line[:i], line[i + 2 :]
 
 
+def replace_branch_targets(code: str, replacements: Dict[str, str]) -> str:
+    def replace(match: "re.Match[str]") -> str:
+        string, op, targets = match.groups()
+        if string:
+            return string
+        return op + re.sub(r"\S+", lambda t: replacements.get(t[0], t[0]), targets)
+
+    return re.sub(
+        r'("(?:\\.|[^"\\])*")|((?:^|[;:])\s*(?:b|bz|bnz|callsub|switch|match)\s)([^;]*)',
+        replace,
+        code,
+    )
+
+
 def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
     source_map: Dict[int, int] = {}
     n = 1
@@ -52,9 +67,8 @@ def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
             output.append(line)
     source_map[n] = len(teal_lines) - 1
     for i, line in enumerate(output):
-        for k in label_replacements:
-            if k in line:
-                output[i] = line.replace(k, label_replacements[k])
+        code, _ = split_comment(line)
+        output[i] = replace_branch_targets(code, label_replacements) + line[len(code) :]
     return output, source_map
 
 
-- 
2.43.0


From f0583e35d1cebd4a67018241dff0231b9fc05d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 13/66] fix: report unterminated constructs and read inline
 comments consistently

---
 tealish/__init__.py | 20 ++++++++------------
 tealish/nodes.py    |  2 +-
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 0003e38..67df1d5 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,6 +1,7 @@
 import inspect
 from typing import List, Dict, Union, Tuple
 from .base import BaseNode
+from .errors import ParseError
 from .nodes import Node, Program
 from .utils import TealishMap, find_outside_strings, split_comment
 from .types import _structs
@@ -90,26 +91,21 @@ class TealishCompiler:
         self.use_inner_txns_macro = None
 
     def consume_line(self) -> str:
+        line = self.peek()
+        self.line_no += 1
+        return line
+
+    def peek(self) -> str:
         if self.line_no == len(self.source_lines):
-            # TODO: this and the func below are Optional[str] but
-            # nodes.py uses them heavily and dont
-            # check the type is not None
-            return  # type: ignore
+            raise ParseError(f"Unexpected end of program at line {self.line_no}")
         line = self.source_lines[self.line_no].strip()
         # strip out inline comments
         if not line.startswith("#"):
             i = find_outside_strings(line, "#")
             if i >= 0:
-                line = line[:i]
-        self.line_no += 1
+                line = line[:i].strip()
         return line
 
-    def peek(self) -> str:
-        if self.line_no == len(self.source_lines):
-            # TODO: see above
-            return  # type: ignore
-        return self.source_lines[self.line_no].strip()
-
     def write(self, lines: Union[str, List[str]] = "", line_no: int = 0) -> None:
         prefix = "  " * self.level
         if type(lines) == str:
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 10ca2ee..5c58065 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -276,7 +276,7 @@ class Program(Node):
         expect_struct_definition = True
         exit_statement = None
         while True:
-            if compiler.peek() is None:
+            if compiler.line_no == len(compiler.source_lines):
                 break
             n = Statement.consume(compiler, node)
             if not expect_struct_definition and isinstance(n, StructDefinition):
-- 
2.43.0


From 364c8b8a97a39aa7f84f2330540414018595e5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 14/66] fix: only take the keyword end for the end of a
 construct

---
 tealish/nodes.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 5c58065..b462bf2 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1078,7 +1078,7 @@ class InnerGroup(InlineStatement):
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "InnerGroup":
         node = InnerGroup(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith("end"):
+            if compiler.peek() == "end":
                 compiler.consume_line()
                 break
             node.add_child(Statement.consume(compiler, node))
@@ -1123,7 +1123,8 @@ class IfThen(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "IfThen":
         node = IfThen("", parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith(("end", "elif", "else:")):
+            line = compiler.peek()
+            if line == "end" or line.startswith(("elif ", "else:")):
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -1163,7 +1164,8 @@ class Elif(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Elif":
         node = Elif(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith(("end", "elif", "else:")):
+            line = compiler.peek()
+            if line == "end" or line.startswith(("elif ", "else:")):
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -1206,7 +1208,7 @@ class Else(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Else":
         node = Else(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith("end"):
+            if compiler.peek() == "end":
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -1781,6 +1783,10 @@ class DecoratedFunc(InlineStatement):
                 break
             elif compiler.peek().startswith("@"):
                 decorated_func.add_decorator(Decorator.consume(compiler, parent))
+            else:
+                raise ParseError(
+                    f"Decorators must be followed by a func at line {compiler.line_no}!"
+                )
         return decorated_func
 
     def process(self) -> None:
-- 
2.43.0


From 14a33af9e3aa9373b80b7aaecf982389aeffaf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 15/66] fix: recognise statements by whole keywords

---
 tealish/nodes.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index b462bf2..107d1e5 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -237,7 +237,7 @@ class Statement(Node):
             return IfStatement.consume(compiler, parent)
         elif line.startswith("while "):
             return WhileStatement.consume(compiler, parent)
-        elif line.startswith("for _"):
+        elif line.startswith("for _ "):
             return For_Statement.consume(compiler, parent)
         elif line.startswith("for "):
             return ForStatement.consume(compiler, parent)
@@ -383,9 +383,9 @@ class LineStatement(InlineStatement):
             return Const(line, parent, compiler=compiler)
         elif line.startswith("jump "):
             return Jump(line, parent, compiler=compiler)
-        elif line.startswith("return"):
+        elif re.match(r"return\b", line):
             return Return(line, parent, compiler=compiler)
-        elif line.startswith("break"):
+        elif re.match(r"break\b", line):
             return Break(line, parent, compiler=compiler)
         elif re.match(
             r"[A-Za-z][a-zA-Z_0-9]*(\[[0-9]+\])? [a-zA-Z_0-9]+( = .*)?", line
@@ -395,7 +395,7 @@ class LineStatement(InlineStatement):
             return BoxDeclaration(line, parent, compiler=compiler)
         elif re.match(r"[a-z][a-zA-Z_0-9]*\.[a-z][a-zA-Z_0-9]* = .*", line):
             return StructOrBoxAssignment(line, parent, compiler=compiler)
-        elif " = " in line:
+        elif re.match(r"[a-z_][a-zA-Z0-9_,\s]* = .*", line):
             return Assignment(line, parent, compiler=compiler)
         # Statement functions
         elif line.startswith("exit("):
@@ -593,7 +593,10 @@ class VarDeclaration(LineStatement):
 
 
 class Assignment(LineStatement):
-    pattern = r"(?P<names>([a-z_][a-zA-Z0-9_]*,?\s*)+) = (?P<expression>.*)$"
+    pattern = (
+        r"(?P<names>[a-z_][a-zA-Z0-9_]*(\s*,\s*[a-z_][a-zA-Z0-9_]*)*)\s* = "
+        + r"(?P<expression>.*)$"
+    )
     names: str
     name_nodes: List[Name]
     expression: GenericExpression
-- 
2.43.0


From d019228ee0d29dcf74b5e41f3a2cca1f25af6ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 16/66] fix: reject text after the end of a recognised line
 instead of dropping it

---
 tealish/nodes.py | 18 +++++++++++++-----
 tealish/types.py |  8 ++++----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 107d1e5..0599dd5 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -938,6 +938,7 @@ class TealLine(Node):
 
 class Teal(InlineStatement):
     possible_child_nodes = [TealLine]
+    pattern = r"teal:$"
 
     @classmethod
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Teal":
@@ -980,6 +981,7 @@ class InnerTxnFieldSetter(InlineStatement):
 
 class InnerTxn(InlineStatement):
     possible_child_nodes = [InnerTxnFieldSetter]
+    pattern = r"inner_txn:$"
 
     def __init__(
         self,
@@ -1072,6 +1074,7 @@ class InnerTxn(InlineStatement):
 
 class InnerGroup(InlineStatement):
     possible_child_nodes = [Statement]
+    pattern = r"inner_group:$"
 
     def __init__(self, line: str, parent: Node, compiler: "TealishCompiler") -> None:
         super().__init__(line, parent, compiler)
@@ -1152,7 +1155,7 @@ class IfThen(Node):
 
 class Elif(Node):
     possible_child_nodes = [InlineStatement]
-    pattern = r"elif ((?P<modifier>not) )?(?P<condition>.*):"
+    pattern = r"elif ((?P<modifier>not) )?(?P<condition>.*):$"
     condition: GenericExpression
     modifier: str
 
@@ -1198,7 +1201,7 @@ class Elif(Node):
 
 class Else(Node):
     possible_child_nodes = [InlineStatement]
-    pattern = r"else:"
+    pattern = r"else:$"
 
     def __init__(
         self, line: str, parent: Optional[Node], compiler: Optional["TealishCompiler"]
@@ -1588,12 +1591,17 @@ class For_Statement(InlineStatement):
 
 class ArgsList(Expression):
     arg_pattern = r"(?P<arg_name>[a-z][a-z_0-9]*): (?P<arg_type>[a-zA-Z][A-Za-z_0-9<>]*(?:\[\d+\])?)"
-    pattern = rf"(?P<args>({arg_pattern}(, )?)*)"
+    pattern = r"(?P<args>.*)"
     args: List[Tuple[str, TealishType]]
 
     def __init__(self, line: str) -> None:
         super().__init__(line)
-        self.args = re.findall(self.arg_pattern, line)
+        self.args = []
+        for arg in filter(None, re.split(r"\s*,\s*", line.strip())):
+            match = re.fullmatch(self.arg_pattern, arg)
+            if match is None:
+                raise ParseError(f'Cannot parse "{arg}" as argument')
+            self.args.append(match.groups())
         self.arg_types = [get_type_instance(type_name) for _, type_name in self.args]
 
     def _tealish(self) -> str:
@@ -1810,7 +1818,7 @@ class DecoratedFunc(InlineStatement):
 class StructFieldDefinition(InlineStatement):
     pattern = (
         r"(?P<field_name>[a-z][A-Z-a-z0-9_]*): "
-        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]+(\[\d+\])?)"
+        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]*(\[\d+\])?)$"
     )
     field_name: str
     data_type: str
diff --git a/tealish/types.py b/tealish/types.py
index 8981eb2..42a7f0e 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -210,16 +210,16 @@ def get_type_instance(type_name):
         return UInt8Type()
     elif type_name == "uint64":
         return IntType()
-    elif m := re.match(r"bytes\[([0-9]+)\]", type_name):
+    elif m := re.fullmatch(r"bytes\[([0-9]+)\]", type_name):
         size = int(m.groups()[0])
         return BytesType(size)
-    elif m := re.match(r"box<([A-Z][a-zA-Z0-9_]+)>", type_name):
+    elif m := re.fullmatch(r"box<([A-Z][a-zA-Z0-9_]*)>", type_name):
         struct_name = m.groups()[0]
         return BoxType(struct_name=struct_name)
-    elif m := re.match(r"([A-Z][a-zA-Z0-9_]+)", type_name):
+    elif m := re.fullmatch(r"([A-Z][a-zA-Z0-9_]*)", type_name):
         struct_name = m.groups()[0]
         return get_struct(struct_name)
-    elif m := re.match(r"uint8\[([0-9]+)\]", type_name):
+    elif m := re.fullmatch(r"uint8\[([0-9]+)\]", type_name):
         size = int(m.groups()[0])
         return ArrayType(UInt8Type, size)
     else:
-- 
2.43.0


From aed01bd2a2f28706c50f8f42c3c808acd6e1929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 17/66] fix: do not take the start of a field or curve name for
 a constant

---
 tealish/tealish_expressions.tx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 2a21431..a639eb7 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -35,7 +35,7 @@ GlobalField: 'Global.' field=FieldName;
 StructOrBoxField: name=Name '.' field=Name;
 Value: StdLibFunctionCall | FunctionCall | Field | StructOrBoxField | UnaryOp | Group | Integer | Bytes | Constant | Enum | Variable;
 Variable: name=Name;
-Constant: name=/([A-Z][A-Z_0-9]+)/;
+Constant: name=/([A-Z][A-Z_0-9]*\b)/;
 Enum: name=/([A-Z][A-Za-z_0-9]+)/;
 Name: (/([a-z][A-Za-z_0-9]*)(\[[0-9]+\])?/ | /_/);
 StdLibFunctionName: /([A-Z][A-Za-z_0-9]+)/;
-- 
2.43.0


From 47526e34e2f4fa5b02bb969dbdc10fb106ccebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 18/66] fix: compile array fields of inner transactions

---
 tealish/expression_nodes.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 7ddac43..64faf81 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -564,6 +564,36 @@ class InnerTxnField(BaseNode):
         return f"Itxn.{self.field}"
 
 
+class InnerTxnArrayField(BaseNode):
+    def __init__(
+        self,
+        field: str,
+        arrayIndex: Union[Constant, Integer],
+        parent: Optional[BaseNode] = None,
+    ) -> None:
+        self.field = field
+        self.arrayIndex = arrayIndex
+        self.type = AVMType.any
+        self.parent = parent
+
+    def process(self) -> None:
+        self.type = self.get_field_type("txn", self.field)
+        if not isinstance(self.arrayIndex, Integer):
+            # index is an expression that needs to be evaluated
+            self.arrayIndex.process()
+
+    def write_teal(self, writer: "TealWriter") -> None:
+        if not isinstance(self.arrayIndex, Integer):
+            writer.write(self, self.arrayIndex)
+            writer.write(self, f"itxnas {self.field}")
+        else:
+            # index is a constant
+            writer.write(self, f"itxna {self.field} {self.arrayIndex.value}")
+
+    def _tealish(self) -> str:
+        return f"Itxn.{self.field}[{self.arrayIndex.tealish()}]"
+
+
 class StructOrBoxField(BaseNode):
     def __init__(self, name, field, parent=None) -> None:
         self.name = name
@@ -626,6 +656,7 @@ def class_provider(name: str) -> Optional[type]:
         "NegativeGroupIndex": NegativeGroupIndex,
         "GlobalField": GlobalField,
         "InnerTxnField": InnerTxnField,
+        "InnerTxnArrayField": InnerTxnArrayField,
         "StructOrBoxField": StructOrBoxField,
     }
     return classes.get(name)
-- 
2.43.0


From d7f0dfc32a03384036de0a96dae7f00d4f9761a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 19/66] fix: give byte string literals the size of the bytes
 they denote

---
 tealish/expression_nodes.py | 11 +++++++++--
 tealish/nodes.py            |  4 ++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 64faf81..7adb5d0 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -1,3 +1,4 @@
+import re
 from typing import List, Optional, Union, TYPE_CHECKING
 
 from .base import BaseNode
@@ -20,6 +21,11 @@ if TYPE_CHECKING:
     from .nodes import Node, Func, GenericExpression
 
 
+def string_literal_size(value: str) -> int:
+    """Return the number of bytes denoted by the text between the quotes of a literal"""
+    return len(re.sub(rb"(?s)\\(x[0-9a-fA-F]{2}|.)", b".", value.encode()))
+
+
 class Integer(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
         self.value = int(value)
@@ -36,8 +42,9 @@ class Integer(BaseNode):
 
 class Bytes(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
-        self.value = value
-        self.type = BytesType(size=len(value))
+        # value is kept as it must be written in TEAL and Tealish source
+        self.value = value.replace('"', r"\"")
+        self.type = BytesType(size=string_literal_size(self.value))
         self.parent = parent
 
     def write_teal(self, writer: "TealWriter") -> None:
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 0599dd5..b75e6ff 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1,4 +1,3 @@
-import ast
 import re
 import textwrap
 from typing import (
@@ -15,6 +14,7 @@ from typing import (
 
 from .base import BaseNode
 from .errors import CompileError, ParseError
+from .expression_nodes import string_literal_size
 from .tx_expressions import parse_expression
 from .tealish_builtins import Var, constants
 from .types import (
@@ -176,7 +176,7 @@ class LiteralBytes(Literal):
     value: str  # value contains quotes
 
     def type(self) -> AVMType:
-        return BytesType(size=len(ast.literal_eval(self.value)))
+        return BytesType(size=string_literal_size(self.value[1:-1]))
 
     def _tealish(self) -> str:
         return self.value
-- 
2.43.0


From 0d7d058e8b5ef2842ba164871afee003cad20cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 20/66] fix: give the literal 0 the smallest width

---
 tealish/expression_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 7adb5d0..17b0071 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -29,7 +29,7 @@ def string_literal_size(value: str) -> int:
 class Integer(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
         self.value = int(value)
-        size = (((self.value).bit_length() - 1) // 8) + 1
+        size = max(1, (self.value.bit_length() + 7) // 8)
         self.type = UIntType(size)
         self.parent = parent
 
-- 
2.43.0


From 3026c9b717e9c806040e8ce25d5ff7cb76fb2182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 21/66] fix: do not accept missing or multiple values as a
 value of any type

---
 tealish/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/types.py b/tealish/types.py
index 42a7f0e..a6786a8 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -45,7 +45,7 @@ class AnyType(TealishType):
     avm_type = AVMType.any
 
     def can_hold(self, other):
-        return True
+        return isinstance(other, TealishType)
 
 
 class IntType(TealishType):
-- 
2.43.0


From 05fe1e61bd5b6021526dd1b8f3af3ede0a0f6717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 22/66] fix: give addr its size of 32 bytes

---
 tealish/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tealish/types.py b/tealish/types.py
index a6786a8..c164dda 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -126,7 +126,9 @@ class BigIntType(BytesType):
 class AddrType(BytesType):
     name = "addr"
     avm_type = AVMType.bytes
-    size = 32
+
+    def __init__(self):
+        super().__init__(size=32)
 
 
 class StructField:
-- 
2.43.0


From d71fe466c9071647e20080cfb15905bbbce77af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 23/66] fix: assert that the converted int fits in the bytes

---
 tealish/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 92dda3e..1b854b9 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -329,7 +329,7 @@ class UIntToBytesWrapper(BaseNode):
             writer.write(self, self.expression)
             writer.write(self, "itob")
         else:
-            writer.write(self, UIntSizeAssertionWrapper(self.expression, self.size * 8))
+            writer.write(self, UIntSizeAssertionWrapper(self.expression, self.size))
             writer.write(self, "itob")
             if self.size and self.size < 8:
                 writer.write(self, f"extract {8 - self.size} {self.size}")
-- 
2.43.0


From 4a72250af8c815f288683384b4190e8630af5b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 24/66] fix: do not assert a length when casting to bytes of
 any length

---
 tealish/stdlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 1b854b9..a06bb60 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -264,6 +264,8 @@ class BytesSizeAssertionWrapper(BaseNode):
 
     def write_teal(self, writer):
         writer.write(self, self.expression)
+        if not self.size:
+            return
         # Assert that the expression is bytes of size N
         writer.write(
             self,
-- 
2.43.0


From b51baa812a0152078fd30c4ebbc3fc5eb2f2bc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 25/66] fix: pad a bigint to any requested number of bytes

---
 tealish/stdlib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index a06bb60..a60b5b4 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -175,11 +175,12 @@ class ToBytes(FunctionCall):
     def write_teal(self, writer: "TealWriter") -> None:
         expression_type = self.expression.type
         writer.write(self, self.expression)
-        if isinstance(expression_type, IntType):
+        is_int = isinstance(expression_type, IntType)
+        if is_int:
             writer.write(self, "itob")
-        if self.type.size and self.type.size < 8:
+        if is_int and self.type.size and self.type.size < 8:
             writer.write(self, f"extract {8 - self.type.size} {self.type.size}")
-        elif self.type.size > 8:
+        elif self.type.size > 8 or not is_int:
             writer.write(self, f"// zpad({self.type.size})")
             writer.write(self, f"pushint {self.type.size}")
             writer.write(self, "bzero")
-- 
2.43.0


From fb773d866a69668e6cb09f92394866dae76485f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 26/66] fix: check each of several ensured types on its own
 value

---
 tealish/stdlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index a60b5b4..d1d88a3 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -235,7 +235,7 @@ class TypeAssertionWrapper(BaseNode):
             ):
                 if self.dup:
                     # If this has a return type duplicate the value so there is something left to return
-                    writer.write(self, "dup")
+                    writer.write(self, f"dig {i}" if i else "dup")
                 # Assert that the expression is bytes of size N
                 writer.write(self, f"// {type} Type Assertion")
                 writer.write(self, "len")
@@ -247,7 +247,7 @@ class TypeAssertionWrapper(BaseNode):
             ):
                 if self.type:
                     # If this has a return type duplicate the value so there is something left to return
-                    writer.write(self, "dup")
+                    writer.write(self, f"dig {i}" if i else "dup")
                 # Assert that the expression is an int of N*8 bits
                 writer.write(self, f"// {type} Type Assertion")
                 writer.write(self, "bitlen")
-- 
2.43.0


From 3c2e6b1c82ed8de370ee93eaf7f124e36acad27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 27/66] fix: answer reverse lookups of compiled maps

---
 tealish/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tealish/utils.py b/tealish/utils.py
index ab78b6d..d1a1519 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -92,11 +92,15 @@ class TealishMap:
         self.errors: Dict[int, str] = {
             int(k): v for k, v in map.get("errors", {}).items()
         }
-        self.tealish_teal: Dict[int, List[int]] = {}
+
+    @property
+    def tealish_teal(self) -> Dict[int, List[int]]:
+        tealish_teal: Dict[int, List[int]] = {}
         for teal, tealish in self.teal_tealish.items():
-            if tealish not in self.tealish_teal:
-                self.tealish_teal[tealish] = []
-            self.tealish_teal[tealish].append(teal)
+            if tealish not in tealish_teal:
+                tealish_teal[tealish] = []
+            tealish_teal[tealish].append(teal)
+        return tealish_teal
 
     def get_tealish_line_for_pc(self, pc: int) -> Optional[int]:
         teal_line = self.get_teal_line_for_pc(pc)
-- 
2.43.0


From 63578793f842ad977afee0fda2da91cecf73dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 28/66] fix: count lines of TEAL source maps from 1 like the
 Tealish map

---
 tealish/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tealish/utils.py b/tealish/utils.py
index d1a1519..c7fbfc3 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -128,7 +128,8 @@ class TealishMap:
     ) -> None:
         if not isinstance(sourcemap, SourceMap):
             sourcemap = SourceMap(sourcemap)
-        self.pc_teal = dict(sourcemap.pc_to_line)
+        # TEAL source maps number lines from 0
+        self.pc_teal = {pc: line + 1 for pc, line in sourcemap.pc_to_line.items()}
 
     def as_dict(self) -> Dict[str, Any]:
         return {
-- 
2.43.0


From a09cc109888e3173bfaa75aa3f5f9a20d3f81dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 29/66] fix: write map files without altering error messages

---
 tealish/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index 12ccefb..c1bfe48 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -78,7 +78,7 @@ def _build(
             if not quiet:
                 click.echo(f"Writing source map to {map_filename}")
             with open(map_filename, "w") as f:
-                f.write(json.dumps(tealish_map.as_dict()).replace("],", "],\n"))
+                f.write(json.dumps(tealish_map.as_dict()))
 
 
 def _compile_program(source: str) -> Tuple[List[str], TealishMap]:
-- 
2.43.0


From 03e7121f087437149efa3ebdf6029c5f10fb15b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 30/66] fix: report compile errors from format and inspect

---
 tealish/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index c1bfe48..2809a70 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -144,7 +144,7 @@ def format(ctx: click.Context, tealish_file: IO) -> None:
     input = tealish_file.read()
     try:
         output = reformat_program(input)
-    except ParseError as e:
+    except (ParseError, CompileError) as e:
         raise click.ClickException(str(e))
     tealish_file.seek(0)
     tealish_file.write(output)
@@ -159,7 +159,7 @@ def inspect(ctx: click.Context, tealish_file: IO) -> None:
     input = tealish_file.read()
     try:
         output = inspect_program(input)
-    except ParseError as e:
+    except (ParseError, CompileError) as e:
         raise click.ClickException(str(e))
     print(json.dumps(output, indent=2))
 
-- 
2.43.0


From d1fdd930656c67dc9da48543beb3e30d8c11ab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 31/66] fix: do not repeat the output when compiling twice

---
 tealish/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 67df1d5..5ae8087 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -135,6 +135,7 @@ class TealishCompiler:
             self.parse()
         if not self.processed:
             self.process()
+        self.writer = TealWriter()
         for node in self.nodes:
             node.write_teal(self.writer)
         self.source_map = self.writer.source_map
-- 
2.43.0


From 15265fc0a8e179c57ce1baefb9d6ddeea3842f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 32/66] fix: keep the structs of each program to itself

---
 tealish/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 5ae8087..e32f2fc 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -89,6 +89,7 @@ class TealishCompiler:
         self.processed = False
         self.line_nodes = {}
         self.use_inner_txns_macro = None
+        self.structs = {}
 
     def consume_line(self) -> str:
         line = self.peek()
@@ -117,10 +118,15 @@ class TealishCompiler:
             self.current_output_line += 1
 
     def parse(self) -> None:
+        _structs.clear()
         node = Program.consume(self, None)
         self.nodes.append(node)
+        self.structs = dict(_structs)
 
     def process(self) -> None:
+        # other programs may have been parsed since this one was
+        _structs.clear()
+        _structs.update(self.structs)
         for node in self.nodes:
             try:
                 node.process()
@@ -156,7 +162,7 @@ class TealishCompiler:
         return map
 
     def get_structs(self):
-        return dict(_structs)
+        return dict(self.structs)
 
 
 def compile_program(source: str) -> Tuple[List[str], TealishMap]:
-- 
2.43.0


From a0d80741b68a893396ea974ccee9c2ce9c90ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 33/66] fix: report every rejected program with a parse or
 compile error

---
 tealish/__init__.py | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index e32f2fc..166f0c3 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,7 +1,6 @@
-import inspect
-from typing import List, Dict, Union, Tuple
+from typing import List, Dict, Optional, Union, Tuple
 from .base import BaseNode
-from .errors import ParseError
+from .errors import CompileError, ParseError
 from .nodes import Node, Program
 from .utils import TealishMap, find_outside_strings, split_comment
 from .types import _structs
@@ -73,6 +72,18 @@ class OneLineTealWriter:
         return "; ".join(self.teal)
 
 
+def find_node(error: Exception) -> Optional[BaseNode]:
+    """Return the innermost node that was being handled when the error was raised"""
+    node = None
+    traceback = error.__traceback__
+    while traceback is not None:
+        frame_self = traceback.tb_frame.f_locals.get("self")
+        if isinstance(frame_self, BaseNode):
+            node = frame_self
+        traceback = traceback.tb_next
+    return node
+
+
 class TealishCompiler:
     def __init__(self, source_lines: List[str]) -> None:
         self.source_lines = source_lines
@@ -119,7 +130,12 @@ class TealishCompiler:
 
     def parse(self) -> None:
         _structs.clear()
-        node = Program.consume(self, None)
+        try:
+            node = Program.consume(self, None)
+        except (CompileError, ParseError):
+            raise
+        except Exception as e:
+            raise ParseError(f"{type(e).__name__}: {e} at line {self.line_no}") from e
         self.nodes.append(node)
         self.structs = dict(_structs)
 
@@ -130,10 +146,10 @@ class TealishCompiler:
         for node in self.nodes:
             try:
                 node.process()
+            except (CompileError, ParseError):
+                raise
             except Exception as e:
-                node = inspect.trace()[-1].frame.f_locals['self']
-                print(node.line_no, node.line)
-                raise e
+                raise CompileError(f"{type(e).__name__}: {e}", node=find_node(e)) from e
         self.processed = True
 
     def compile(self) -> List[str]:
@@ -143,7 +159,12 @@ class TealishCompiler:
             self.process()
         self.writer = TealWriter()
         for node in self.nodes:
-            node.write_teal(self.writer)
+            try:
+                node.write_teal(self.writer)
+            except (CompileError, ParseError):
+                raise
+            except Exception as e:
+                raise CompileError(f"{type(e).__name__}: {e}", node=find_node(e)) from e
         self.source_map = self.writer.source_map
         self.output = self.writer.output
         return self.writer.output
-- 
2.43.0


From ef74ce490a7796347035e43b7c7deae8c0241505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 34/66] fix: keep comments inside structs, inner transactions,
 switches and routers

---
 tealish/nodes.py | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index b75e6ff..e6c99d2 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -741,7 +741,7 @@ class SwitchElse(Node):
 
 
 class Switch(InlineStatement):
-    possible_child_nodes = [SwitchOption, SwitchElse]
+    possible_child_nodes = [SwitchOption, SwitchElse, Comment]
     pattern = r"switch (?P<expression>.*):$"
     expression: GenericExpression
 
@@ -770,7 +770,11 @@ class Switch(InlineStatement):
             if compiler.peek() == "end":
                 compiler.consume_line()
                 break
-            if compiler.peek().startswith("else:"):
+            if compiler.peek().startswith("#"):
+                switch.add_child(
+                    Comment(compiler.consume_line(), switch, compiler=compiler)
+                )
+            elif compiler.peek().startswith("else:"):
                 switch.add_else(
                     SwitchElse(compiler.consume_line(), switch, compiler=compiler)
                 )
@@ -841,7 +845,7 @@ class Route(Node):
 
 
 class Router(InlineStatement):
-    possible_child_nodes = [Route]
+    possible_child_nodes = [Route, Comment]
     pattern = r"router:$"
 
     def __init__(
@@ -864,6 +868,11 @@ class Router(InlineStatement):
             if compiler.peek() == "end":
                 compiler.consume_line()
                 break
+            if compiler.peek().startswith("#"):
+                router.add_child(
+                    Comment(compiler.consume_line(), router, compiler=compiler)
+                )
+                continue
             router.add_route(Route(compiler.consume_line(), router, compiler=compiler))
         return router
 
@@ -980,7 +989,7 @@ class InnerTxnFieldSetter(InlineStatement):
 
 
 class InnerTxn(InlineStatement):
-    possible_child_nodes = [InnerTxnFieldSetter]
+    possible_child_nodes = [InnerTxnFieldSetter, Comment]
     pattern = r"inner_txn:$"
 
     def __init__(
@@ -1001,7 +1010,9 @@ class InnerTxn(InlineStatement):
                 compiler.consume_line()
                 break
             elif compiler.peek().startswith("#"):
-                compiler.consume_line()
+                node.add_child(
+                    Comment(compiler.consume_line(), node, compiler=compiler)
+                )
             else:
                 node.add_child(
                     InnerTxnFieldSetter(
@@ -1020,6 +1031,8 @@ class InnerTxn(InlineStatement):
 
         self.array_fields: Dict[str, List[InnerTxnFieldSetter]] = defaultdict(list)
         for node in self.child_nodes:
+            if isinstance(node, Comment):
+                continue
             node = cast(InnerTxnFieldSetter, node)
             if node.index is not None:
                 index = int(node.index)
@@ -1067,7 +1080,7 @@ class InnerTxn(InlineStatement):
     def _tealish(self) -> str:
         output = "inner_txn:\n"
         for n in self.child_nodes:
-            output += indent(n.tealish()) + "\n"
+            output += indent(n.tealish().rstrip("\n")) + "\n"
         output += "end\n"
         return output
 
@@ -1846,7 +1859,7 @@ class StructDefinition(InlineStatement):
     end
     """
 
-    possible_child_nodes = [StructFieldDefinition]
+    possible_child_nodes = [StructFieldDefinition, Comment]
     pattern = r"struct (?P<name>[A-Z][a-zA-Z_0-9]*):$"
     name: str
     struct: StructType
@@ -1867,7 +1880,9 @@ class StructDefinition(InlineStatement):
                 compiler.consume_line()
                 break
             elif compiler.peek().startswith("#"):
-                compiler.consume_line()
+                node.add_child(
+                    Comment(compiler.consume_line(), node, compiler=compiler)
+                )
             else:
                 node.add_child(
                     StructFieldDefinition(
@@ -1877,6 +1892,8 @@ class StructDefinition(InlineStatement):
 
         node.struct = StructType(node.name)
         for field in node.child_nodes:
+            if isinstance(field, Comment):
+                continue
             field_node = cast(StructFieldDefinition, field)
             node.struct.add_field(
                 field_node.field_name, get_type_instance(field_node.data_type)
@@ -1895,7 +1912,7 @@ class StructDefinition(InlineStatement):
     def _tealish(self) -> str:
         output = f"struct {self.name}:\n"
         for n in self.child_nodes:
-            output += indent(n.tealish()) + "\n"
+            output += indent(n.tealish().rstrip("\n")) + "\n"
         output += "end\n"
         return output
 
-- 
2.43.0


From 8364a59bfc52df69d5df1c33650a88653344f3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 35/66] fix: give each router its own labels

---
 tealish/__init__.py | 1 +
 tealish/nodes.py    | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 166f0c3..e63964e 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -94,6 +94,7 @@ class TealishCompiler:
         self.line_no = 0
         self.nodes: List[Node] = []
         self.conditional_count = 0
+        self.router_count = 0
         self.error_messages: Dict[int, str] = {}
         self.max_slot = 0
         self.writer = TealWriter()
diff --git a/tealish/nodes.py b/tealish/nodes.py
index e6c99d2..1393aca 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -817,7 +817,7 @@ class Route(Node):
 
     @property
     def label(self):
-        return f"route_{self.name}"
+        return f"{self.parent.label_prefix}{self.name}"
 
     def process(self) -> None:
         self.arg_expressions = []
@@ -856,6 +856,9 @@ class Router(InlineStatement):
     ) -> None:
         super().__init__(line, parent, compiler)
         self.routes: List[Route] = []
+        # the labels of each router of a program must be distinct
+        self.label_prefix = f"route{compiler.router_count or ''}_"
+        compiler.router_count += 1
 
     def add_route(self, node: Route) -> None:
         self.routes.append(node)
-- 
2.43.0


From 79a965e007f4f162bbb786c4eff364f6c8fd20e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 36/66] fix: do not split return values at commas after escaped
 quotes

---
 tealish/nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 1393aca..f7b80dd 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -2076,7 +2076,11 @@ class BoxDeclaration(LineStatement):
 def split_return_args(s):
     parentheses = 0
     quotes = False
+    escaped = False
     for i in range(len(s)):
+        if escaped or (quotes and s[i] == "\\"):
+            escaped = not escaped
+            continue
         if s[i] == '"':
             quotes = not quotes
         if not quotes:
-- 
2.43.0


From a36f32878839c00410c46d12fb0f00c7a50bfdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 37/66] fix: end byte strings at the first unescaped quote

---
 tealish/expression_nodes.py    | 4 +++-
 tealish/tealish_expressions.tx | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 17b0071..cd39782 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -43,7 +43,9 @@ class Integer(BaseNode):
 class Bytes(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
         # value is kept as it must be written in TEAL and Tealish source
-        self.value = value.replace('"', r"\"")
+        self.value = re.sub(
+            r'\\.|"', lambda m: r"\"" if m[0] == '"' else m[0], value
+        )
         self.type = BytesType(size=string_literal_size(self.value))
         self.parent = parent
 
diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index a639eb7..4239b24 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -44,4 +44,5 @@ NegativeGroupIndex: '-' index=INT;
 PositiveGroupIndex: '+' index=INT;
 HexBytes: value=/0x([a-fA-F0-9]+)/;
 Integer: value=/[0-9_]+/;
-Bytes: value=STRING | HexBytes;
+ByteString: /"((?:\\.|[^"\\])*)"/;
+Bytes: value=ByteString | value=STRING | HexBytes;
-- 
2.43.0


From a0ff4b677b64f9021945c7c0b9932a5af1532d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 38/66] fix: accept the bitwise and operator

---
 tealish/tealish_expressions.tx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 4239b24..cd4bb83 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -7,7 +7,7 @@ BinaryOp: a=Value op=BinaryOperator b=Value;
 BinaryOperator: '+' | '-' | '*' | '/' | '%'
     | '==' | '>=' | '<=' | '>' | '<' | '!='
     | '&&' | '||'
-    | '|' | '%' | '^'
+    | '|' | '&' | '^'
     | 'b+' | 'b-' | 'b/' | 'b*' | 'b%'
     | 'b==' | 'b!=' | 'b>=' | 'b<=' | 'b>' | 'b<'
     | 'b|' | 'b&' | 'b^';
-- 
2.43.0


From a009a255825021d33fd0d45e6dcfa26cb9e5a396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:48 +0000
Subject: [PATCH 39/66] fix: access struct fields beyond the first 255 bytes

---
 tealish/expression_nodes.py | 14 ++++++++++----
 tealish/nodes.py            |  9 ++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index cd39782..bb3dcee 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -622,10 +622,16 @@ class StructOrBoxField(BaseNode):
     def write_teal(self, writer: "TealWriter") -> None:
         teal = ""
         if isinstance(self.object_type, StructType):
-            teal = [
-                f"load {self.var.scratch_slot}",
-                f"extract {self.offset} {self.size}",
-            ]
+            teal = [f"load {self.var.scratch_slot}"]
+            if self.offset < 256 and self.size < 256:
+                teal.append(f"extract {self.offset} {self.size}")
+            else:
+                # too big for immediate arguments
+                teal += [
+                    f"pushint {self.offset}",
+                    f"pushint {self.size}",
+                    "extract3",
+                ]
         elif isinstance(self.object_type, BoxType):
             teal = [
                 f"load {self.var.scratch_slot}",
diff --git a/tealish/nodes.py b/tealish/nodes.py
index f7b80dd..2ed9b31 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1976,10 +1976,13 @@ class StructOrBoxAssignment(LineStatement):
                         f"extract {8 - self.data_type.size} {self.data_type.size}"
                     )
             # struct setter one liner
+            teal += [f"load {self.var.scratch_slot}", "swap"]
+            if self.offset < 256:
+                teal.append(f"replace {self.offset}")
+            else:
+                # too big for an immediate argument
+                teal += [f"pushint {self.offset}", "swap", "replace3"]
             teal += [
-                f"load {self.var.scratch_slot}",
-                "swap",
-                f"replace {self.offset}",
                 f"store {self.var.scratch_slot}",
                 f"// set {self.name.value}.{self.field_name}",
             ]
-- 
2.43.0


From 7d7fe0bbf20700e62569fd25ec0ffd32990d2c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:58 +0000
Subject: [PATCH 40/66] fix: reject programs that need more than 256 scratch
 slots

---
 tealish/scope.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tealish/scope.py b/tealish/scope.py
index 3220150..4c7a214 100644
--- a/tealish/scope.py
+++ b/tealish/scope.py
@@ -48,6 +48,8 @@ class Scope:
         var = Var(name, type)
         var.slot_type = "scratch"
         var.scratch_slot = max_slot if max_slot is not None else self.find_slot()
+        if var.scratch_slot > 255:
+            raise Exception("No available slots!")
         self.slots[var.name] = var
         return var
 
-- 
2.43.0


From f8050e2e185deb709a933a954b74ddd8a52bc24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 41/66] fix: keep string arguments out of the message of an
 assert

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 2ed9b31..938c531 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -526,7 +526,7 @@ class FunctionCallStatement(LineStatement):
 
 
 class Assert(LineStatement):
-    pattern = r'assert\((?P<arg>.*?)(, "(?P<message>.*?)")?\)$'
+    pattern = r'assert\((?P<arg>.*?)(, "(?P<message>(?:\\.|[^"\\])*)")?\)$'
     arg: GenericExpression
     message: str
 
-- 
2.43.0


From 3852da6c9e833e70e72238cbaf22701e855d329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 42/66] fix: reject opcode calls without all their immediate
 args

---
 tealish/expression_nodes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index bb3dcee..6a522ff 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -293,6 +293,11 @@ class OpCall(BaseNode):
         num_args = len(op.args)
 
         self.args = self.args[op.immediate_args_num :]
+        if len(immediates) < op.immediate_args_num:
+            raise CompileError(
+                f"Expected {op.immediate_args_num} immediate args for {op.name}!",
+                node=self,
+            )
         if len(self.args) != num_args:
             raise CompileError(f"Expected {num_args} args for {op.name}!", node=self)
         for i, arg in enumerate(self.args):
-- 
2.43.0


From 05c4e0d2440924db3d8cd9e710b3be3600aeb382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:32 +0000
Subject: [PATCH 43/66] fix: only accept expressions with a single value where
 one is needed

---
 tealish/base.py             | 9 +++++++++
 tealish/expression_nodes.py | 5 +++++
 tealish/nodes.py            | 8 ++++++++
 tealish/stdlib.py           | 3 +++
 4 files changed, 25 insertions(+)

diff --git a/tealish/base.py b/tealish/base.py
index b58a358..6d0bf9e 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -140,6 +140,15 @@ class BaseNode:
         except Exception as e:
             raise CompileError(str(e), node=self)  # type: ignore
 
+    def check_single_value(self, expression: "BaseNode") -> None:
+        """The expression is used where exactly one value is needed"""
+        type = expression.type  # type: ignore
+        if not type or isinstance(type, list):
+            raise CompileError(
+                f"Expected an expression with a single value, got {type or 'none'}",
+                node=self,  # type: ignore
+            )
+
     def get_field_type(self, namespace: str, name: str) -> TealishType:
         return lang_spec.get_field_type(namespace, name)
 
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 6a522ff..4c302a0 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -421,6 +421,7 @@ class TxnArrayField(BaseNode):
         if not isinstance(self.arrayIndex, Integer):
             # index is an expression that needs to be evaluated
             self.arrayIndex.process()
+            self.check_single_value(self.arrayIndex)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.arrayIndex, Integer):
@@ -448,6 +449,7 @@ class GroupTxnField(BaseNode):
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
             self.index.process()
+            self.check_single_value(self.index)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if isinstance(self.index, Integer):
@@ -484,8 +486,10 @@ class GroupTxnArrayField(BaseNode):
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
             self.index.process()
+            self.check_single_value(self.index)
         if not isinstance(self.arrayIndex, Integer):
             self.arrayIndex.process()
+            self.check_single_value(self.arrayIndex)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.index, Integer):
@@ -595,6 +599,7 @@ class InnerTxnArrayField(BaseNode):
         if not isinstance(self.arrayIndex, Integer):
             # index is an expression that needs to be evaluated
             self.arrayIndex.process()
+            self.check_single_value(self.arrayIndex)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.arrayIndex, Integer):
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 938c531..7433d48 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -493,6 +493,7 @@ class Exit(LineStatement):
 
     def process(self) -> None:
         self.expression.process()
+        self.check_single_value(self.expression)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -786,8 +787,10 @@ class Switch(InlineStatement):
 
     def process(self) -> None:
         self.expression.process()
+        self.check_single_value(self.expression)
         for node in self.options:
             node.expression.process()
+            node.check_single_value(node.expression)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -1056,10 +1059,12 @@ class InnerTxn(InlineStatement):
                     )
             else:
                 node.expression.process()
+                node.check_single_value(node.expression)
 
         for a in self.array_fields.values():
             for node in a:
                 node.expression.process()
+                node.check_single_value(node.expression)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -1194,6 +1199,7 @@ class Elif(Node):
 
     def process(self) -> None:
         self.condition.process()
+        self.check_single_value(self.condition)
         for n in self.child_nodes:
             n.process()
 
@@ -1350,6 +1356,7 @@ class IfStatement(InlineStatement):
             self.child_nodes[-1].next_label = self.end_label
 
         self.condition.process()
+        self.check_single_value(self.condition)
 
         if self.if_then is not None:
             self.if_then.process()
@@ -1455,6 +1462,7 @@ class WhileStatement(InlineStatement):
 
     def process(self) -> None:
         self.condition.process()
+        self.check_single_value(self.condition)
         for n in self.child_nodes:
             n.process()
 
diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index d1d88a3..c053619 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -72,6 +72,7 @@ class Bzero(FunctionCall):
     def process(self) -> None:
         arg = self.args[0]
         arg.process()
+        self.check_single_value(arg)
         # Integer literals and some other functions set value to a constant at compile time
         if hasattr(arg, "value"):
             self.type = BytesType(arg.value)
@@ -468,6 +469,7 @@ class Concat(FunctionCall):
     def process(self) -> None:
         for arg in self.args:
             arg.process()
+            self.check_single_value(arg)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -498,6 +500,7 @@ class ARC28Event(FunctionCall):
         self.prefix = SHA512.new(self.signature.encode(), truncate="256").hexdigest()[:8]  # 4 bytes, 8 chars of hex
         for arg in self.args[1:]:
             arg.process()
+            self.check_single_value(arg)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From 47132d117a77e30df7b5a641d84ab2b6629f78ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:05 +0000
Subject: [PATCH 44/66] fix: check the number of arguments of library functions

---
 tealish/stdlib.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index c053619..e941696 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -28,6 +28,16 @@ class FunctionCall(BaseNode):
         for arg in self.args:
             arg.process()
 
+    def check_num_args(self, num_args: int) -> None:
+        if len(self.args) != num_args:
+            raise CompileError(f"Expected {num_args} args for {self.name}!", node=self)
+
+    def check_min_args(self, num_args: int) -> None:
+        if len(self.args) < num_args:
+            raise CompileError(
+                f"Expected at least {num_args} args for {self.name}!", node=self
+            )
+
     def _tealish(self) -> str:
         args = [a.tealish() for a in self.args]
         return f"{self.name}({', '.join(args)})"
@@ -42,6 +52,7 @@ class Pop(FunctionCall):
     name = "pop"
 
     def process(self) -> None:
+        self.check_num_args(0)
         self.type = AnyType()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -70,6 +81,7 @@ class Bzero(FunctionCall):
     name = "bzero"
 
     def process(self) -> None:
+        self.check_num_args(1)
         arg = self.args[0]
         arg.process()
         self.check_single_value(arg)
@@ -95,6 +107,7 @@ class Convert(FunctionCall):
     name = "Convert"
 
     def process(self) -> None:
+        self.check_num_args(2)
         self.type = get_type_instance(self.args[1].name)
         self.args[0].process()
         self.expression = self.args[0]
@@ -133,6 +146,7 @@ class Cast(FunctionCall):
     name = "Cast"
 
     def process(self) -> None:
+        self.check_num_args(2)
         self.type = get_type_instance(self.args[1].name)
         self.args[0].process()
         self.expression = self.args[0]
@@ -163,6 +177,7 @@ class ToBytes(FunctionCall):
     name = "ToBytes"
 
     def process(self) -> None:
+        self.check_num_args(2)
         self.args[0].process()
         self.expression = self.args[0]
         size = self.args[1].value
@@ -192,6 +207,7 @@ class FromBytes(FunctionCall):
     name = "FromBytes"
 
     def process(self) -> None:
+        self.check_num_args(2)
         self.args[0].process()
         self.expression = self.args[0]
         to_type = get_type_instance(self.args[1].name)
@@ -358,6 +374,7 @@ class EnsureType(FunctionCall):
     name = "EnsureType"
 
     def process(self) -> None:
+        self.check_min_args(2)
         types = [get_type_instance(a.name) for a in self.args[1:]]
         self.args[0].process()
         self.expression = TypeAssertionWrapper(self.args[0], types, return_val=True)
@@ -371,6 +388,7 @@ class UncheckedCast(FunctionCall):
     name = "UncheckedCast"
 
     def process(self) -> None:
+        self.check_min_args(2)
         if len(self.args) == 2:
             self.type = get_type_instance(self.args[1].name)
         else:
@@ -384,6 +402,9 @@ class UncheckedCast(FunctionCall):
 class Error(FunctionCall):
     name = "Error"
 
+    def process(self) -> None:
+        self.check_num_args(0)
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, "err")
 
@@ -392,6 +413,7 @@ class SizeOf(FunctionCall):
     name = "SizeOf"
 
     def process(self):
+        self.check_num_args(1)
         type = get_type_instance(self.args[0].name)
         self.value = type.size
         self.type = IntType()
@@ -404,6 +426,7 @@ class Rpad(FunctionCall):
     name = "Rpad"
 
     def process(self) -> None:
+        self.check_num_args(2)
         self.args[0].process()
         self.expression = self.args[0]
         self.size = self.args[1].value
@@ -435,6 +458,7 @@ class Lpad(FunctionCall):
     name = "Lpad"
 
     def process(self) -> None:
+        self.check_num_args(2)
         self.args[0].process()
         self.expression = self.args[0]
         self.size = self.args[1].value
@@ -467,6 +491,7 @@ class Concat(FunctionCall):
     name = "Concat"
 
     def process(self) -> None:
+        self.check_min_args(1)
         for arg in self.args:
             arg.process()
             self.check_single_value(arg)
@@ -483,6 +508,7 @@ class Address(FunctionCall):
     name = "Address"
 
     def process(self) -> None:
+        self.check_num_args(1)
         for arg in self.args:
             arg.process()
         self.type = BytesType()
@@ -496,6 +522,7 @@ class ARC28Event(FunctionCall):
     name = "ARC28Event"
 
     def process(self) -> None:
+        self.check_min_args(1)
         self.signature = self.args[0].value
         self.prefix = SHA512.new(self.signature.encode(), truncate="256").hexdigest()[:8]  # 4 bytes, 8 chars of hex
         for arg in self.args[1:]:
-- 
2.43.0


From b23c77fb5dcc00e87ea3112ca85b0d859459194f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 45/66] fix: require one type for each value in type assertions
 and unchecked casts

---
 tealish/stdlib.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index e941696..c22edc7 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -38,6 +38,14 @@ class FunctionCall(BaseNode):
                 f"Expected at least {num_args} args for {self.name}!", node=self
             )
 
+    def check_num_values(self, expression: "BaseNode", num_values: int) -> None:
+        types = expression.type if isinstance(expression.type, list) else [expression.type]
+        if not all(types) or len(types) != num_values:
+            raise CompileError(
+                f"Incorrect number of types ({num_values}) for values in {self.name}",
+                node=self,
+            )
+
     def _tealish(self) -> str:
         args = [a.tealish() for a in self.args]
         return f"{self.name}({', '.join(args)})"
@@ -377,6 +385,7 @@ class EnsureType(FunctionCall):
         self.check_min_args(2)
         types = [get_type_instance(a.name) for a in self.args[1:]]
         self.args[0].process()
+        self.check_num_values(self.args[0], len(types))
         self.expression = TypeAssertionWrapper(self.args[0], types, return_val=True)
         self.type = types[0] if len(types) == 1 else types
 
@@ -394,6 +403,7 @@ class UncheckedCast(FunctionCall):
         else:
             self.type = [get_type_instance(arg.name) for arg in self.args[1:]]
         self.args[0].process()
+        self.check_num_values(self.args[0], len(self.args) - 1)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, self.args[0])
-- 
2.43.0


From d4110342eef3434889e1072869999b218def5f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 46/66] fix: assert the size of a value of another kind in
 EnsureType

---
 tealish/stdlib.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index c22edc7..2785d61 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -256,7 +256,10 @@ class TypeAssertionWrapper(BaseNode):
             if (
                 isinstance(type, BytesType)
                 and type.size
-                and type.size != self.incoming_types[i].size
+                and not (
+                    isinstance(self.incoming_types[i], BytesType)
+                    and type.size == self.incoming_types[i].size
+                )
             ):
                 if self.dup:
                     # If this has a return type duplicate the value so there is something left to return
@@ -268,7 +271,11 @@ class TypeAssertionWrapper(BaseNode):
                 writer.write(self, "==")
                 writer.write(self, "assert // Error: Incorrect size for assignment")
             elif (
-                isinstance(type, UIntType) and type.size != self.incoming_types[i].size
+                isinstance(type, UIntType)
+                and not (
+                    isinstance(self.incoming_types[i], IntType)
+                    and type.size == self.incoming_types[i].size
+                )
             ):
                 if self.type:
                     # If this has a return type duplicate the value so there is something left to return
-- 
2.43.0


From eb2556b96fd0e9583be460345e5a9ff85e72dc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 47/66] fix: map the values of a return statement to its own
 line

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 7433d48..41a8b0f 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1733,7 +1733,7 @@ class Return(LineStatement):
             args = split_return_args(self.args)
             for a in args:
                 arg = a.strip()
-                node = GenericExpression.parse(arg, parent, compiler)
+                node = GenericExpression.parse(arg, self, compiler)
                 self.args_expressions.append(node)
         if len(self.args_expressions) != len(self.func.returns):
             raise ParseError(f"Incorrect number of returns. Line {self.line_no}")
-- 
2.43.0


From 49c580bf42673a1a78da2a6316dd80cbe28171bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 48/66] fix: keep the written return types of functions when
 formatting

---
 tealish/nodes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 41a8b0f..135e7eb 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1701,9 +1701,8 @@ class Func(InlineStatement):
         writer.level -= 1
 
     def _tealish(self) -> str:
-        returns = (
-            (" " + (", ".join(str(r) for r in self.returns))) if self.returns else ""
-        )
+        return_types = list(filter(None, self.return_type.split(",")))
+        returns = (" " + ", ".join(return_types)) if return_types else ""
         output = f"func {self.name}({self.args.tealish()}){returns}:\n"
         for n in self.child_nodes:
             output += indent(n.tealish())
-- 
2.43.0


From 6be958605598bb3ed46eb4759d8bc38209f1b955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 49/66] fix: write the value of integer constants with leading
 zeros

---
 tealish/nodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 135e7eb..b0ca8dd 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -463,7 +463,11 @@ class Const(LineStatement):
         scope.declare_const(self.name, (self.literal.type(), self.literal.value))
 
     def write_teal(self, writer: "TealWriter") -> None:
-        writer.write(self, f"#define {self.name} {self.literal.value}")
+        value = self.literal.value
+        if isinstance(self.literal, LiteralInt):
+            # an integer with leading zeros is octal in TEAL
+            value = int(value)
+        writer.write(self, f"#define {self.name} {value}")
 
     def _tealish(self) -> str:
         s = f"const {self.tealish_type} {self.name}"
-- 
2.43.0


From 5cf578a70eac6862061080f49b9347d8db94bf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:50 +0000
Subject: [PATCH 50/66] fix: reject unknown inner transaction fields

---
 tealish/nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index b0ca8dd..681d505 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1044,6 +1044,10 @@ class InnerTxn(InlineStatement):
             if isinstance(node, Comment):
                 continue
             node = cast(InnerTxnFieldSetter, node)
+            if node.field_name not in self.lookup_op("itxn_field").arg_enum_dict:
+                raise CompileError(
+                    f'Unknown inner transaction field "{node.field_name}"', node=node
+                )
             if node.index is not None:
                 index = int(node.index)
                 n = len(self.array_fields[node.field_name])
-- 
2.43.0


From 3db7cd0cc677879f8097292e35dfc0e3e3636ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 51/66] fix: do not split lines at form feeds when formatting

---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 681d505..e5a6d74 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1,5 +1,4 @@
 import re
-import textwrap
 from typing import (
     get_type_hints,
     List,
@@ -2112,7 +2111,8 @@ def split_return_args(s):
 
 
 def indent(s: str) -> str:
-    return textwrap.indent(s, "    ")
+    # only line breaks separate lines, form feeds and the like are part of a line
+    return "\n".join("    " + l if l.strip() else l for l in s.split("\n"))
 
 
 def process_functions_last(nodes) -> None:
-- 
2.43.0


From 6590fdbc503bfa98b83c83a33291e6057a9e3ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 52/66] fix: reject calls of opcodes with a variable number of
 immediate args

---
 tealish/expression_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 4c302a0..3e6f30b 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -293,6 +293,10 @@ class OpCall(BaseNode):
         num_args = len(op.args)
 
         self.args = self.args[op.immediate_args_num :]
+        if op.immediate_args_num < 0:
+            raise CompileError(
+                f"{op.name} takes a variable number of immediate args!", node=self
+            )
         if len(immediates) < op.immediate_args_num:
             raise CompileError(
                 f"Expected {op.immediate_args_num} immediate args for {op.name}!",
-- 
2.43.0


From 503e2c35c6181e7a25e8f9fafb793ad64b1c1976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:34 +0000
Subject: [PATCH 53/66] fix: check the argument of bzero and size it by the
 value of a constant

---
 tealish/stdlib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 2785d61..c9c1fd3 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -94,8 +94,10 @@ class Bzero(FunctionCall):
         arg.process()
         self.check_single_value(arg)
         # Integer literals and some other functions set value to a constant at compile time
-        if hasattr(arg, "value"):
-            self.type = BytesType(arg.value)
+        self.check_arg_types("bzero", [arg])
+        if getattr(arg, "value", None) is not None:
+            # the value of a user defined const is text
+            self.type = BytesType(int(arg.value))
         else:
             self.type = BytesType()
 
-- 
2.43.0


From 57ab147588c370679ee6a360432a6295642c7c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:43 +0000
Subject: [PATCH 54/66] fix: only accept integer literals as sizes

---
 tealish/stdlib.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index c9c1fd3..e3c80fc 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -38,6 +38,13 @@ class FunctionCall(BaseNode):
                 f"Expected at least {num_args} args for {self.name}!", node=self
             )
 
+    def literal_size(self, expression: "BaseNode") -> int:
+        if not isinstance(expression, Integer):
+            raise CompileError(
+                f"Expected an integer literal as size for {self.name}!", node=self
+            )
+        return expression.value
+
     def check_num_values(self, expression: "BaseNode", num_values: int) -> None:
         types = expression.type if isinstance(expression.type, list) else [expression.type]
         if not all(types) or len(types) != num_values:
@@ -190,7 +197,7 @@ class ToBytes(FunctionCall):
         self.check_num_args(2)
         self.args[0].process()
         self.expression = self.args[0]
-        size = self.args[1].value
+        size = self.literal_size(self.args[1])
         self.type = BytesType(size)
         if not isinstance(self.expression.type, (IntType, BigIntType)):
             raise CompileError(
@@ -448,7 +455,7 @@ class Rpad(FunctionCall):
         self.check_num_args(2)
         self.args[0].process()
         self.expression = self.args[0]
-        self.size = self.args[1].value
+        self.size = self.literal_size(self.args[1])
         self.type = BytesType(self.size)
 
         if not isinstance(self.expression.type, (BytesType,)):
@@ -480,7 +487,7 @@ class Lpad(FunctionCall):
         self.check_num_args(2)
         self.args[0].process()
         self.expression = self.args[0]
-        self.size = self.args[1].value
+        self.size = self.literal_size(self.args[1])
         self.type = BytesType(self.size)
 
         if not isinstance(self.expression.type, (BytesType,)):
-- 
2.43.0


From dc3c6e9a8f15a40ee3a7f5f03f806385517c6249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 55/66] fix: reject a second else in a switch instead of
 dropping the first

---
 tealish/nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index e5a6d74..a241342 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -764,6 +764,10 @@ class Switch(InlineStatement):
         self.add_child(node)
 
     def add_else(self, node: SwitchElse) -> None:
+        if self.else_ is not None:
+            raise ParseError(
+                f"Unexpected second else in switch at line {node.line_no}"
+            )
         self.else_ = node
         self.add_child(node)
 
-- 
2.43.0


From e9e92ccf57af98921d9c2ec020b8ce0805cfdecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:19 +0000
Subject: [PATCH 56/66] fix: reject definitions of functions and blocks inside
 other statements, where execution runs into them

---
 tealish/nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index a241342..d79e874 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1105,7 +1105,7 @@ class InnerTxn(InlineStatement):
 
 
 class InnerGroup(InlineStatement):
-    possible_child_nodes = [Statement]
+    possible_child_nodes = [InlineStatement]
     pattern = r"inner_group:$"
 
     def __init__(self, line: str, parent: Node, compiler: "TealishCompiler") -> None:
@@ -1644,7 +1644,7 @@ class ArgsList(Expression):
         return output
 
 
-class Func(InlineStatement):
+class Func(Statement):
     possible_child_nodes = [InlineStatement]
     pattern = r"func (?P<name>[a-zA-Z_0-9]+)\((?P<args>.*)\)(?P<return_type>.*):$"
     name: str
@@ -1788,7 +1788,7 @@ class Decorator(Node):
         return output
 
 
-class DecoratedFunc(InlineStatement):
+class DecoratedFunc(Statement):
     possible_child_nodes = [Decorator, Comment, Func]
     pattern = r""
 
-- 
2.43.0


From 4be897090dfad8233bf96ad00d8fd43934861fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 57/66] fix: give a rejected program the same error when it is
 compiled again

---
 tealish/__init__.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index e63964e..d2b4b69 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -98,6 +98,7 @@ class TealishCompiler:
         self.error_messages: Dict[int, str] = {}
         self.max_slot = 0
         self.writer = TealWriter()
+        self.process_started = False
         self.processed = False
         self.line_nodes = {}
         self.use_inner_txns_macro = None
@@ -130,6 +131,17 @@ class TealishCompiler:
             self.current_output_line += 1
 
     def parse(self) -> None:
+        # start anew, whatever an earlier attempt left behind
+        self.line_no = 0
+        self.nodes = []
+        self.conditional_count = 0
+        self.router_count = 0
+        self.error_messages = {}
+        self.max_slot = 0
+        self.process_started = False
+        self.processed = False
+        self.line_nodes = {}
+        self.use_inner_txns_macro = None
         _structs.clear()
         try:
             node = Program.consume(self, None)
@@ -141,6 +153,10 @@ class TealishCompiler:
         self.structs = dict(_structs)
 
     def process(self) -> None:
+        if self.process_started:
+            # nodes can only be processed once
+            self.parse()
+        self.process_started = True
         # other programs may have been parsed since this one was
         _structs.clear()
         _structs.update(self.structs)
-- 
2.43.0


From 49e76466256566097890af8a712b56d0246142ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:15 +0000
Subject: [PATCH 58/66] fix: reject constants whose text is not one string
 literal

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index d79e874..709a755 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -32,7 +32,7 @@ from .types import (
 from .scope import Scope
 
 LITERAL_INT = r"[0-9]+"
-LITERAL_BYTE_STRING = r'"(.+)"'
+LITERAL_BYTE_STRING = r'"((?:\\.|[^"\\])+)"'
 LITERAL_BYTE_HEX = r"0x([a-fA-F0-9]+)"
 VARIABLE_NAME = r"[a-z_][a-zA-Z0-9_]*"
 
-- 
2.43.0


From a2f3f04d60b9e0f133ee99028fd7bec8c8d4342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:15 +0000
Subject: [PATCH 59/66] fix: reject string literals whose last quote is escaped

---
 tealish/tealish_expressions.tx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index cd4bb83..affa7d4 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -45,4 +45,4 @@ PositiveGroupIndex: '+' index=INT;
 HexBytes: value=/0x([a-fA-F0-9]+)/;
 Integer: value=/[0-9_]+/;
 ByteString: /"((?:\\.|[^"\\])*)"/;
-Bytes: value=ByteString | value=STRING | HexBytes;
+Bytes: value=ByteString | !'"' value=STRING | HexBytes;
-- 
2.43.0


From e5df7c7a9c942f8ac2c633fd8bf9d6c7225b3229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:15 +0000
Subject: [PATCH 60/66] fix: reject names that are no fields of the opcode as
 its immediates

---
 tealish/expression_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 3e6f30b..6287756 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -312,6 +312,10 @@ class OpCall(BaseNode):
             if isinstance(x, Constant):
                 immediates[i] = x.name
             elif isinstance(x, Enum):
+                if op.arg_enum and x.name not in op.arg_enum:
+                    raise CompileError(
+                        f'Unknown field "{x.name}" for {op.name}', node=self
+                    )
                 immediates[i] = x.name
             elif hasattr(x, "value") and isinstance(x.type, IntType):
                 immediates[i] = x.value
-- 
2.43.0


From ea3620cd3190f576d4be80a0a55e3c4e377c507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:34 +0000
Subject: [PATCH 61/66] fix: define constants again that a function or block
 has hidden

---
 tealish/nodes.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 709a755..a185c42 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -15,7 +15,7 @@ from .base import BaseNode
 from .errors import CompileError, ParseError
 from .expression_nodes import string_literal_size
 from .tx_expressions import parse_expression
-from .tealish_builtins import Var, constants
+from .tealish_builtins import ConstValue, Var, constants
 from .types import (
     AVMType,
     AnyType,
@@ -132,6 +132,13 @@ class Node(BaseNode):
         parent_scope = self.parent.get_current_scope() if self.parent else None
         self.current_scope = Scope(name, parent_scope, slot_range)
 
+    def restore_consts(self, writer: "TealWriter") -> None:
+        """Define the constants again that the scope of this node has hidden, definitions in TEAL have no scope"""
+        consts = self.current_scope.consts
+        for name, (type, value) in self.parent.get_scope().consts.items():
+            if name in consts and consts[name][1] != value:
+                writer.write(self, define_const(name, type, value))
+
     def __repr__(self) -> str:
         name = self.__class__.__name__
         return name
@@ -439,6 +446,13 @@ class Blank(LineStatement):
         return "\n"
 
 
+def define_const(name: str, type: TealishType, value: ConstValue) -> str:
+    if isinstance(type, IntType):
+        # an integer with leading zeros is octal in TEAL
+        value = int(value)
+    return f"#define {name} {value}"
+
+
 class Const(LineStatement):
     pattern = (
         r"const (?P<tealish_type>\bint\b|\bbytes\b|\bbigint|addr\b) "
@@ -462,11 +476,8 @@ class Const(LineStatement):
         scope.declare_const(self.name, (self.literal.type(), self.literal.value))
 
     def write_teal(self, writer: "TealWriter") -> None:
-        value = self.literal.value
-        if isinstance(self.literal, LiteralInt):
-            # an integer with leading zeros is octal in TEAL
-            value = int(value)
-        writer.write(self, f"#define {self.name} {value}")
+        type, value = self.literal.type(), self.literal.value
+        writer.write(self, define_const(self.name, type, value))
 
     def _tealish(self) -> str:
         s = f"const {self.tealish_type} {self.name}"
@@ -715,6 +726,7 @@ class Block(Statement):
         writer.level += 1
         for n in self.child_nodes:
             n.write_teal(writer)
+        self.restore_consts(writer)
         writer.level -= 1
 
     def _tealish(self) -> str:
@@ -1709,6 +1721,7 @@ class Func(Statement):
             )
         for node in self.child_nodes:
             node.write_teal(writer)
+        self.restore_consts(writer)
         writer.level -= 1
 
     def _tealish(self) -> str:
-- 
2.43.0


From 9219638ee6862f29a617bd8a081daa97832face7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 62/66] fix: reject a function listed twice in a router, its
 label would be defined twice

---
 tealish/nodes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index a185c42..05e7c69 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -883,6 +883,11 @@ class Router(InlineStatement):
         compiler.router_count += 1
 
     def add_route(self, node: Route) -> None:
+        # the label of a route is made of its name
+        if node.name in [r.name for r in self.routes]:
+            raise ParseError(
+                f'Duplicate route "{node.name}" in router at line {node.line_no}!'
+            )
         self.routes.append(node)
         self.add_child(node)
 
-- 
2.43.0


From 1703780b9625d9c5adca34aa0af6d18e885fed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:03 +0000
Subject: [PATCH 63/66] fix: reject a call without a constant value as an
 immediate argument

---
 tealish/expression_nodes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 6287756..2cc08e7 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -309,6 +309,7 @@ class OpCall(BaseNode):
         self.check_arg_types(self.name, self.args)
         for i, x in enumerate(immediates):
             x.process()
+            value = getattr(x, "value", None)
             if isinstance(x, Constant):
                 immediates[i] = x.name
             elif isinstance(x, Enum):
@@ -317,10 +318,10 @@ class OpCall(BaseNode):
                         f'Unknown field "{x.name}" for {op.name}', node=self
                     )
                 immediates[i] = x.name
-            elif hasattr(x, "value") and isinstance(x.type, IntType):
-                immediates[i] = x.value
-            elif hasattr(x, "value") and isinstance(x.type, BytesType):
-                immediates[i] = f'"{x.value}"'
+            elif value is not None and isinstance(x.type, IntType):
+                immediates[i] = value
+            elif value is not None and isinstance(x.type, BytesType):
+                immediates[i] = f'"{value}"'
             else:
                 raise CompileError(
                     f"{x} can not be used as an immediate argument for {op.name}",
-- 
2.43.0


From e90f1f48429fc2f2fa73dadb62c0d36aff4d6669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:03 +0000
Subject: [PATCH 64/66] fix: accept opcodes with more arguments than there are
 letters to name them

---
 tealish/langspec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tealish/langspec.py b/tealish/langspec.py
index 45c0c3c..e3dbd95 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -184,7 +184,10 @@ class Op:
         self.doc_extra = op_def.get("DocExtra", "")
         self.groups = op_def.get("groups", [])
 
-        arg_list = [f"{abc[i]}: {t.name}" for i, t in enumerate(self.arg_types)]
+        arg_list = [
+            f"{abc[i] if i < len(abc) else f'A{i}'}: {t.name}"
+            for i, t in enumerate(self.arg_types)
+        ]
         if len(self.arg_enum) > 0:
             arg_list = ["F: field"] + arg_list
         elif self.immediate_args_num > 0:
-- 
2.43.0


From 6b63a1e5706cbc3db922bbcf4d053f7ec47e43e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:04 +0000
Subject: [PATCH 65/66] fix: formatting keeps variables named not and else
 apart from the keywords

---
 tealish/nodes.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 05e7c69..15adf60 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -743,7 +743,11 @@ class SwitchOption(Node):
     block_name: str
 
     def _tealish(self) -> str:
-        output = f"{self.expression.tealish()}: {self.block_name}\n"
+        expression = self.expression.tealish()
+        if expression == "else":
+            # a variable with this name, "else:" is something else
+            expression += " "
+        output = f"{expression}: {self.block_name}\n"
         return output
 
 
@@ -1243,7 +1247,7 @@ class Elif(Node):
         writer.level -= 1
 
     def _tealish(self) -> str:
-        output = f"elif {'not ' if self.modifier else ''}{self.condition.tealish()}:\n"
+        output = f"elif {condition_text(self)}:\n"
         for n in self.child_nodes:
             output += indent(n.tealish())
         return output
@@ -1429,7 +1433,7 @@ class IfStatement(InlineStatement):
         writer.write(self, f"{self.end_label}:")
 
     def _tealish(self) -> str:
-        output = f"if {'not ' if self.modifier else ''}{self.condition.tealish()}:\n"
+        output = f"if {condition_text(self)}:\n"
         for n in self.child_nodes:
             output += n.tealish()
         output += "end\n"
@@ -1510,7 +1514,7 @@ class WhileStatement(InlineStatement):
         writer.level -= 1
 
     def _tealish(self) -> str:
-        output = f"while {'not ' if self.modifier else ''}{self.condition.tealish()}:\n"
+        output = f"while {condition_text(self)}:\n"
         for n in self.child_nodes:
             output += indent(n.tealish())
         output += "end\n"
@@ -2132,6 +2136,14 @@ def split_return_args(s):
     return [s]
 
 
+def condition_text(node) -> str:
+    condition = node.condition.tealish()
+    if node.modifier:
+        return f"not {condition}"
+    # a second space keeps a variable with the name "not" apart from the modifier
+    return f" {condition}" if condition.startswith("not ") else condition
+
+
 def indent(s: str) -> str:
     # only line breaks separate lines, form feeds and the like are part of a line
     return "\n".join("    " + l if l.strip() else l for l in s.split("\n"))
-- 
2.43.0


From ef4a04c779890c34eb84b391a30a8dea7c735e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:05 +0000
Subject: [PATCH 66/66] fix: a single quoted string does not end in an escaped
 quote

---
 tealish/tealish_expressions.tx | 3 ++-
 tealish/tx_expressions.py      | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index affa7d4..3ba7375 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -45,4 +45,5 @@ PositiveGroupIndex: '+' index=INT;
 HexBytes: value=/0x([a-fA-F0-9]+)/;
 Integer: value=/[0-9_]+/;
 ByteString: /"((?:\\.|[^"\\])*)"/;
-Bytes: value=ByteString | !'"' value=STRING | HexBytes;
+SingleQuotedString: /'((?:\\.|[^'\\])*)'/;
+Bytes: value=ByteString | value=SingleQuotedString | HexBytes;
diff --git a/tealish/tx_expressions.py b/tealish/tx_expressions.py
index 7539604..655d480 100644
--- a/tealish/tx_expressions.py
+++ b/tealish/tx_expressions.py
@@ -1,4 +1,5 @@
 import importlib.resources
+import re
 import tealish
 from textx.metamodel import metamodel_from_file
 from .expression_nodes import class_provider
@@ -20,6 +21,13 @@ tealish_mm = metamodel_from_file(
 )
 
 
+def unescape_single_quotes(s: str) -> str:
+    return re.sub(r"\\.", lambda m: "'" if m[0] == r"\'" else m[0], s)
+
+
+tealish_mm.register_obj_processors({"SingleQuotedString": unescape_single_quotes})
+
+
 def parse_expression(source: str) -> "Node":
     node = tealish_mm.model_from_str(source)
     return node
-- 
2.43.0

