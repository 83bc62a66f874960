From f44f2130bbe136a82004b1935509704ff210abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 01/58] fix: generate code for the unary plus operator

---
 amanda/compiler/codegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 11a55e3..124cc40 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -586,7 +586,7 @@ class ByteGen:
             self.append_op(OpCode.OP_INVERT)
         elif operator == TT.NAO:
             self.append_op(OpCode.OP_NOT)
-        else:
+        elif operator != TT.PLUS:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-- 
2.43.0


From 6e513ae502d4e1dc47e4c9efca968d6d168aea74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 02/58] fix: type integer division as int, which is what the VM
 computes

---
 amanda/compiler/ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amanda/compiler/ops.py b/amanda/compiler/ops.py
index 909aedb..8925182 100644
--- a/amanda/compiler/ops.py
+++ b/amanda/compiler/ops.py
@@ -22,6 +22,9 @@ def primitive_binop(lhs_type: Primitive, op: TT, rhs_type: Type) -> Type | None:
             TT.PLUS | TT.MINUS | TT.STAR | TT.SLASH | TT.DOUBLESLASH | TT.MODULO
         ):
             if lhs_type.is_numeric() and rhs_type.is_numeric():
+                # The VM always produces an int for integer division
+                if op == TT.DOUBLESLASH:
+                    return Builtins.Int
                 return (
                     Builtins.Int
                     if lhs_type.tag == Types.TINT
-- 
2.43.0


From 2d94e3872c0d0af3c8c45f9eb12fd983f8b5624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 03/58] fix: let quebra and continua act on the enclosing para
 loop

---
 amanda/compiler/check/core.py | 6 ++++++
 amanda/compiler/codegen.py    | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 0932214..63f67cf 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1156,8 +1156,14 @@ class Analyzer(ast.Visitor):
         )
         scope = symbols.Scope(self.ctx_scope)
         self.define_symbol(sym, self.scope_depth + 1, scope)
+
+        in_loop_state = self.in_loop
+        self.in_loop = True
+
         self.visit(node.statement, scope)
 
+        self.in_loop = in_loop_state
+
     def visit_paraexpr(self, node: ast.ParaExpr):
         # self.visit(node.name)
         self.visit(node.range_expr)
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 124cc40..cd465ca 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -717,6 +717,12 @@ class ByteGen:
         # BEGIN LOOP
         after_loop = self.new_label()
         loop = self.new_label()
+        update = self.new_label()
+        # Set the current loop exit and the point where 'continua' resumes
+        loop_exit_state = self.ctx_loop_exit
+        loop_start_state = self.ctx_loop_start
+        self.ctx_loop_exit = after_loop
+        self.ctx_loop_start = update
         block = node.statement
         self.enter_block(block.symbols)
 
@@ -734,6 +740,7 @@ class ByteGen:
         for child in block.children:
             self.gen(child)
         # update: control_var += inc
+        self.patch_label_loc(update)
         if not range_expr.inc:
             self.load_const(1)
         else:
@@ -746,6 +753,8 @@ class ByteGen:
         # END LOOP
         self.patch_label_loc(after_loop)
         self.exit_block()
+        self.ctx_loop_start = loop_start_state
+        self.ctx_loop_exit = loop_exit_state
 
     def gen_iguala(self, node: ast.Iguala):
         self.gen_iguala_from_ir(node, node.ir.tree)
-- 
2.43.0


From 6605216eb266cb94ca1d46a6971d1649b3168053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 04/58] fix: convert promoted values wherever they are stored,
 and keep the value of chained assignments

Element, field and index reads, f-strings, unwraps and transformed calls were
promoted to real by the checker but never converted. The value of a chained
assignment was reloaded only from plain variables.
---
 amanda/compiler/codegen.py   | 75 +++++++++++++++++++++++-------------
 amanda/compiler/transform.py |  4 ++
 2 files changed, 53 insertions(+), 26 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index cd465ca..eeff70b 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -12,8 +12,9 @@ from amanda.compiler.check.exhaustiveness import (
 )
 from amanda.compiler.symbols.base import Constructor, Symbol
 import amanda.compiler.symbols.core as symbols
-from amanda.compiler.types.builtins import Builtins
+from amanda.compiler.types.builtins import Builtins, SrcBuiltins
 from amanda.compiler.types.core import (
+    ConstructedTy,
     IntCons,
     Primitive,
     Registo,
@@ -193,6 +194,8 @@ class ByteGen:
         self.ip: int = 0  # Current bytecode offset
         self.lineno: int = -1
         self.ctx_module: Module = module
+        # Locals that keep the values of consecutive assignments
+        self.assigned_locals: dict[ast.ASTNode, int] = {}
         self.ctx_loop_start: int = -1
         self.ctx_loop_exit: int = -1
         self.src_map: dict[int, list[int]] = (
@@ -428,8 +431,14 @@ class ByteGen:
             result = gen_method(node, args)
         else:
             result = gen_method(node)
+        # An assignment leaves nothing on the stack, see gen_assigned_value
+        if isinstance(node, ast.Expr) and not self.is_assignment(node):
+            self.gen_auto_cast(node)
         return result
 
+    def is_assignment(self, node: ast.ASTNode) -> bool:
+        return isinstance(node, (ast.Assign, ast.Set, ast.IndexSet))
+
     def enter_block(self, scope):
         self.depth += 1
         self.scope_symtab = scope
@@ -473,7 +482,6 @@ class ByteGen:
         literal = str(node.token.lexeme)
         idx = self.get_table_index(literal, self.CONST_TABLE)
         self.append_op(OpCode.LOAD_CONST, idx)
-        self.gen_auto_cast(node.prom_type)
 
     def load_variable(self, symbol: Symbol):
         name = symbol.name
@@ -503,11 +511,8 @@ class ByteGen:
         # 'visit_variable' so that symbol attribute can be set
         if symbol is None:
             symbol = self.scope_symtab.resolve(name)
-        # TODO: Handle prom_type later
-        prom_type = node.prom_type
         var_scope = self.scope_symtab.resolve_scope(name, self.depth)
         self.load_variable(symbol)
-        self.gen_auto_cast(prom_type)
 
     def gen_path(self, node: ast.Path):
         # raise ValueError("Symbol should have been resolved before codegen!")
@@ -562,16 +567,31 @@ class ByteGen:
         self.func_locals[symbol.out_id] = idx
         return idx
 
-    # TODO: Test whether chained assign still with
-    # mixture of normal assigns and index set (Potential bug)
+    def gen_assigned_value(self, node: ast.Expr, expr: ast.Expr):
+        """Generates the value that 'node', an assignment, stores.
+        In consecutive assignments, each one keeps its value in a local for
+        the assignment on its left.
+        """
+        self.gen_kept_value(expr)
+        local = self.assigned_locals.get(node)
+        if local is not None:
+            self.append_op(OpCode.SET_LOCAL, local)
+            self.append_op(OpCode.GET_LOCAL, local)
+
+    def gen_kept_value(self, expr: ast.Expr):
+        if not self.is_assignment(expr):
+            self.gen(expr)
+            return
+        local = len(self.func_locals)
+        self.func_locals[f"_valor{local}_"] = local
+        self.assigned_locals[expr] = local
+        self.gen(expr)
+        self.append_op(OpCode.GET_LOCAL, local)
+        self.gen_auto_cast(expr)
+
     def gen_assign(self, node):
         expr = node.right
-        self.gen(expr)
-        # Deal with consecutive assignments
-        if isinstance(expr, ast.Assign):
-            var_sym = expr.left.var_symbol
-            name = expr.left.token.lexeme
-            self.load_variable(var_sym)
+        self.gen_assigned_value(node, expr)
         var = node.left
         assert isinstance(
             var, ast.Variable
@@ -590,7 +610,6 @@ class ByteGen:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-        self.gen_auto_cast(node.prom_type)
 
     def gen_binop(self, node: ast.BinOp):
         operator = node.token.token
@@ -649,7 +668,6 @@ class ByteGen:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-        self.gen_auto_cast(node.prom_type)
 
     def gen_se(self, node):
         else_branch = node.else_branch
@@ -889,7 +907,6 @@ class ByteGen:
             self.append_op(OpCode.BUILD_OBJ, len(node.fargs))
         else:
             self.append_op(OpCode.CALL_FUNCTION, len(node.fargs))
-        self.gen_auto_cast(node.prom_type)
 
     def gen_namedarg(self, node: ast.NamedArg):
         self.load_name(node.name.lexeme)
@@ -917,8 +934,16 @@ class ByteGen:
         arg = 0 if target_t != Builtins.Indef else 1
         self.append_op(OpCode.CAST, arg)
 
-    def gen_auto_cast(self, prom_type: Type):
-        if not prom_type or prom_type != Builtins.Real:
+    def gen_auto_cast(self, node: ast.Expr):
+        prom_type = node.prom_type
+        if not prom_type:
+            return
+        # A value of type 'T' is stored in a 'T?' as is
+        if node.eval_type == Builtins.Int and prom_type.is_constructed_from(
+            SrcBuiltins.Opcao
+        ):
+            prom_type = cast(ConstructedTy, prom_type).bound_ty_args["T"]
+        if prom_type != Builtins.Real:
             return
         self.load_variable(prom_type)
         self.append_op(OpCode.CAST, 0)
@@ -938,7 +963,7 @@ class ByteGen:
 
     def gen_indexset(self, node):
         self.gen_indexget(node.index, gen_get=False)
-        self.gen(node.value)
+        self.gen_assigned_value(node, node.value)
         self.append_op(OpCode.OP_INDEX_SET)
 
     def gen_fmtstr(self, node):
@@ -959,17 +984,15 @@ class ByteGen:
             self.gen(element)
         self.append_op(OpCode.BUILD_VEC, len(elements))
 
-    def gen_get(self, node: ast.Get):
+    def gen_get(self, node: ast.Get, gen_get=True):
         self.gen(node.target)
         self.load_name(node.member.lexeme)
-        assert node.parent, "Parent must not be none"
-        if node.child_of(ast.Set):
-            return
-        self.append_op(OpCode.GET_PROP)
+        if gen_get:
+            self.append_op(OpCode.GET_PROP)
 
     def gen_set(self, node: ast.Set):
-        self.gen(node.target)
-        self.gen(node.expr)
+        self.gen_get(node.target, gen_get=False)
+        self.gen_assigned_value(node, node.expr)
         self.append_op(OpCode.SET_PROP)
 
     def gen_unwrap(self, node: ast.Unwrap):
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index d034a5c..519d4d3 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -38,6 +38,10 @@ class ASTTransformer:
             raise ValueError(
                 f"Node of type {type(node).__name__} has no parent."
             )
+        # The new node takes the place of an already checked node
+        if isinstance(node, ast.Expr) and isinstance(new_node, ast.Expr):
+            new_node.eval_type = node.eval_type
+            new_node.prom_type = node.prom_type
         parent.for_each_child(self.replace_child(parent, node, new_node))
         return new_node
 
-- 
2.43.0


From d4a0704a36f0e5eddc5e0eeb8e59b36f743a937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 05/58] fix: decide whether an element can be assigned from the
 vector, not from the element

Elements of a [texto] could not be assigned, and assigning an element of a
vector of records or vectors depended on the element's type. The assigned
value is now also promoted.
---
 amanda/compiler/check/core.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 63f67cf..2e88e19 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -950,14 +950,15 @@ class Analyzer(ast.Visitor):
         value = node.value
         self.visit(index)
         idx_ty = index.eval_type
-        if not idx_ty.supports_index_set():
-            if idx_ty.tag == Types.TTEXTO:
-                self.error(
-                    f"As strings não podem ser modificadas por meio de índices"
-                    if idx_ty.tag == Types.TTEXTO
-                    else f"Itens do tipo '{idx_ty}' não podem ser modificadas por meio de índices"
-                )
+        target_ty = index.target.eval_type
+        if not target_ty.supports_index_set():
+            self.error(
+                f"As strings não podem ser modificadas por meio de índices"
+                if target_ty == Builtins.Texto
+                else f"Itens do tipo '{target_ty}' não podem ser modificadas por meio de índices"
+            )
         self.visit(value)
+        value.prom_type = value.eval_type.promote_to(idx_ty)
         if not self.types_match(index.eval_type, value.eval_type):
             self.ctx_node = node
             self.error(
-- 
2.43.0


From 605babcce226e670622f2b1e4782a138cad0e7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 06/58] fix: apply the operator of a compound assignment to a
 field

---
 amanda/compiler/parse.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index c1dff76..16e9847 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1001,7 +1001,14 @@ class Parser:
 
             self.consume(current)
             if isinstance(expr, ast.Get):
-                expr = ast.Set(target=expr, expr=self.assignment())
+                # The field is read through a node of its own, since it is
+                # not treated like the target of the assignment
+                expr = ast.Set(
+                    target=expr,
+                    expr=ast.BinOp(
+                        token, left=copy.deepcopy(expr), right=self.equality()
+                    ),
+                )
             elif isinstance(expr, ast.IndexGet):
                 expr = ast.IndexSet(
                     token,
-- 
2.43.0


From 7f8e78665e9588afb8184a2b974612be6472d356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 07/58] fix: read a single escape sequence at a time in text
 literals

---
 amanda/compiler/parse.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 16e9847..7f8d41f 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -160,10 +160,11 @@ class Lexer:
                 # Attempt to read different control sequences
                 # if control sequence is not read, just process
                 # the char combination as is
-                is_ctl_seq = False
-                is_ctl_seq |= self.escape_seq("n", result, "\n")
-                is_ctl_seq |= self.escape_seq("'", result, "'")
-                is_ctl_seq |= self.escape_seq('"', result, '"')
+                is_ctl_seq = (
+                    self.escape_seq("n", result, "\n")
+                    or self.escape_seq("'", result, "'")
+                    or self.escape_seq('"', result, '"')
+                )
                 if not is_ctl_seq:
                     result.write("\\")
                     self.advance()
-- 
2.43.0


From da4dfa7e65db92575d1cf3fa6a81604622fc57a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 08/58] fix: count the lines that a text literal spans

---
 amanda/compiler/parse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 7f8d41f..7130acd 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -153,6 +153,7 @@ class Lexer:
     def string(self):
         result = StringIO()
         symbol = self.current_char
+        start_line = self.line
         start_pos = self.pos
         self.advance()
         while self.current_char != symbol:
@@ -172,6 +173,9 @@ class Lexer:
             if self.current_char == Lexer.EOF:
                 self.error(self.INVALID_STRING, line=self.line)
             result.write(self.current_char)
+            if self.current_char == "\n":
+                self.line += 1
+                self.pos = 1
             self.advance()
         self.advance()
         whole_str = result.getvalue()
@@ -179,7 +183,7 @@ class Lexer:
         return Token(
             TT.STRING,
             f"{symbol}{whole_str}{symbol}",
-            self.line,
+            start_line,
             start_pos,
         )
 
-- 
2.43.0


From 57b074b6c9f9ff8a56d7a41d5ed28aa0608fafb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 09/58] fix: report numbers that Python cannot convert instead
 of crashing

---
 amanda/compiler/parse.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 7130acd..de9e79e 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -17,6 +17,7 @@ class Lexer:
     # Errors that happen during tokenization
     INVALID_SYMBOL = "O símbolo '{symbol}' não foi reconhecido"
     INVALID_STRING = "A sequência de caracteres não foi delimitada"
+    INVALID_INT = "O número inteiro é demasiado grande"
 
     def __init__(self, filename, src):
         self.filename = filename
@@ -122,15 +123,15 @@ class Lexer:
 
     def number(self):
         result = ""
-        while self.current_char.isdigit():
+        while self.current_char.isdecimal():
             result += self.current_char
             self.advance()
         if self.current_char == ".":
             # lookahead to see next char i
-            if self.lookahead().isdigit():
+            if self.lookahead().isdecimal():
                 result += "."
                 self.advance()
-                while self.current_char.isdigit():
+                while self.current_char.isdecimal():
                     result += self.current_char
                     self.advance()
         if "." in result:
@@ -138,8 +139,13 @@ class Lexer:
                 TT.REAL, float(result), self.line, self.pos - (len(result) + 1)
             )
 
+        try:
+            value = int(result)
+        except ValueError:
+            # More digits than Python is willing to convert
+            self.error(self.INVALID_INT)
         return Token(
-            TT.INTEGER, int(result), self.line, self.pos - (len(result) + 1)
+            TT.INTEGER, value, self.line, self.pos - (len(result) + 1)
         )
 
     def escape_seq(self, char, result, seq):
@@ -171,7 +177,8 @@ class Lexer:
                     self.advance()
                 continue
             if self.current_char == Lexer.EOF:
-                self.error(self.INVALID_STRING, line=self.line)
+                self.line, self.pos = start_line, start_pos
+                self.error(self.INVALID_STRING)
             result.write(self.current_char)
             if self.current_char == "\n":
                 self.line += 1
@@ -247,7 +254,7 @@ class Lexer:
             if self.current_char == "f" and self.lookahead() in ('"', "'"):
                 return self.format_str()
             return self.identifier()
-        elif self.current_char.isdigit():
+        elif self.current_char.isdecimal():
             return self.number()
         elif self.current_char == Lexer.EOF:
             return Token(Lexer.EOF, "", line=self.line, col=self.pos)
-- 
2.43.0


From 7c49e55022dacd4f54df643e5e6717936f0daba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 10/58] fix: keep the literal parts of f-strings unchanged

---
 amanda/compiler/parse.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index de9e79e..51909b7 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1218,8 +1218,14 @@ class Parser:
         char = format_str.read(1)
         parts = []
 
-        tokenify_str = lambda lexeme: ast.Constant(
-            Token(TT.STRING, lexeme=lexeme, line=token.line, col=token.col)
+        # The lexeme of a string includes its delimiters
+        tokenify_str = lambda text: ast.Constant(
+            Token(
+                TT.STRING,
+                lexeme=f'"{text}"',
+                line=token.line,
+                col=token.col,
+            )
         )
         # TODO: Reuse this buffer
         current_str = StringIO()
@@ -1251,10 +1257,10 @@ class Parser:
             char = format_str.read(1)
 
         buff_str = current_str.getvalue()
+        if not has_expr:
+            return tokenify_str(buff_str)
         if buff_str:
             parts.append(tokenify_str(buff_str))
-        if not has_expr:
-            return parts[0]
         return ast.FmtStr(token, parts)
 
     def primary(self):
-- 
2.43.0


From 0a7f5343492fed2f5e6953c6822457b89b20343a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 11/58] fix: place the expressions of f-strings on their own
 line

---
 amanda/compiler/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 51909b7..2af1c2e 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1198,6 +1198,7 @@ class Parser:
             )
         expr.seek(0)
         self.lexer = Lexer(self.filename, expr)
+        self.lexer.line = token.line
         try:
             self.lookahead = self.lexer.get_token()
             expression = self.equality()
-- 
2.43.0


From 796b5a033285782ec223998e0249e0daf258cea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 12/58] fix: reject an f-string expression that is followed by
 anything else

---
 amanda/compiler/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 2af1c2e..6d639b3 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1202,6 +1202,11 @@ class Parser:
         try:
             self.lookahead = self.lexer.get_token()
             expression = self.equality()
+            self.skip_newlines()
+            if not self.match(Lexer.EOF):
+                self.error(
+                    f"era esperado o símbolo '}}',porém recebeu o símbolo '{self.lookahead.lexeme}'"
+                )
         except AmandaError as e:
             raise AmandaError.syntax_error(
                 self.filename, e.message, token.line, token.col
-- 
2.43.0


From 09b2678f3ecdade68e91eb5ed04e8a25d90317d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 13/58] fix: name the symbol that was not recognised

---
 amanda/compiler/parse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 6d639b3..b6d1daf 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -221,11 +221,13 @@ class Lexer:
                     return tok
                 else:
                     tok = Token.from_char(char, self.line, self.pos)
-                    self.advance()
+                    if tok:
+                        self.advance()
                     return tok
             case (False, char, lookahead):
                 tok = Token.from_char(char, self.line, self.pos)
-                self.advance()
+                if tok:
+                    self.advance()
                 return tok
             case _:
                 return self.error(self.INVALID_SYMBOL, symbol=self.current_char)
-- 
2.43.0


From 9603af2aece453a09674c19e89ee9da615c50f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:47 +0000
Subject: [PATCH 14/58] fix: give each method its own definition, and leave
 imported symbols unchanged

Methods were defined with their plain name, so methods with equal names, or
a function with the name of a method, replaced each other. Methods can also
call themselves now, and types that don't support methods are rejected.
---
 amanda/compiler/check/core.py   | 43 ++++++++++++++++++--------
 amanda/compiler/codegen.py      | 16 +++++++---
 amanda/compiler/symbols/core.py |  8 +++++
 amanda/compiler/transform.py    | 53 +++++++++------------------------
 amanda/compiler/types/core.py   |  8 +++++
 5 files changed, 73 insertions(+), 55 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 2e88e19..ecfa20d 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -170,11 +170,15 @@ class Analyzer(ast.Visitor):
     # 3. Local names are depth dependent
     # at level 2 __r10__,__r11__
     def define_symbol(
-        self, symbol: symbols.Symbol, depth: int, scope: symbols.Scope
+        self,
+        symbol: symbols.Symbol,
+        depth: int,
+        scope: symbols.Scope,
+        name: str | None = None,
     ):
         if not self.is_valid_name(symbol.name) or depth >= 1:
             symbol.out_id = f"_r{depth}{scope.count()}_"
-        scope.define(symbol.name, symbol)
+        scope.define(name if name else symbol.name, symbol)
 
     def get_type_sym_or_err(self, type_id: str) -> Type:
         type_symbol = self.ctx_scope.resolve(type_id)
@@ -520,7 +524,7 @@ class Analyzer(ast.Visitor):
         if node.of_type(ast.MethodDecl):
             symbol.is_property = True
         symbol.is_global = True
-        self.define_symbol(symbol, self.scope_depth, self.ctx_scope)
+        self.define_symbol(symbol, self.scope_depth, self.ctx_scope, name)
         scope, params = self.define_func_scope(name, node.params)
         symbol.params = params
         return (scope, params)
@@ -605,9 +609,13 @@ class Analyzer(ast.Visitor):
         # Checking target type
         target_ty = self.get_type(node.target_ty)
         method_name = node.name.lexeme
-        method_id = target_ty.full_field_path(method_name)
         method_desc = f"O método '{method_name}' do tipo '{target_ty}'"
 
+        if not target_ty.supports_methods():
+            self.error(
+                f"Não é possível declarar métodos no tipo '{target_ty}'"
+            )
+
         # Check if field exists on target type
         method_sym = target_ty.get_property(method_name)
         if method_sym:
@@ -617,11 +625,6 @@ class Analyzer(ast.Visitor):
                 else f"A propriedade '{method_name}' já foi definida no tipo '{target_ty}'"
             )
 
-        self.validate_decl_in_scope(
-            method_id,
-            f"Métodos só podem ser declarados no escopo global",
-            f"{method_desc} já foi declarado anteriormente",
-        )
         # Checking return type
         return_ty = self.get_type(node.return_ty)
         symbol = symbols.MethodSym(
@@ -631,9 +634,18 @@ class Analyzer(ast.Visitor):
             module=self.ctx_module,
         )
         symbol.set_annotations(node.annotations)
+        method_id = symbol.full_name()
+        self.validate_decl_in_scope(
+            method_id,
+            f"Métodos só podem ser declarados no escopo global",
+            f"{method_desc} já foi declarado anteriormente",
+        )
 
         scope, params = self.make_func_symbol(method_id, node, symbol)
         symbol.params = params
+        # The body of a method may call the method itself
+        # TODO: Refactor method definitions to not rely on the underlying type
+        target_ty.define_method(symbol)
 
         # add alvo param
         self.define_symbol(
@@ -654,9 +666,7 @@ class Analyzer(ast.Visitor):
                 f"{method_desc} não possui a instrução 'retorna'",
             )
             self.check_function_body(node, symbol, scope)
-        # TODO: Refactor method definitions to not rely on the underlying type
         node.symbol = symbol
-        target_ty.define_method(symbol)
         self.leave_ty_ctx()
 
     def get_generic_params(
@@ -1216,7 +1226,7 @@ class Analyzer(ast.Visitor):
                 )
                 self.error(message)
 
-        if sym.name in BUILTINS:
+        if self.is_builtin_fn(sym):
             self.builtin_call(BUILTINS[sym.name], node)
         elif isinstance(sym, Registo):
             self.validate_initializer(sym, node.fargs)
@@ -1230,6 +1240,15 @@ class Analyzer(ast.Visitor):
         node.symbol = sym
         return sym
 
+    def is_builtin_fn(self, sym: Typed) -> bool:
+        # Only the functions of the builtin module are special, other items
+        # are free to use the same names
+        return (
+            sym.name in BUILTINS
+            and sym.module.builtin
+            and type(sym) is symbols.FunctionSymbol
+        )
+
     def check_vec_op(self, fn, node):
         self.check_arity(len(node.fargs), fn, 2, False)
         vec_expr = node.fargs[0]
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index eeff70b..97ac249 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -483,8 +483,14 @@ class ByteGen:
         idx = self.get_table_index(literal, self.CONST_TABLE)
         self.append_op(OpCode.LOAD_CONST, idx)
 
+    def symbol_name(self, symbol: Symbol) -> str:
+        """The name that a symbol is defined with in its module"""
+        if isinstance(symbol, symbols.MethodSym):
+            return symbol.full_name()
+        return symbol.name
+
     def load_variable(self, symbol: Symbol):
-        name = symbol.name
+        name = self.symbol_name(symbol)
         sym_module = cast(symbols.Typed, symbol).module.fpath
         typed_sym = cast(symbols.Typed, symbol)
         # Guarantee item is in the name table
@@ -511,7 +517,6 @@ class ByteGen:
         # 'visit_variable' so that symbol attribute can be set
         if symbol is None:
             symbol = self.scope_symtab.resolve(name)
-        var_scope = self.scope_symtab.resolve_scope(name, self.depth)
         self.load_variable(symbol)
 
     def gen_path(self, node: ast.Path):
@@ -854,14 +859,17 @@ class ByteGen:
     def gen_functiondecl(self, node: ast.FunctionDecl):
         func_symbol = node.symbol
 
-        name = func_symbol.name
-        name_idx = self.get_table_index(func_symbol.name, self.NAME_TABLE)
+        name = self.symbol_name(func_symbol)
+        name_idx = self.get_table_index(name, self.NAME_TABLE)
         func_end = self.new_label()
         self.append_op(OpCode.JUMP, func_end)
         func_start = self.new_label()
         block = node.block
         prev_func_locals = self.func_locals
         self.func_locals = {}
+        if isinstance(func_symbol, symbols.MethodSym):
+            # The receiver is the first argument of a method
+            self.func_locals["alvo"] = 0
         for param in func_symbol.params.values():
             local = param.out_id
             idx = len(self.func_locals)
diff --git a/amanda/compiler/symbols/core.py b/amanda/compiler/symbols/core.py
index 42c46c1..b1bf62b 100644
--- a/amanda/compiler/symbols/core.py
+++ b/amanda/compiler/symbols/core.py
@@ -96,6 +96,14 @@ class MethodSym(FunctionSymbol):
         self.return_ty = return_ty
         self.is_property = True
 
+    def full_name(self) -> str:
+        """Identifies a method among the definitions of its module"""
+        full_path = self.target_ty.full_field_path(self.name)
+        target_module = self.target_ty.module
+        if target_module.builtin or not self.target_ty.is_external(self.module):
+            return full_path
+        return f"{target_module.fpath}::{full_path}"
+
     def __str__(self):
         params = ",".join(self.params)
         return f"<{self.__class__.__name__}: ({self.module}::{self.name},{self.type}) ({params})>"
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index 519d4d3..3e1af63 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -1,22 +1,20 @@
 from dataclasses import dataclass
 import amanda.compiler.ast as ast
 from amanda.compiler.module import Module
-from amanda.compiler.symbols.base import Type
+from amanda.compiler.symbols.base import Symbol, Type
 from amanda.compiler.tokens import TokenType as TT, Token
-from amanda.compiler.symbols.core import (
-    FunctionSymbol,
-    MethodSym,
-    VariableSymbol,
-)
+from amanda.compiler.symbols.core import MethodSym
 from amanda.compiler.types.builtins import Builtins, SrcBuiltins
 
 from typing import cast, Callable
 
 
-def var_node(name: str, tok: Token) -> ast.Variable:
-    return ast.Variable(
-        token=Token(TT.IDENTIFIER, name, tok.line, tok.col),
+def var_node(symbol: Symbol, tok: Token) -> ast.Variable:
+    var = ast.Variable(
+        token=Token(TT.IDENTIFIER, symbol.name, tok.line, tok.col),
     )
+    var.var_symbol = symbol
+    return var
 
 
 @dataclass
@@ -135,36 +133,16 @@ class ASTTransformer:
         ):
             return ast.Unwrap(option=callee.target, default_val=node.fargs[0])
 
-        var: ast.Variable
-        if callee.of_type(ast.Get) and callee.target.eval_type.is_module():
+        sym = node.symbol
+        if callee.target.eval_type.is_module():
             # A call to a function in another module via a module alias
-            sym = cast(FunctionSymbol, node.symbol)
-            # Add func symbol to symbol table
-            # Prefix with the name of the module to avoid overwriting
-            # other methods with the same name, from different modules
-            sym.name = sym.out_id = f"{callee}::{sym.name}"
-            self.program.symbols.define(sym.name, sym)
-            """
-            call_node = ast.Call(callee=var, fargs=node.fargs)
-            call_node.symbol = sym
-            return call_node
-            """
-        elif isinstance(node.symbol, MethodSym):
+            fargs = node.fargs
+        elif isinstance(sym, MethodSym):
             # Common method call
-            sym = cast(MethodSym, node.symbol)
-            instance = cast(ast.Get, node.callee).target
-            sym.params = {
-                "alvo": VariableSymbol("alvo", sym.return_ty, self.module),
-                **sym.params,
-            }
-            node.fargs.insert(0, instance)
-            if sym.is_external(self.module):
-                sym.name = sym.out_id = f"{sym.module.fpath}::{sym.name}"
-                self.program.symbols.define(sym.name, sym)
+            fargs = [callee.target, *node.fargs]
         else:
             raise NotImplementedError("Unknown case")
-        var = var_node(sym.name, node.token)
-        call_node = ast.Call(callee=var, fargs=node.fargs)
+        call_node = ast.Call(callee=var_node(sym, node.token), fargs=fargs)
         call_node.symbol = sym
         return call_node
 
@@ -173,10 +151,7 @@ class ASTTransformer:
         if node.target.eval_type.is_module():
             imp_mod = node.target.eval_type
             sym = imp_mod.module.ast.symbols.resolve(node.member.lexeme)
-            sym.name = sym.out_id = f"{imp_mod.module.fpath}::{sym.name}"
-            var = var_node(sym.name, node.token)
-            self.program.symbols.define(sym.name, sym)
-            return var
+            return var_node(sym, node.token)
         else:
             return (
                 ast.Unwrap(option=node.target, default_val=None)
diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 0b19797..9e50ce3 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -294,6 +294,9 @@ class Vector(Type):
     def supports_tam(self) -> bool:
         return True
 
+    def supports_methods(self) -> bool:
+        return False
+
     def index_ty(self) -> Type:
         from amanda.compiler.types.builtins import Builtins
 
@@ -586,6 +589,11 @@ class ConstructedTy(Type):
     def supports_fields(self) -> bool:
         return self.generic_ty.supports_fields()
 
+    def supports_methods(self) -> bool:
+        # Methods belong to the generic type, so they can't be specific to
+        # some of its type arguments
+        return all(ty.is_type_var() for ty in self.bound_ty_args.values())
+
     def is_primitive(self) -> bool:
         return False
 
-- 
2.43.0


From 229e264e61facb4bbc536e4e0e655fd4ea782389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 15/58] fix: reject references to methods and variants in
 arguments

---
 amanda/compiler/check/core.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index ecfa20d..0501e6e 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -830,6 +830,10 @@ class Analyzer(ast.Visitor):
         assert node.var_symbol
         return sym
 
+    def is_callee(self, node: ast.Expr) -> bool:
+        """Tells callees apart from the arguments of a call"""
+        return isinstance(node.parent, ast.Call) and node.parent.callee is node
+
     def visit_path(self, node: ast.Path):
         components = node.components
         name = components[0].token.lexeme
@@ -856,7 +860,7 @@ class Analyzer(ast.Visitor):
         # If variant not referenced in the context of a call
         # and it has params, error out
         if (
-            not node.child_of(ast.Call)
+            not self.is_callee(node)
             and isinstance(current_sym, Variant)
             and len(current_sym.params) > 0
             and not node.child_of(ast.ADTPattern)
@@ -888,7 +892,9 @@ class Analyzer(ast.Visitor):
             not target.eval_type.supports_fields()
             and not target.eval_type.supports_methods()
         ):
-            self.error("O Tipo '{ty_sym.name}' nenhum atributo ou método")
+            self.error(
+                f"O tipo '{target.eval_type}' não possui nenhum atributo ou método"
+            )
         ty_sym = target.eval_type  # type: ignore
         field = node.member.lexeme
         field_sym = cast(Typed, ty_sym.get_property(field))
@@ -900,17 +906,7 @@ class Analyzer(ast.Visitor):
         # Check if valid use of get
         # References to methods can only be used in the context of
         # a call expression
-        in_eval_ctx = (
-            node.child_of(ast.Expr)
-            or node.child_of(ast.Set)
-            or node.child_of(ast.Assign)
-            or node.child_of(ast.Statement)
-        )
-        if (
-            in_eval_ctx
-            and not node.child_of(ast.Call)
-            and not field_sym.can_evaluate()
-        ):
+        if not self.is_callee(node) and not field_sym.can_evaluate():
             self.error(self.INVALID_REF, name=field_sym.name)
         node.eval_type = (
             field_sym if isinstance(field_sym, Type) else field_sym.type
-- 
2.43.0


From a7e82338d2c07eb53dfda2b42a13058734ccf4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 16/58] fix: check the arguments of builtin functions and
 variants, and the types of conditions

Wrong arguments of 'vec', 'anexa', 'remova', 'tam' and of variants, and
conditions whose type is a record or a union, crashed the compiler or the
virtual machine instead of being reported.
---
 amanda/compiler/check/checker.py |  1 +
 amanda/compiler/check/core.py    | 44 ++++++++++++++++++++------------
 amanda/compiler/check/uniao.py   |  3 +--
 3 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/amanda/compiler/check/checker.py b/amanda/compiler/check/checker.py
index f5986d1..2af058c 100644
--- a/amanda/compiler/check/checker.py
+++ b/amanda/compiler/check/checker.py
@@ -34,6 +34,7 @@ class Checker(Protocol):
         self, expected: symbols.Type, received: symbols.Type
     ) -> bool: ...
     def visit(self, node: ast.ASTNode): ...
+    def visit_positional_args(self, fargs: list[ast.Expr]): ...
     def visit_block(
         self, node: ast.Block, scope: symbols.Scope | None = None
     ): ...
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 0501e6e..74e5d88 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -202,7 +202,7 @@ class Analyzer(ast.Visitor):
 
     def get_mod_or_err(self, scope: symbols.Scope, mod_id: str) -> ModuleTy:
         mod = scope.resolve_typed(mod_id)
-        if not mod or not isinstance(mod.type, ModuleTy):
+        if not isinstance(mod, Typed) or not isinstance(mod.type, ModuleTy):
             self.error(
                 f"Especificação de tipo inválida. O identificador '{mod_id}' não foi reconhecido como um módulo"
             )
@@ -1102,7 +1102,7 @@ class Analyzer(ast.Visitor):
 
     def visit_se(self, node: ast.Se):
         self.visit(node.condition)
-        if node.condition.eval_type.tag != Types.TBOOL:
+        if node.condition.eval_type != Builtins.Bool:
             self.error(f"a condição da instrução 'se' deve ser um valor lógico")
         self.visit(node.then_branch)
         elsif_branches = node.elsif_branches
@@ -1115,7 +1115,7 @@ class Analyzer(ast.Visitor):
         expr = node.expression
         self.visit(expr)
         expr_type = expr.eval_type
-        if expr_type.tag not in (Types.TINT, Types.TTEXTO):
+        if expr_type not in (Builtins.Int, Builtins.Texto):
             self.error(
                 f"A directiva escolha só pode ser usada para avaliar números inteiros e strings"
             )
@@ -1140,7 +1140,7 @@ class Analyzer(ast.Visitor):
 
     def visit_enquanto(self, node: ast.Enquanto):
         self.visit(node.condition)
-        if node.condition.eval_type.tag != Types.TBOOL:
+        if node.condition.eval_type != Builtins.Bool:
             self.ctx_node = node
             self.error(
                 f"a condição da instrução 'enquanto' deve ser um valor lógico"
@@ -1249,8 +1249,7 @@ class Analyzer(ast.Visitor):
         self.check_arity(len(node.fargs), fn, 2, False)
         vec_expr = node.fargs[0]
         value = node.fargs[1]
-        self.visit(vec_expr)
-        self.visit(value)
+        self.visit_positional_args(node.fargs)
 
         vec_t = vec_expr.eval_type
         if not isinstance(vec_t, Vector):
@@ -1271,27 +1270,35 @@ class Analyzer(ast.Visitor):
                     f"Função 'vec' deve ser invocada com pelo menos 2 argumentos"
                 )
             # Is size given valid?
-            for arg in node.fargs[1:]:
-                self.visit(arg)
-                if arg.eval_type.tag != Types.TINT:
+            sizes = node.fargs[1:]
+            self.visit_positional_args(sizes)
+            for arg in sizes:
+                if arg.eval_type != Builtins.Int:
                     self.error(
                         "Os tamanhos de um vector devem ser representado por inteiros"
                     )
 
-            type_node = cast(ast.Type, node.fargs[0])
+            type_node = node.fargs[0]
+            if not isinstance(type_node, (ast.Type, ast.Variable)):
+                self.error("O argumento 1 da função 'vec' deve ser um tipo")
             el_type = self.get_type(type_node)  # Attempt to get type
             # Is arg 1 a vector type?
             if type(el_type) == Vector:
                 self.error(f"O tipo de um vector deve ser um tipo simples")
+            # The elements start with the default value of their type
+            if not el_type.zero_initialized:
+                self.error(
+                    f"Vectores de elementos do tipo '{el_type}' não podem ser criados com a função 'vec'"
+                )
             # Set type based on dimensions
             vec_type = Vector(self.ctx_module, el_type)
             for i in range(len(node.fargs[1:]) - 1):
                 vec_type = Vector(self.ctx_module, vec_type)
             node.eval_type = vec_type
         elif fn == BuiltinFn.ANEXA:
+            self.check_vec_op(fn, node)
             vec_expr = node.fargs[0]
             value = node.fargs[1]
-            self.check_vec_op(fn, node)
 
             vec_t = vec_expr.eval_type
             el_type = vec_t.element_type
@@ -1303,9 +1310,9 @@ class Analyzer(ast.Visitor):
             value.prom_type = val_t.promote_to(el_type)
             node.eval_type = cast(Type, self.global_scope.resolve("vazio"))
         elif fn == BuiltinFn.REMOVA:
+            self.check_vec_op(fn, node)
             vec_expr = node.fargs[0]
             index = node.fargs[1]
-            self.check_vec_op(fn, node)
             if index.eval_type != Builtins.Int:
                 self.error(
                     "O argumento 2 da função 'remova' deve ser um número inteiro"
@@ -1315,7 +1322,7 @@ class Analyzer(ast.Visitor):
         elif fn == BuiltinFn.TAM:
             self.check_arity(len(node.fargs), fn, 1, False)
             seq = node.fargs[0]
-            self.visit(seq)
+            self.visit_positional_args(node.fargs)
 
             if not seq.eval_type.supports_tam():
                 self.error(
@@ -1348,10 +1355,7 @@ class Analyzer(ast.Visitor):
                 f"número incorrecto de argumentos para {callable_desc}. Esperava {arity} argumento(s), porém recebeu {arg_len}"
             )
 
-    def validate_call(self, sym: symbols.FunctionSymbol, fargs: List[ast.Expr]):
-        name = sym.name
-        if not sym.is_callable():
-            self.error(f"identificador '{name}' não é invocável")
+    def visit_positional_args(self, fargs: List[ast.Expr]):
         for arg in fargs:
             if arg.of_type(ast.NamedArg):
                 self.ctx_node = arg
@@ -1359,6 +1363,12 @@ class Analyzer(ast.Visitor):
                     f"Funções e métodos não suportam argumentos nomeados"
                 )
             self.visit(arg)
+
+    def validate_call(self, sym: symbols.FunctionSymbol, fargs: List[ast.Expr]):
+        name = sym.name
+        if not sym.is_callable():
+            self.error(f"identificador '{name}' não é invocável")
+        self.visit_positional_args(fargs)
         self.check_arity(
             len(fargs), name, sym.arity(), sym.is_property, symbol=sym
         )
diff --git a/amanda/compiler/check/uniao.py b/amanda/compiler/check/uniao.py
index dbf9dbe..1e6b7bc 100644
--- a/amanda/compiler/check/uniao.py
+++ b/amanda/compiler/check/uniao.py
@@ -52,8 +52,7 @@ def validate_variant_init(
         )
 
     # 2. Validate if all arg order match param order
-    for arg in args:
-        checker.visit(arg)
+    checker.visit_positional_args(args)
     for i, (arg, param) in enumerate(zip(args, variant.params)):
         arg.prom_type = arg.eval_type.promote_to(param)
         if not checker.types_match(param, arg.eval_type):
-- 
2.43.0


From a2c84cee116082468d10a3473f7dd18dc2890bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 17/58] fix: reject assignments to the value of an optional

---
 amanda/compiler/check/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 74e5d88..21f4d6f 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -922,6 +922,10 @@ class Analyzer(ast.Visitor):
             self.error(
                 f"Atribuição inválida. As variáveis globais de um módulo importado não podem ser modificadas externamente"
             )
+        if target.target.eval_type.is_constructed_from(SrcBuiltins.Opcao):
+            self.error(
+                f"Atribuição inválida. O valor de um objecto do tipo '{target.target.eval_type}' não pode ser modificado por meio de atributos"
+            )
         self.visit(expr)
         expr.prom_type = expr.eval_type.promote_to(target.eval_type)
         if not self.types_match(target.eval_type, expr.eval_type):
-- 
2.43.0


From 84deca46479355f91de31b54a7d2f687eab4a177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 18/58] fix: require 'retorna' in every path of a function that
 returns a value

---
 amanda/compiler/check/core.py | 90 +++++++++++++++++++++++++++--------
 1 file changed, 70 insertions(+), 20 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 21f4d6f..82cc1fc 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -100,6 +100,10 @@ class Analyzer(ast.Visitor):
             False
             if not node.else_branch
             else self.has_return(node.then_branch)
+            and all(
+                self.has_return(branch.then_branch)
+                for branch in node.elsif_branches
+            )
             and self.has_return(node.else_branch)
         )
 
@@ -107,29 +111,75 @@ class Analyzer(ast.Visitor):
         return self.has_return_block(node.body)
 
     def has_return_iguala(self, node: ast.Iguala):
-        has_return = True
-        has_var_pattern = False
-        for arm in node.arms:
-            has_return = has_return and self.has_return(arm)
-            if not has_return:
-                return False
-            if isinstance(arm.pattern, ast.BindingPattern):
-                has_var_pattern = True
-        return has_return and has_var_pattern
-
-    def has_return_seiguala(self, node: ast.SeIguala):
-        """Method checks for return within
-        'se iguala' statements"""
-        # If there is no else branch return None immediately
-        return (
-            False if not node.else_branch else self.has_return(node.else_branch)
+        # The alternatives always cover all of the possible values
+        return all(self.has_return(arm) for arm in node.arms)
+
+    def has_return_escolha(self, node: ast.Escolha):
+        return node.default_case is not None and all(
+            self.has_return(block)
+            for block in (
+                node.default_case,
+                *(case.block for case in node.cases),
+            )
         )
 
-    def has_return_enquanto(self, node):
-        return self.has_return(node.statement)
+    def has_return_enquanto(self, node: ast.Enquanto):
+        condition = self.constant_value(node.condition)
+        if not condition or self.has_loop_ctl(node.statement, TT.QUEBRA):
+            return False
+        # Only a 'retorna' ends a loop whose condition is always true
+        return True
+
+    def has_return_para(self, node: ast.Para):
+        range_expr = node.expression.range_expr
+        start = self.constant_value(range_expr.start)
+        end = self.constant_value(range_expr.end)
+        # The body of other loops may not run at all
+        if start is None or end is None or not start < end:
+            return False
+        return not self.has_loop_ctl(
+            node.statement, TT.QUEBRA, TT.CONTINUA
+        ) and self.has_return(node.statement)
+
+    def constant_value(self, node: ast.Expr) -> int | bool | None:
+        """The value of an expression that has only literals, if known"""
+        match node:
+            case ast.Constant(token=Token(token=TT.INTEGER, lexeme=lexeme)):
+                return int(lexeme)
+            case ast.Constant(token=Token(token=TT.VERDADEIRO)):
+                return True
+            case ast.BinOp(left=left, right=right, token=token):
+                values = (self.constant_value(left), self.constant_value(right))
+                if None in values:
+                    return None
+                match token.token:
+                    case TT.DOUBLEEQUAL:
+                        return values[0] == values[1]
+                    case TT.NOTEQUAL:
+                        return values[0] != values[1]
+                    case TT.LESS:
+                        return values[0] < values[1]
+                    case TT.LESSEQ:
+                        return values[0] <= values[1]
+                    case TT.GREATER:
+                        return values[0] > values[1]
+                    case TT.GREATEREQ:
+                        return values[0] >= values[1]
+        return None
+
+    def has_loop_ctl(self, node: ast.ASTNode, *tokens: TT) -> bool:
+        """Tells if the body of a loop has one of the given directives"""
+        if isinstance(node, (ast.Enquanto, ast.Para)):
+            return False
+        if isinstance(node, ast.LoopCtlStmt):
+            return node.token.token in tokens
+        found = []
+
+        def check_child(child: ast.ASTNode, _):
+            found.append(self.has_loop_ctl(child, *tokens))
 
-    def has_return_para(self, node):
-        return self.has_return(node.statement)
+        node.for_each_child(check_child)
+        return any(found)
 
     def has_return_retorna(self, node):
         return True
-- 
2.43.0


From 33aff69b72341481204e631a46a704e660246a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 19/58] fix: evaluate the value of an escolha once

---
 amanda/compiler/check/core.py |  2 +-
 amanda/compiler/codegen.py    | 20 +++++++++++++++++
 amanda/compiler/transform.py  | 42 -----------------------------------
 3 files changed, 21 insertions(+), 43 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 82cc1fc..59ca13d 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -227,7 +227,7 @@ class Analyzer(ast.Visitor):
         name: str | None = None,
     ):
         if not self.is_valid_name(symbol.name) or depth >= 1:
-            symbol.out_id = f"_r{depth}{scope.count()}_"
+            symbol.out_id = f"_r{depth}_{scope.count()}_"
         scope.define(name if name else symbol.name, symbol)
 
     def get_type_sym_or_err(self, type_id: str) -> Type:
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 97ac249..bc8e5cd 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -781,6 +781,26 @@ class ByteGen:
 
     def gen_iguala(self, node: ast.Iguala):
         self.gen_iguala_from_ir(node, node.ir.tree)
+    def gen_escolha(self, node: ast.Escolha):
+        after_escolha = self.new_label()
+        # The value is evaluated only once
+        self.gen(node.expression)
+        value = len(self.func_locals)
+        self.func_locals[f"_valor{value}_"] = value
+        self.append_op(OpCode.SET_LOCAL, value)
+        for case in node.cases:
+            after_case = self.new_label()
+            self.gen(case.expression)
+            self.append_op(OpCode.GET_LOCAL, value)
+            self.append_op(OpCode.OP_EQ)
+            self.append_op(OpCode.JUMP_IF_FALSE, after_case)
+            self.compile_block(case.block)
+            self.append_op(OpCode.JUMP, after_escolha)
+            self.patch_label_loc(after_case)
+        if node.default_case:
+            self.compile_block(node.default_case)
+        self.patch_label_loc(after_escolha)
+
 
     def gen_iguala_from_ir(self, node: ast.Iguala, decision: Decision):
         match decision:
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index 3e1af63..929d267 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -65,48 +65,6 @@ class ASTTransformer:
         if node.of_type(ast.Converta):
             return node
 
-    def transform_escolha(self, node: ast.Escolha) -> ast.ASTNode:
-        token = node.token
-        new_token = lambda tt, lexeme: Token(tt, lexeme, token.line, token.col)
-        equality_op = lambda left, right: ast.BinOp(
-            new_token(TT.DOUBLEEQUAL, "=="),
-            left=left,
-            right=right,
-            ty=Builtins.Bool,
-        )
-        # check node
-        # transform node into ifs
-        expr = node.expression
-        # let
-        se_node = ast.Se(token, None, None, elsif_branches=[], else_branch=None)
-        if not node.cases and not node.default_case:
-            return ast.NoOp()
-        elif not node.cases and node.default_case:
-            se_node.condition = ast.Constant(
-                new_token(TT.VERDADEIRO, "verdadeiro")
-            )
-            se_node.then_branch = node.default_case
-            return se_node
-        else:
-            first_case = node.cases[0]
-            del node.cases[0]
-            se_node.condition = equality_op(
-                left=first_case.expression,
-                right=node.expression,
-            )
-            se_node.then_branch = first_case.block
-            se_node.else_branch = node.default_case
-            for case in node.cases:
-                se_node.elsif_branches.append(
-                    ast.SenaoSe(
-                        token,
-                        equality_op(
-                            left=case.expression, right=node.expression
-                        ),
-                        case.block,
-                    )
-                )
-            return se_node
 
     def _is_option(self, ty: Type) -> bool:
         return ty.is_constructed_from(SrcBuiltins.Opcao)
-- 
2.43.0


From 0a3944041dc33dfc1a105b278160708e35a16018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 20/58] fix: place the errors of loops that span many lines on
 their own lines

---
 amanda/compiler/codegen.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index bc8e5cd..df5737a 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -198,9 +198,10 @@ class ByteGen:
         self.assigned_locals: dict[ast.ASTNode, int] = {}
         self.ctx_loop_start: int = -1
         self.ctx_loop_exit: int = -1
-        self.src_map: dict[int, list[int]] = (
-            {}
-        )  # Maps source lines to bytecode offset
+        # Maps consecutive bytecode offsets to the source line they come from
+        # Each element has the first offset, the last one and the line
+        self.src_map: list[list[int]] = []
+        self.outer_scopes: list[symbols.Scope] = []
         self.modules: dict[str, int] = {}
 
     def compile_builtin(self, raw: bool = True) -> bytes | dict:
@@ -277,18 +278,10 @@ class ByteGen:
         ops.close()
 
         src_map = []
-        for lineno, offsets in self.src_map.items():
+        for start, end, lineno in self.src_map:
             if lineno == 0:
                 continue
-            # Offset array must contain start and end
-            # If it only contains one value, start == end
-            if len(offsets) == 1:
-                offsets.append(offsets[0])
-            assert (
-                len(offsets) == 2
-            ), f"Found line with offset != 2: {(lineno, offsets)}"
-            offsets.append(lineno)
-            src_map.extend(offsets)
+            src_map.extend([start, end, lineno])
         module = {
             "name": path.split(self.ctx_module.fpath)[1].replace(".ama", ""),
             "builtin": 1 if self.ctx_module.builtin else 0,
@@ -318,14 +311,10 @@ class ByteGen:
         self.labels[label] = self.ip
 
     def append_op(self, op: OpCode, *args: int):
-        if self.lineno in self.src_map:
-            offsets = self.src_map[self.lineno]
-            if len(offsets) < 2:
-                offsets.append(self.ip)
-            elif offsets[-1] < self.ip:
-                offsets[-1] = self.ip
+        if self.src_map and self.src_map[-1][2] == self.lineno:
+            self.src_map[-1][1] = self.ip
         else:
-            self.src_map[self.lineno] = [self.ip]
+            self.src_map.append([self.ip, self.ip, self.lineno])
         self.ip += op.op_size() // OP_SIZE
         self.ops.append((op, args))
 
@@ -775,6 +764,7 @@ class ByteGen:
 
         # END LOOP
         self.patch_label_loc(after_loop)
+        self.lineno = node.lineno
         self.exit_block()
         self.ctx_loop_start = loop_start_state
         self.ctx_loop_exit = loop_exit_state
-- 
2.43.0


From 10d1d10f52658c3573fbd276f5a6977df0623de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 21/58] fix: discard the values of expression statements, and
 compile iguala expressions with nested patterns and default cases

---
 amanda/compiler/codegen.py | 100 +++++++++++++++++++++----------------
 amanda/vm/src/opcode.rs    |   4 +-
 amanda/vm/src/vm.rs        |   3 ++
 3 files changed, 62 insertions(+), 45 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index df5737a..d319a2a 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -122,6 +122,8 @@ class OpCode(Enum):
     BIND_MATCH_ARGS = auto()
     # Checks if the variant at TOS is has the integer tag specified by the 64-bit argument.
     MATCH_VARIANT = auto()
+    # Discards TOS.
+    POP = auto()
     # Stops execution of the VM. Must always be added to stop execution of the vm
     HALT = 0xFF
 
@@ -130,7 +132,7 @@ class OpCode(Enum):
         # uses
         num_ops = len(list(OpCode))
         assert (
-            num_ops == 43
+            num_ops == 44
         ), f"Please update the size of ops after adding a new Op. New size: {num_ops}"
         match self:
             case (
@@ -261,6 +263,7 @@ class ByteGen:
                 continue
             compiler = ByteGen(mod)
             compiler.modules = self.modules
+            compiler.uniao_variants = self.uniao_variants
             module_out = compiler.compile({}, raw=False)
             compiled_imports.append(module_out)
             mod.compiled = True
@@ -430,23 +433,35 @@ class ByteGen:
 
     def enter_block(self, scope):
         self.depth += 1
+        self.outer_scopes.append(self.scope_symtab)
         self.scope_symtab = scope
 
     def exit_block(self):
         self.depth -= 1
-        self.scope_symtab = self.scope_symtab.enclosing_scope
-        num_locals = len(self.func_locals)
+        self.scope_symtab = self.outer_scopes.pop()
 
     def compile_block(self, node):
         self.enter_block(node.symbols)
-        for child in node.children:
-            self.gen(child)
+        self.gen_statements(node.children)
         self.exit_block()
 
+    def gen_statements(self, nodes: list[ast.ASTNode]):
+        for node in nodes:
+            self.gen(node)
+            # Nothing uses the value of an expression statement
+            if isinstance(node, ast.Expr) and not self.is_assignment(node):
+                self.append_op(OpCode.POP)
+
     def gen_yieldblock(self, node: ast.YieldBlock):
+        # Always leaves a value on the stack
         self.enter_block(node.symbols)
-        for child in node.children:
-            self.gen(child)
+        *children, last = node.children or [None]
+        self.gen_statements(children)
+        if isinstance(last, ast.Produz):
+            self.gen(last)
+        else:
+            self.gen_statements([last] if last else [])
+            self.load_const("falso")
         self.exit_block()
 
     def get_variant_index(self, variant: Variant) -> int:
@@ -515,8 +530,7 @@ class ByteGen:
             raise ValueError("Symbol should have been resolved before codegen!")
         match symbol:
             case Variant():
-                tag = self.uniao_variants[symbol.variant_id()]
-                self.load_const(tag)
+                self.load_const(self.get_variant_index(symbol))
                 if not symbol.is_callable():
                     # No args means we can generate the code for creating the variant here
                     self.append_op(OpCode.BUILD_VARIANT, 0)
@@ -557,9 +571,9 @@ class ByteGen:
             self.append_op(OpCode.SET_LOCAL, self.func_locals[local])
 
     def declare_local(self, symbol: Symbol) -> int:
-        idx = len(self.func_locals)
-        self.func_locals[symbol.out_id] = idx
-        return idx
+        return self.func_locals.setdefault(
+            symbol.out_id, len(self.func_locals)
+        )
 
     def gen_assigned_value(self, node: ast.Expr, expr: ast.Expr):
         """Generates the value that 'node', an assignment, stores.
@@ -707,8 +721,7 @@ class ByteGen:
         self.gen(node.condition)
         self.append_op(OpCode.JUMP_IF_FALSE, after_loop)
         # Block
-        for child in block.children:
-            self.gen(child)
+        self.gen_statements(block.children)
         self.append_op(OpCode.JUMP, loop)
         # END LOOP
         self.patch_label_loc(after_loop)
@@ -749,9 +762,9 @@ class ByteGen:
         self.append_op(OpCode.OP_LESS)
         self.append_op(OpCode.JUMP_IF_FALSE, after_loop)
         # Body
-        for child in block.children:
-            self.gen(child)
+        self.gen_statements(block.children)
         # update: control_var += inc
+        self.lineno = node.lineno
         self.patch_label_loc(update)
         if not range_expr.inc:
             self.load_const(1)
@@ -764,13 +777,10 @@ class ByteGen:
 
         # END LOOP
         self.patch_label_loc(after_loop)
-        self.lineno = node.lineno
         self.exit_block()
         self.ctx_loop_start = loop_start_state
         self.ctx_loop_exit = loop_exit_state
 
-    def gen_iguala(self, node: ast.Iguala):
-        self.gen_iguala_from_ir(node, node.ir.tree)
     def gen_escolha(self, node: ast.Escolha):
         after_escolha = self.new_label()
         # The value is evaluated only once
@@ -791,6 +801,12 @@ class ByteGen:
             self.compile_block(node.default_case)
         self.patch_label_loc(after_escolha)
 
+    def gen_iguala(self, node: ast.Iguala):
+        binding = unwrap(node.target_binding)
+        if getattr(node.target, "var_symbol", None) is not binding:
+            self.gen(node.target)
+            self.set_variable(binding)
+        self.gen_iguala_from_ir(node, node.ir.tree)
 
     def gen_iguala_from_ir(self, node: ast.Iguala, decision: Decision):
         match decision:
@@ -801,8 +817,8 @@ class ByteGen:
                         unwrap(unwrap(body.value.symbols).resolve(name))
                     )
                 self.gen(body.value)
-            case DSwitch(variable=var, cases=cases):
-                self.gen_iguala_cases(node, var, cases)
+            case DSwitch(variable=var, cases=cases, fallback=fallback):
+                self.gen_iguala_cases(node, var, cases, fallback)
             case _:
                 unreachable("Invalid decision node")
         pass
@@ -817,44 +833,37 @@ class ByteGen:
                 self.append_op(OpCode.OP_EQ)
             case VariantCons(tag=tag, uniao=uniao):
                 variant = uniao.variant_by_tag(tag)
-                # TODO: Fix this please!!!
-                idx = self.uniao_variants[variant.variant_id()]
-                self.append_op(OpCode.MATCH_VARIANT, idx)
+                self.append_op(
+                    OpCode.MATCH_VARIANT, self.get_variant_index(variant)
+                )
             case _:
                 unreachable("Unknown constructor")
 
     def gen_iguala_case_bindings(self, var: symbols.VariableSymbol, case: Case):
-        self.load_variable(var)
         match case.constructor:
-            case VariantCons(name=name):
+            case VariantCons():
                 cargs = case.arguments
                 if not cargs:
                     return
+                self.load_variable(var)
                 for arg in cargs:
                     # Declare local and push local index into stack
                     idx = self.declare_local(arg)
                     self.load_const(idx)
                 self.append_op(OpCode.BIND_MATCH_ARGS, len(cargs))
-            case x:
+            case _:
                 pass
 
     def gen_iguala_cases(
-        self, node: ast.Iguala, var: symbols.VariableSymbol, cases: list[Case]
+        self,
+        node: ast.Iguala,
+        var: symbols.VariableSymbol,
+        cases: list[Case],
+        fallback: Decision | None,
     ):
         after_if = self.new_label()
-        after_block = self.new_label()
-
-        first_case = cases[0]
-        # Generate test
-        self.gen_iguala_test(var, first_case.constructor)
-        self.append_op(OpCode.JUMP_IF_FALSE, after_block)
 
-        self.gen_iguala_case_bindings(var, first_case)
-        self.gen_iguala_from_ir(node, first_case.body)
-        self.append_op(OpCode.JUMP, after_if)
-        self.patch_label_loc(after_block)
-
-        for case in cases[1:]:
+        for case in cases:
             after_elsif = self.new_label()
             self.gen_iguala_test(var, case.constructor)
             self.append_op(OpCode.JUMP_IF_FALSE, after_elsif)
@@ -864,6 +873,12 @@ class ByteGen:
             self.append_op(OpCode.JUMP, after_if)
             self.patch_label_loc(after_elsif)
 
+        if fallback:
+            self.gen_iguala_from_ir(node, fallback)
+        else:
+            # One of the cases always matches, but the other paths leave a value
+            self.load_const("falso")
+
         self.patch_label_loc(after_if)
 
     def gen_functiondecl(self, node: ast.FunctionDecl):
@@ -886,10 +901,7 @@ class ByteGen:
             self.func_locals[local] = idx
 
         if not func_symbol.is_builtin():
-            self.enter_block(block.symbols)
-            for child in block.children:
-                self.gen(child)
-            self.exit_block()
+            self.compile_block(block)
 
         # default return
         self.load_const("falso")
diff --git a/amanda/vm/src/opcode.rs b/amanda/vm/src/opcode.rs
index 7bb0f8d..2d6e9bc 100644
--- a/amanda/vm/src/opcode.rs
+++ b/amanda/vm/src/opcode.rs
@@ -45,12 +45,13 @@ pub enum OpCode {
     BuildVariant,
     BindMatchArgs,
     MatchVariant,
+    Pop,
     Halt = 255,
 }
 
 impl From<&u8> for OpCode {
     fn from(number: &u8) -> Self {
-        let ops: [OpCode; 42] = [
+        let ops: [OpCode; 43] = [
             OpCode::Mostra,
             OpCode::LoadConst,
             OpCode::LoadName,
@@ -93,6 +94,7 @@ impl From<&u8> for OpCode {
             OpCode::BuildVariant,
             OpCode::BindMatchArgs,
             OpCode::MatchVariant,
+            OpCode::Pop,
         ];
         if *number == 0xff {
             OpCode::Halt
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index f29b003..3efc5c2 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -543,6 +543,9 @@ impl<'a> AmaVM<'a> {
                         self.op_push(val);
                     }
                 }
+                OpCode::Pop => {
+                    self.op_pop();
+                }
                 OpCode::Halt => break,
             }
             self.frames.peek_mut().ip += 1;
-- 
2.43.0


From a15c4241e78e8c2862367b478242484e2b1769a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 22/58] fix: check the patterns of iguala completely and its
 blocks once

---
 amanda/compiler/check/checker.py        |  1 +
 amanda/compiler/check/core.py           | 13 +++--
 amanda/compiler/check/exhaustiveness.py | 39 +++++--------
 amanda/compiler/check/iguala.py         | 76 +++++++++++++------------
 amanda/compiler/error.py                |  4 ++
 amanda/compiler/parse.py                |  2 +-
 amanda/compiler/symbols/core.py         | 10 +++-
 7 files changed, 76 insertions(+), 69 deletions(-)

diff --git a/amanda/compiler/check/checker.py b/amanda/compiler/check/checker.py
index 2af058c..61ad9de 100644
--- a/amanda/compiler/check/checker.py
+++ b/amanda/compiler/check/checker.py
@@ -17,6 +17,7 @@ class Checker(Protocol):
     scope_depth: int
 
     def get_generic_params(self, node: ASTNode) -> set[TypeVar]: ...
+    def check_int_literal(self, token: Token): ...
     def error(self, code, **kwargs) -> NoReturn: ...
     def error_with_loc(self, loc_tok: Token, code, **kwargs) -> NoReturn: ...
     def enter_ty_ctx(self, scope: symbols.Scope): ...
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 59ca13d..9926b82 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -834,11 +834,7 @@ class Analyzer(ast.Visitor):
         scope = self.ctx_scope
         if constant == TT.INTEGER:
             node.eval_type = scope.resolve("int")
-            int_value = int(node.token.lexeme)
-            if int_value > MAX_AMA_INT:
-                self.error(
-                    f"Número inteiro demasiado grande. Só pode usar números inteiros iguais ou menores que '{MAX_AMA_INT}'"
-                )
+            self.check_int_literal(node.token)
         elif constant == TT.REAL:
             node.eval_type = Builtins.Real
         elif constant == TT.STRING:
@@ -848,6 +844,13 @@ class Analyzer(ast.Visitor):
         elif constant == TT.NULO:
             node.eval_type = Builtins.Nulo
 
+    def check_int_literal(self, token: Token):
+        int_value = int(token.lexeme)
+        if int_value > MAX_AMA_INT:
+            self.error(
+                f"Número inteiro demasiado grande. Só pode usar números inteiros iguais ou menores que '{MAX_AMA_INT}'"
+            )
+
     def visit_listliteral(self, node):
         elements = node.elements
         list_type = self.get_type(node.list_type)
diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 4e907af..0a92daf 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -53,6 +53,11 @@ class Row:
     guard: int | None
     body: Body
 
+    def copy(self) -> Row:
+        """Copies a row, so that each case can change its own row"""
+        body = Body(list(self.body.bindings), self.body.value)
+        return Row(list(self.columns), self.guard, body)
+
     def remove_column(self, variable: VariableSymbol) -> Column | None:
         try:
             idx = list(map(lambda c: c.variable, self.columns)).index(variable)
@@ -210,7 +215,7 @@ class Match:
                             terms.append(
                                 Term(var, "true" if val == 1 else "false", [])
                             )
-                        case IntCons():
+                        case IntCons() | StrCons():
                             terms.append(Term(var, "_", []))
                         case VariantCons(name=name):
                             args = case.arguments
@@ -224,21 +229,6 @@ class Match:
                 if node := fallback:
                     self.add_missing_patterns(node, terms, missing)
 
-    def declare_block_symbols(self):
-        self._declare_block_symbols(self.tree)
-
-    def _declare_block_symbols(self, tree: Decision):
-        match tree:
-            case DSuccess(body):
-                for name, var in body.bindings:
-                    unwrap(body.value.symbols).define(
-                        name, VariableSymbol(name, var.type, var.module)
-                    )
-            case DSwitch(cases=cases):
-                for case in cases:
-                    self._declare_block_symbols(case.body)
-            case _:
-                pass
 
 
 @dataclass
@@ -354,18 +344,19 @@ class IgualaCompiler:
                     case _:
                         raise NotImplementedError("Invalid pattern")
 
-                if index := tested.get(key):
-                    raw_cases[index][2].append(row)
+                if key in tested:
+                    raw_cases[tested[key]][2].append(row)
                     continue
 
+                # Keep the order of the rows, the first that matches wins
                 tested[key] = len(raw_cases)
-                raw_cases.append((cons, [], [row]))
+                case_rows = [row.copy() for row in fallback_rows]
+                raw_cases.append((cons, [], [*case_rows, row]))
             else:
+                for _, _, case_rows in raw_cases:
+                    case_rows.append(row.copy())
                 fallback_rows.append(row)
 
-        for _, _, rows in raw_cases:
-            rows.extend(fallback_rows)
-
         cases = list(
             map(
                 lambda case: Case(
@@ -419,8 +410,8 @@ class IgualaCompiler:
                         cols.append(Column(var, pat))
                     cases[idx][2].append(Row(cols, row.guard, row.body))
             else:
-                for _, _, rows in cases:
-                    rows.append(row)
+                for _, _, case_rows in cases:
+                    case_rows.append(row.copy())
 
         return list(
             map(
diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 2826a1f..4210a08 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -60,12 +60,15 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
                 iguala.token,
                 Errors.NON_EXHAUSTIVE_PATTERN_MATCH_INFINITE,
             )
-    # Validate reachable blocks
-    tree.declare_block_symbols()
-    first_block = tree.diagnostics.reachable[0]
+    # Validate each block once, although the tree may reach it in many ways.
+    # The names bound by the patterns are already part of their scopes
+    blocks = {id(block): block for block in tree.diagnostics.reachable}
+    for arm in iguala.arms:
+        blocks.setdefault(id(arm.body), arm.body)
+    first_block, *other_blocks = blocks.values()
     checker.visit(first_block)
     iguala.eval_type = first_block.eval_type
-    for block in tree.diagnostics.reachable[1:]:
+    for block in other_blocks:
         checker.visit(block)
         if block.eval_type != iguala.eval_type:
             checker.error(
@@ -80,7 +83,6 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
 def check_binding_pattern(
     checker: Checker, arm: ast.IgualaArm, target_ty: Type, var: ast.Variable
 ):
-    arm.pattern.eval_type = target_ty
     scope = tycheck.unwrap(arm.body.symbols)
     var_name = var.token.lexeme
     if var_name in scope.symbols:
@@ -94,53 +96,55 @@ def check_binding_pattern(
     )
 
 
-def check_pattern(checker: Checker, arm: ast.IgualaArm, target_ty: Type):
-    match arm.pattern:
+def check_pattern(
+    checker: Checker,
+    arm: ast.IgualaArm,
+    pattern: ast.Pattern,
+    target_ty: Type,
+):
+    match pattern:
         case ast.ADTPattern(adt, args):
             checker.visit(adt)
-            sym = tycheck.unwrap(
-                adt.symbol if isinstance(adt, ast.Path) else adt.var_symbol
-            )
-            match sym:
-                case Variant(params=params):
-                    if not sym.is_callable() and args:
-                        checker.error(
-                            Errors.VARIANT_TAKES_NO_ARGS,
-                            variant=sym.qualified_name(),
-                        )
-                    for pattern, ty in zip(args, params):
-                        match pattern:
-                            case ast.BindingPattern(var=var):
-                                check_binding_pattern(checker, arm, ty, var)
-                            case ast.IntPattern():
-                                pattern.eval_type = Builtins.Int
-                            case ast.StrPattern():
-                                pattern.eval_type = Builtins.Texto
-                            case _:
-                                tycheck.unreachable("unknown subpattern")
-                case _:
-                    tycheck.unreachable("Unhandled ADT sym")
-            arm.pattern.eval_type = sym.uniao
-            arm.pattern.cons = VariantCons(
+            sym = adt.symbol if isinstance(adt, ast.Path) else adt.var_symbol
+            if not isinstance(sym, Variant):
+                checker.error(Errors.PATTERN_NOT_A_VARIANT, name=sym.name)
+            pattern.eval_type = sym.uniao
+            if not sym.is_callable() and args:
+                checker.error(
+                    Errors.VARIANT_TAKES_NO_ARGS,
+                    variant=sym.qualified_name(),
+                )
+            if len(args) != len(sym.params):
+                checker.error(
+                    Errors.PATTERN_BAD_ARITY,
+                    variant=sym.qualified_name(),
+                    expected=len(sym.params),
+                    received=len(args),
+                )
+            for subpattern, ty in zip(args, sym.params):
+                check_pattern(checker, arm, subpattern, ty)
+            pattern.cons = VariantCons(
                 sym.tag, sym.uniao, sym.qualified_name(), sym.params
             )
         case ast.IntPattern():
-            arm.pattern.eval_type = Builtins.Int
+            checker.check_int_literal(pattern.val)
+            pattern.eval_type = Builtins.Int
         case ast.StrPattern():
-            arm.pattern.eval_type = Builtins.Texto
+            pattern.eval_type = Builtins.Texto
         case ast.BindingPattern(var=var):
+            pattern.eval_type = target_ty
             check_binding_pattern(checker, arm, target_ty, var)
         case _:
             tycheck.unreachable("Unhandled pattern type")
-    if arm.pattern.eval_type != target_ty:
+    if pattern.eval_type != target_ty:
         checker.error(
             Errors.INVALID_PATTERN_TYPE,
             expected=target_ty,
-            received=arm.pattern.eval_type,
+            received=pattern.eval_type,
         )
 
 
 def check_arm(checker: Checker, iguala: ast.Iguala, arm: ast.IgualaArm):
     # 1. Check pattern
     arm.body.symbols = symbols.Scope(checker.ctx_scope)
-    check_pattern(checker, arm, iguala.target.eval_type)
+    check_pattern(checker, arm, arm.pattern, iguala.target.eval_type)
diff --git a/amanda/compiler/error.py b/amanda/compiler/error.py
index 0f466ff..43102f7 100644
--- a/amanda/compiler/error.py
+++ b/amanda/compiler/error.py
@@ -13,6 +13,10 @@ class Errors:
     BINDING_ALREADY_IN_USE = (
         "Padrão inválido. A variável '{var}' já foi utilizada neste padrão"
     )
+    PATTERN_NOT_A_VARIANT = (
+        "Padrão inválido. O identificador '{name}' não é uma variante"
+    )
+    PATTERN_BAD_ARITY = "Padrão inválido. A variante '{variant}' espera {expected} argumento(s), porém recebeu {received}"
     INVALID_PATTERN_ARG = "Argumento {n} do padrão inválido. Esperava-se um argumento do tipo '{param_type}' mas recebeu o tipo '{eval_type}'"
     INVALID_PATTERN_TYPE = "Padrão inválido. Esperava-se um padrão do tipo '{expected}' mas utilizou-se um do tipo '{received}'"
     NON_EXHAUSTIVE_PATTERN_MATCH_FINITE = "A instrução iguala deve especificar alternativas para todos os valores possíveis do tipo '{ty}'. Padrões em falta: \n{missing_patterns}"
diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index b6d1daf..47a6742 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -857,7 +857,7 @@ class Parser:
                     case TT.STRING:
                         return ast.StrPattern(token)
                     case _:
-                        unreachable("Unhandled constant pattern")
+                        self.error("Padrão inválido")
             case _:
                 self.error("Padrão inválido")
 
diff --git a/amanda/compiler/symbols/core.py b/amanda/compiler/symbols/core.py
index b1bf62b..24bb35e 100644
--- a/amanda/compiler/symbols/core.py
+++ b/amanda/compiler/symbols/core.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 from dataclasses import dataclass
+from itertools import count
 from typing import Optional, Dict, cast, Any
 from amanda.compiler.module import Module
 from amanda.compiler.symbols.base import Symbol, TypeVar, Typed, Type
@@ -119,6 +120,10 @@ class MethodSym(FunctionSymbol):
         )
 
 
+# Numbers the variables that are created by the compiler
+unique_vars = count()
+
+
 class Scope:
     def __init__(self, enclosing_scope: Optional[Scope] = None):
         self.symbols: dict[str, Symbol] = {}
@@ -173,9 +178,8 @@ class Scope:
         return len(self.symbols)
 
     def new_unique_var(self, type: Type, module: Module) -> VariableSymbol:
-        symbol = VariableSymbol(f"_r{self.count()}_", type, module)
-        self.define(symbol.name, symbol)
-        return symbol
+        # Nothing in the source refers to the variable, so it's not defined
+        return VariableSymbol(f"_u{next(unique_vars)}_", type, module)
 
     def __str__(self) -> str:
         symbols = [
-- 
2.43.0


From ff0d401d8a63dff471208e950cce9c51d93aa576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 23/58] fix: give each row of a vector with many dimensions its
 own rows

---
 amanda/vm/src/modules/builtins/embutidos.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index 841102d..5da1f49 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -113,9 +113,11 @@ fn build_vec<'a>(
         if size == 0 {
             Vec::with_capacity(0)
         } else {
-            let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc);
-            let mut container = Vec::with_capacity(inner.len());
-            container.resize_with(size, || (AmaValue::Vector(alloc.alloc_ref(inner.clone()))));
+            let mut container = Vec::with_capacity(size);
+            for _ in 0..size {
+                let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc);
+                container.push(AmaValue::Vector(alloc.alloc_ref(inner)));
+            }
             container
         }
     }
-- 
2.43.0


From d97951460ac2134adfe2ba34dc8bfdafffff4217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 24/58] fix: read the last line of the input and report input
 that cannot be read

---
 amanda/vm/src/modules/builtins/embutidos.rs | 44 +++++++--------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index 5da1f49..39a2245 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -29,44 +29,30 @@ fn leia<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
     escreva(args, alloc)?;
 
     let mut input = String::from("");
-    //TODO: Propagate possible errors to caller
-    io::stdin().read_line(&mut input).unwrap();
-    //Remove newline at the end
-    debug_assert!(
-        input.remove(input.len() - 1) == 0xA as char,
-        "Removing wrong char"
-    );
+    if io::stdin().read_line(&mut input).is_err() {
+        return Err("Não foi possível ler o valor introduzido".to_string());
+    }
+    //Remove newline at the end. The last line may not have one
+    if input.ends_with('\n') {
+        input.pop();
+    }
 
     Ok(AmaValue::Str(Cow::Owned(input)))
 }
 
 fn leia_int<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
-    let input = leia(args, alloc);
-    if input.is_ok() {
-        //TODO: Propagate possible errors to caller
-        let maybe_int = input.unwrap().take_str().parse::<i64>();
-        if let Err(_) = maybe_int {
-            Err("Valor introduzido não é um inteiro válido".to_string())
-        } else {
-            Ok(AmaValue::Int(maybe_int.unwrap()))
-        }
-    } else {
-        unreachable!()
+    let input = leia(args, alloc)?;
+    match input.take_str().parse::<i64>() {
+        Err(_) => Err("Valor introduzido não é um inteiro válido".to_string()),
+        Ok(int) => Ok(AmaValue::Int(int)),
     }
 }
 
 fn leia_real<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
-    let input = leia(args, alloc);
-    if input.is_ok() {
-        //TODO: Propagate possible errors to caller
-        let maybe_double = input.unwrap().take_str().parse::<f64>();
-        if let Err(_) = maybe_double {
-            Err("Valor introduzido não é um número real válido".to_string())
-        } else {
-            Ok(AmaValue::F64(maybe_double.unwrap()))
-        }
-    } else {
-        unreachable!()
+    let input = leia(args, alloc)?;
+    match input.take_str().parse::<f64>() {
+        Err(_) => Err("Valor introduzido não é um número real válido".to_string()),
+        Ok(double) => Ok(AmaValue::F64(double)),
     }
 }
 
-- 
2.43.0


From b68612cb92131ab48814b28cfca9d7b7a9adaef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 25/58] fix: compare records, variants, null and values of
 different kinds, and display a vector inside itself

---
 amanda/vm/src/ama_value.rs | 49 +++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index a56d77d..dd655d2 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -42,17 +42,6 @@ macro_rules! comp_ops {
     };
 }
 
-macro_rules! eq_ops {
-    ($res_type: ident, $left: ident, $op: tt, $right: ident) => {
-        Ok(match $res_type {
-            Type::Int => AmaValue::Bool($left.take_int() $op $right.take_int()),
-            Type::Real => AmaValue::Bool($left.take_float() $op $right.take_float()),
-            Type::Bool => AmaValue::Bool($left.take_bool() $op $right.take_bool()),
-            Type::Texto => AmaValue::Bool($left.take_str() $op $right.take_str()),
-            _ => unimplemented!("Operand type not supported"),
-        })
-    };
-}
 
 macro_rules! is_fn {
     ($fn_name: ident, $to_match: path) => {
@@ -181,11 +170,33 @@ impl<'a> AmaValue<'a> {
         } else if left.is_int() && right.is_int() {
             Type::Int
         } else if left.is_bool() && right.is_bool() {
+    //Values of different kinds are never equal. Records and vectors are only equal to themselves.
+    fn equals(&self, other: &Self) -> bool {
+        match (self, other) {
+            (AmaValue::Int(left), AmaValue::Int(right)) => left == right,
+            (AmaValue::Int(_) | AmaValue::F64(_), AmaValue::Int(_) | AmaValue::F64(_)) => {
+                self.take_float() == other.take_float()
+            }
+            (AmaValue::Bool(left), AmaValue::Bool(right)) => left == right,
+            (AmaValue::Str(left), AmaValue::Str(right)) => left == right,
+            (AmaValue::None, AmaValue::None) => true,
+            (AmaValue::RegObj(left), AmaValue::RegObj(right)) => Rc::ptr_eq(left, right),
+            (AmaValue::Vector(left), AmaValue::Vector(right)) => Rc::ptr_eq(left, right),
+            (AmaValue::Variant(left, left_args), AmaValue::Variant(right, right_args)) => {
+                left == right && left_args == right_args
+            }
+            _ => false,
+        }
+    }
+
             Type::Bool
+        match op {
+            OpCode::OpEq => return Ok(AmaValue::Bool(left.equals(right))),
+            OpCode::OpNotEq => return Ok(AmaValue::Bool(!left.equals(right))),
+            _ => {}
+        }
         } else if left.is_str() && right.is_str() {
             Type::Texto
-        } else if left.is_none() && right.is_str() {
-            Type::Texto
         } else {
             unimplemented!("Error is not implemented")
         };
@@ -217,8 +228,6 @@ impl<'a> AmaValue<'a> {
             }
             OpCode::OpAnd => Ok(AmaValue::Bool(left.take_bool() && right.take_bool())),
             OpCode::OpOr => Ok(AmaValue::Bool(left.take_bool() || right.take_bool())),
-            OpCode::OpEq => eq_ops!(res_type, left, ==, right),
-            OpCode::OpNotEq => eq_ops!(res_type, left, !=,  right),
             OpCode::OpGreater => comp_ops!(res_type, left, >, right),
             OpCode::OpGreaterEq => comp_ops!(res_type, left, >=, right),
             OpCode::OpLess => comp_ops!(res_type, left, <, right),
@@ -267,7 +276,11 @@ impl Display for AmaValue<'_> {
                 write!(f, "{}", val_str)
             }
             AmaValue::Vector(vec) => {
-                let vec = vec.borrow();
+                //Already being displayed if the vector is one of its own elements
+                let vec = match vec.try_borrow_mut() {
+                    Ok(vec) => vec,
+                    Err(_) => return write!(f, "[...]"),
+                };
                 let mut res = String::new();
                 write!(res, "[").unwrap();
                 vec.iter().enumerate().for_each(|(i, val)| {
@@ -349,9 +362,7 @@ pub fn cast<'a>(value: &AmaValue, target: Type) -> Result<AmaValue<'a>, String>
 
 impl<'a> PartialEq for AmaValue<'a> {
     fn eq(&self, other: &Self) -> bool {
-        AmaValue::binop(self, OpCode::OpEq, other)
-            .unwrap()
-            .take_bool()
+        self.equals(other)
     }
 }
 
-- 
2.43.0


From c37fe8ef276fb7faa9801ba44b4864811190ba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 26/58] fix: report the overflow of a negation, and invalid
 conversions of null, records and variants

---
 amanda/vm/src/ama_value.rs      | 22 ++++++++++++++--------
 amanda/vm/src/values/amatype.rs |  6 ++++++
 amanda/vm/src/vm.rs             |  5 ++++-
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index dd655d2..05e6adc 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -15,6 +15,9 @@ use std::rc::Rc;
 
 pub type RcCell<T> = Rc<RefCell<T>>;
 
+pub const INT_OVERFLOW: &str =
+    "Erro ao realizar operação aritmética. Resultado fora do intervalo de inteiros representáveis";
+
 macro_rules! arith_ops {
     ($res_type: ident, $left: ident, $op:tt, $op_fn: ident, $right: ident) => {
         match $res_type {
@@ -24,7 +27,7 @@ macro_rules! arith_ops {
                     if let Some(int) = result {
                         Ok(AmaValue::Int(int))
                     } else {
-                        Err("Erro ao realizar operação aritmética. Resultado fora do intervalo de inteiros representáveis")
+                        Err(INT_OVERFLOW)
                     }
                 }
             _ => unimplemented!("Operand type not supported"),
@@ -80,6 +83,9 @@ impl<'a> AmaValue<'a> {
             AmaValue::F64(_) => Type::Real,
             AmaValue::Bool(_) => Type::Bool,
             AmaValue::Vector(_) => Type::Vector,
+            AmaValue::None => Type::Nulo,
+            AmaValue::RegObj(_) => Type::Registo,
+            AmaValue::Variant(_, _) => Type::Uniao,
             _ => unimplemented!("Cannot return type for this value: {:?}", self),
         }
     }
@@ -164,12 +170,6 @@ impl<'a> AmaValue<'a> {
         Ok(())
     }
 
-    pub fn binop(left: &Self, op: OpCode, right: &Self) -> Result<Self, &'a str> {
-        let res_type = if left.is_float() || right.is_float() {
-            Type::Real
-        } else if left.is_int() && right.is_int() {
-            Type::Int
-        } else if left.is_bool() && right.is_bool() {
     //Values of different kinds are never equal. Records and vectors are only equal to themselves.
     fn equals(&self, other: &Self) -> bool {
         match (self, other) {
@@ -189,12 +189,18 @@ impl<'a> AmaValue<'a> {
         }
     }
 
-            Type::Bool
+    pub fn binop(left: &Self, op: OpCode, right: &Self) -> Result<Self, &'a str> {
         match op {
             OpCode::OpEq => return Ok(AmaValue::Bool(left.equals(right))),
             OpCode::OpNotEq => return Ok(AmaValue::Bool(!left.equals(right))),
             _ => {}
         }
+        let res_type = if left.is_float() || right.is_float() {
+            Type::Real
+        } else if left.is_int() && right.is_int() {
+            Type::Int
+        } else if left.is_bool() && right.is_bool() {
+            Type::Bool
         } else if left.is_str() && right.is_str() {
             Type::Texto
         } else {
diff --git a/amanda/vm/src/values/amatype.rs b/amanda/vm/src/values/amatype.rs
index abe3451..0908b44 100644
--- a/amanda/vm/src/values/amatype.rs
+++ b/amanda/vm/src/values/amatype.rs
@@ -7,6 +7,9 @@ pub enum Type {
     Texto,
     Bool,
     Vector,
+    Nulo,
+    Registo,
+    Uniao,
 }
 
 impl Type {
@@ -17,6 +20,9 @@ impl Type {
             Type::Texto => "texto",
             Type::Bool => "bool",
             Type::Vector => "Vector",
+            Type::Nulo => "nulo",
+            Type::Registo => "Registo",
+            Type::Uniao => "Uniao",
         }
     }
 }
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 3efc5c2..6c4893e 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -247,7 +247,10 @@ impl<'a> AmaVM<'a> {
                     let op = OpCode::from(&op);
                     if let OpCode::OpInvert = op {
                         match operand {
-                            AmaValue::Int(num) => self.op_push(AmaValue::Int(-num)), 
+                            AmaValue::Int(num) => match num.checked_neg() {
+                                Some(result) => self.op_push(AmaValue::Int(result)),
+                                None => return self.panic_and_throw(ama_value::INT_OVERFLOW),
+                            },
                             AmaValue::F64(num) => self.op_push(AmaValue::F64(-num)), 
                             _ => panic!("Fatal error!"),
                         };
-- 
2.43.0


From 3f46313af8ddb559e06568ba93689b870da45118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 27/58] fix: keep module, locals and stack of each call, also
 in imported modules and errors

---
 amanda/vm/src/vm.rs | 64 +++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 6c4893e..eb71924 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -100,10 +100,22 @@ impl<'a> AmaVM<'a> {
         }
     }
 
-    fn init(&mut self, main: AmaFunc<'a>) {
+    fn init(&mut self, mut main: AmaFunc<'a>, module: FuncModule) {
+        //The locals of the module are at the bottom of the stack
+        if self.values.len() < main.locals {
+            self.values.resize(main.locals, AmaValue::None);
+        }
         self.sp = self.values.len() as isize - 1;
+        main.bp = 0;
+        main.module = module;
         self.frames.push(main).unwrap();
-        self.frames.peek_mut().bp = if self.sp > -1 { 0 } else { -1 };
+    }
+
+    fn module_of(&self, func: &AmaFunc<'a>) -> &'a Module<'a> {
+        match func.module {
+            FuncModule::Imported(mod_idx) => &self.imports[mod_idx],
+            FuncModule::Main => self.main_module,
+        }
     }
 
     fn op_push(&mut self, value: AmaValue<'a>) {
@@ -148,9 +160,11 @@ impl<'a> AmaVM<'a> {
     }
 
     fn reserve_stack_space(&mut self, size: usize) {
-        let new_len = self.values.len() + size;
-        self.values.resize(new_len, AmaValue::None);
-        self.sp = self.values.len() as isize - 1;
+        self.sp += size as isize;
+        let min_len = (self.sp + 1) as usize;
+        if self.values.len() < min_len {
+            self.values.resize(min_len, AmaValue::None);
+        }
     }
 
     fn alloc_ref<V>(&mut self, value: V) -> RcCell<V> {
@@ -173,7 +187,11 @@ impl<'a> AmaVM<'a> {
         }
         module.initialize(&self.builtin_defs);
         self.ctx_module = Some(module);
-        self.init(self.ctx_module.unwrap().main);
+        let func_module = match self.imports.iter().position(|import| std::ptr::eq(import, module)) {
+            Some(mod_idx) => FuncModule::Imported(mod_idx),
+            None => FuncModule::Main,
+        };
+        self.init(module.main, func_module);
 
         loop {
             if is_main_module {
@@ -358,22 +376,15 @@ impl<'a> AmaVM<'a> {
                     let fn_val = self.op_pop();
                     match fn_val {
                         AmaValue::Func(mut func) => {
-                            if args > 0 {
-                                func.bp = self.sp - (args - 1);
-                                let extra = func.locals - args as usize;
-                                self.reserve_stack_space(extra);
-                            } else if func.locals > 0 {
-                                func.bp = self.sp + 1;
-                                self.reserve_stack_space(func.locals);
-                            }
+                            func.bp = self.sp - (args - 1);
+                            let extra = func.locals - args as usize;
+                            self.reserve_stack_space(extra);
                             //Set return addr in caller
                             self.frames.peek_mut().ip += 1;
-                            if let FuncModule::Imported(mod_idx) = func.module {
-                                self.ctx_module.replace(&self.imports[mod_idx]);
-                            }
                             if let Err(()) = self.frames.push(func) {
                                 return self.panic_and_throw("Limite máximo de recursão atingido");
                             }
+                            self.ctx_module.replace(self.module_of(&func));
                             continue;
                         }
                         AmaValue::NativeFn(native_fn) => {
@@ -396,16 +407,10 @@ impl<'a> AmaVM<'a> {
                 }
                 OpCode::Return => {
                     let val = self.op_pop();
-                    let frame_bp = self.frames.peek().bp;
-                    self.sp = if frame_bp > -1 { frame_bp - 1 } else { self.sp };
+                    self.sp = self.frames.peek().bp - 1;
                     self.frames.pop().unwrap();
                     self.op_push(val);
-                    let ctx_module = if let FuncModule::Imported(mod_idx) = self.frames.peek().module {
-                        &self.imports[mod_idx]
-                    } else {
-                        self.main_module
-                    };
-                    self.ctx_module.replace(ctx_module);
+                    self.ctx_module.replace(self.module_of(self.frames.peek()));
                     continue;
                 }
                 OpCode::BuildStr => {
@@ -568,18 +573,21 @@ impl<'a> AmaVM<'a> {
         } else {
             String::from("")
         };
-        while let Ok(func) = self.frames.pop() {
+        loop {
+            let func = *self.frames.peek();
+            self.frames.pop().unwrap();
+            let src_map = &self.module_of(&func).src_map;
             if frames_sp == 0 {
                 err_str.push_str(&format!(
                     "Erro na linha {}: {}.",
-                    offset_to_line(func.last_i, &self.ctx_module.unwrap().src_map),
+                    offset_to_line(func.last_i, src_map),
                     error
                 ));
                 break;
             }
             err_str.push_str(&format!(
                 "    Linha {}, na função {}\n",
-                offset_to_line(func.last_i, &self.ctx_module.unwrap().src_map),
+                offset_to_line(func.last_i, src_map),
                 func.name
             ));
             frames_sp = self.frames.sp;
-- 
2.43.0


From b58d02d9e259a4f8b8411a2fd2e13b75ded4e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 28/58] fix: make the definitions of a module visible each time
 it is used, and tell types of different modules apart

---
 amanda/compiler/check/core.py | 27 ++++++++++++++++++++++++---
 amanda/compiler/types/core.py | 12 ++++++++++--
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 9926b82..8c6ac68 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -416,6 +416,19 @@ class Analyzer(ast.Visitor):
             self.assert_can_use_ident(self.ctx_node, item)
             self.global_scope.define(item, sym)
 
+    def define_module_globals(
+        self, *, imported_mod: Module, prev_module: Module
+    ):
+        self.ctx_module = prev_module
+        for name, sym in imported_mod.ast.symbols.symbols.items():
+            # Each module already has the definitions of the builtin module
+            if sym is self.global_scope.get(name) or (
+                cast(Typed, sym).module.fpath == builtin_module.fpath
+            ):
+                continue
+            self.assert_can_use_ident(self.ctx_node, name)
+            self.global_scope.define(name, sym)
+
     def load_module(
         self,
         module: Module,
@@ -440,8 +453,11 @@ class Analyzer(ast.Visitor):
                         prev_module=self.ctx_module,
                         usa_items=usa_items,
                     )
-                case _:
-                    pass
+                case ast.UsaMode.Global:
+                    self.define_module_globals(
+                        imported_mod=existing_mod,
+                        prev_module=self.ctx_module,
+                    )
             return
 
         # Check for a cycle
@@ -457,8 +473,13 @@ class Analyzer(ast.Visitor):
         self.imports[module.fpath] = module
         # TODO: Handle errors while loading another module
         match mode:
-            case ast.UsaMode.Global:
+            case ast.UsaMode.Global if module.fpath == builtin_module.fpath:
                 self.visit_module(parse(module.fpath))
+            case ast.UsaMode.Global:
+                self.load_module_scoped(module)
+                self.define_module_globals(
+                    imported_mod=module, prev_module=prev_module
+                )
             case ast.UsaMode.Scoped:
                 if not alias:
                     raise TypeError("Arg 'alias' should not be None")
diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 9e50ce3..822e44b 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -410,7 +410,11 @@ class Registo(Type):
         return ConstructedTy(self, ty_args)
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, Registo) and self.name == other.name
+        return (
+            isinstance(other, Registo)
+            and self.name == other.name
+            and self.module.fpath == other.module.fpath
+        )
 
     def __str__(self) -> str:
         return self.name
@@ -535,7 +539,11 @@ class Uniao(Type):
         return ConstructedTy(self, ty_args)
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, Uniao) and self.name == other.name
+        return (
+            isinstance(other, Uniao)
+            and self.name == other.name
+            and self.module.fpath == other.module.fpath
+        )
 
     def __str__(self) -> str:
         return self.name
-- 
2.43.0


From 0e8e5654fbd74275f6a81eb0925a93dbf411f56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 29/58] fix: report the references to a variable in its own
 initial value

---
 amanda/compiler/check/core.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 8c6ac68..f936173 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -55,6 +55,8 @@ class Analyzer(ast.Visitor):
         self.ctx_func = None
         self.ctx_yield_block: ast.YieldBlock | None = None
         self.in_loop = False
+        # Variables whose initial values are being checked
+        self.ctx_decls: list[Typed] = []
         self.imports = {}
         # Module currently being executed
         self.ctx_module: Module = module
@@ -559,10 +561,7 @@ class Analyzer(ast.Visitor):
                     "Erro de inicialização. Variáveis de tipos não primitivos devem ser inicializadas"
                 )
         else:
-            if assign.right.token.lexeme == name:
-                self.error(
-                    f"Erro ao inicializar variável. Não pode referenciar uma variável durante a sua declaração"
-                )
+            self.ctx_decls.append(symbol)
             self.visit(assign)
         if self.scope_depth == 0:
             symbol.is_global = True
@@ -899,6 +898,10 @@ class Analyzer(ast.Visitor):
         elif not sym.can_evaluate():
             self.ctx_node = node
             self.error(self.INVALID_REF, name=name)
+        elif any(sym is decl for decl in self.ctx_decls):
+            self.error(
+                f"Erro ao inicializar variável. Não pode referenciar uma variável durante a sua declaração"
+            )
         node.eval_type = sym.type
         node.var_symbol = sym
         assert node.var_symbol
@@ -1097,6 +1100,8 @@ class Analyzer(ast.Visitor):
         lhs = node.left
         rhs = node.right
         rs = self.visit(rhs)
+        if isinstance(node.parent, ast.VarDecl):
+            self.ctx_decls.pop()
         # Check rhs of assignment
         # is expression
         self.visit(lhs)
-- 
2.43.0


From 2d40b597b198635175a3b35419bfd005ab696a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 30/58] fix: convert to optional types

---
 amanda/__main__.py         | 22 +++++++++++++++++++---
 amanda/compiler/codegen.py | 30 ++++++++++++++++++++++++------
 amanda/compiler/error.py   |  2 +-
 amanda/compiler/parse.py   |  8 +++++++-
 amanda/vm/src/vm.rs        |  8 +++++---
 5 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/amanda/__main__.py b/amanda/__main__.py
index 05ae739..8b9d1a5 100644
--- a/amanda/__main__.py
+++ b/amanda/__main__.py
@@ -30,10 +30,26 @@ def run_frontend(filename) -> tuple:
         throw_error(e)
 
 
+def run_backend(module, imports) -> tuple:
+    try:
+        compiler = ByteGen(module)
+        return compiler, compiler.compile(imports)
+    except AmandaError as e:
+        throw_error(e)
+
+
+def compile_file(filename) -> tuple:
+    try:
+        module, imports = run_frontend(filename)
+        return run_backend(module, imports)
+    except RecursionError:
+        sys.exit(
+            f"O programa '{filename}' tem demasiados blocos ou expressões encaixados uns nos outros"
+        )
+
+
 def run_file(args):
-    module, imports = run_frontend(args.file)
-    compiler = ByteGen(module)
-    bin_obj = compiler.compile(imports)
+    compiler, bin_obj = compile_file(args.file)
 
     if args.debug:
         write_file("debug.amasm", compiler.make_debug_asm())
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index d319a2a..f109312 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -87,6 +87,7 @@ class OpCode(Enum):
     # Takes an 8-bit argument that changes the 'strictness' of the conversion.
     # 0 (cast): Performs the cast as long as the builtin type can be cast into type.
     # 1 (check cast): Validates if 'interface' type can be cast into the desired type.
+    # 2 (optional check cast): Like the check cast, but any type can be null.
     CAST = auto()
     # Builds a string using elements on the stack. 8-bit arg indicates the number of elements
     # on the stack to use
@@ -138,8 +139,6 @@ class OpCode(Enum):
             case (
                 OpCode.CALL_FUNCTION
                 | OpCode.CAST
-                | OpCode.BUILD_STR
-                | OpCode.BUILD_VEC
                 | OpCode.BUILD_OBJ
                 | OpCode.OP_UNWRAP
                 | OpCode.BUILD_VARIANT
@@ -153,6 +152,8 @@ class OpCode(Enum):
                 | OpCode.GET_LOCAL
                 | OpCode.GET_GLOBAL
                 | OpCode.SET_GLOBAL
+                | OpCode.BUILD_STR
+                | OpCode.BUILD_VEC
                 | OpCode.LOAD_REGISTO
             ):
                 return OP_SIZE * 3
@@ -313,7 +314,20 @@ class ByteGen:
             )
         self.labels[label] = self.ip
 
+    def check_size(self, size: int, max_size: int):
+        """Reports a part of the program that does not fit in the bytecode"""
+        if size > max_size:
+            raise AmandaError.common_error(
+                self.ctx_module.fpath,
+                f"O programa é demasiado grande. Encontrou {size} elementos quando o limite é {max_size}",
+                max(self.lineno, 1),
+            )
+
     def append_op(self, op: OpCode, *args: int):
+        if op.op_size() == OP_SIZE * 2:
+            self.check_size(args[0], 2**8 - 1)
+        elif op.op_size() == OP_SIZE * 3:
+            self.check_size(args[0], 2**16 - 1)
         if self.src_map and self.src_map[-1][2] == self.lineno:
             self.src_map[-1][1] = self.ip
         else:
@@ -477,9 +491,7 @@ class ByteGen:
         else:
             idx = len(tab)
             tab[item] = idx
-        assert (
-            idx < (2**16) - 1
-        ), f"Too many items in a single table for the current file."
+        self.check_size(idx, 2**16 - 1)
         return idx
 
     def gen_constant(self, node: ast.Constant):
@@ -960,8 +972,14 @@ class ByteGen:
         # TODO: Do this in sem analysis
         if new_t == target_t or new_t == Builtins.Indef:
             return
-        self.load_variable(new_t)
         arg = 0 if target_t != Builtins.Indef else 1
+        # A value of type 'T' is converted to a 'T?' as a value of type 'T'
+        if new_t.is_constructed_from(SrcBuiltins.Opcao):
+            new_t = cast(ConstructedTy, new_t).bound_ty_args["T"]
+            if target_t in (new_t, Builtins.Nulo) or new_t == Builtins.Indef:
+                return
+            arg = arg * 2
+        self.load_variable(new_t)
         self.append_op(OpCode.CAST, arg)
 
     def gen_auto_cast(self, node: ast.Expr):
diff --git a/amanda/compiler/error.py b/amanda/compiler/error.py
index 43102f7..c494d80 100644
--- a/amanda/compiler/error.py
+++ b/amanda/compiler/error.py
@@ -94,7 +94,7 @@ def throw_error(err: AmandaError) -> NoReturn:
     filename = path.abspath(err.fpath)
     assert path.isfile(filename), "Invalid filename supplied to error"
     context = None
-    with open(filename, "r", encoding="utf8") as f:
+    with open(filename, "r", encoding="utf8", errors="replace") as f:
         for lineno, line in enumerate(f):
             if lineno == err.line - 1:
                 context = line.strip()
diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 47a6742..c0d8b96 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1382,7 +1382,13 @@ class Parser:
 
 def parse(filename):
     with open(filename, encoding="utf-8") as src_file:
-        src = StringIO(src_file.read())
+        try:
+            src = StringIO(src_file.read())
+        except UnicodeDecodeError as e:
+            line = e.object.count(b"\n", 0, e.start) + 1
+            raise AmandaError.common_error(
+                filename, "O ficheiro deve estar codificado em UTF-8", line
+            )
     module = Parser(filename, src).parse()
     module.tag_children()
     return module
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index eb71924..a1440cc 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -414,7 +414,7 @@ impl<'a> AmaVM<'a> {
                     continue;
                 }
                 OpCode::BuildStr => {
-                    let num_parts = self.get_byte() as isize;
+                    let num_parts = self.get_u16_arg() as isize;
                     let start = (self.sp - (num_parts - 1)) as usize;
                     let mut built_str = String::new();
                     for i in start..=self.sp as usize {
@@ -426,7 +426,7 @@ impl<'a> AmaVM<'a> {
                     self.op_push(AmaValue::Str(Cow::Owned(built_str)));
                 }
                 OpCode::BuildVec => {
-                    let args = self.get_byte() as isize;
+                    let args = self.get_u16_arg() as isize;
                     if args == 0 {
                         let alloc_ref =self.alloc_ref(Vec::new());
                         self.op_push(AmaValue::Vector(alloc_ref));
@@ -540,7 +540,9 @@ impl<'a> AmaVM<'a> {
                             return self.panic_and_throw(&msg);
                         }
                         self.op_push(cast_res.unwrap());
-                    } else if arg == 1 {
+                    } else if arg == 2 && val.is_none() {
+                        self.op_push(val);
+                    } else {
                         if !ama_value::check_cast(val.get_type(), new_type) {
                             return self.panic_and_throw(&format!(
                                 "Conversão inválida. O tipo original do valor é '{}', mas tentou converter o valor para o tipo '{}'",
-- 
2.43.0


From ee5d8c597d2d7d39bc5ff3f51e9806036e231512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 31/58] fix: bind the type arguments of a generic type in the
 order of its parameters

---
 amanda/compiler/check/checker.py |  4 ++--
 amanda/compiler/check/core.py    |  8 ++++----
 amanda/compiler/types/core.py    | 10 +++++-----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/amanda/compiler/check/checker.py b/amanda/compiler/check/checker.py
index 61ad9de..01af2b3 100644
--- a/amanda/compiler/check/checker.py
+++ b/amanda/compiler/check/checker.py
@@ -16,12 +16,12 @@ class Checker(Protocol):
     ctx_module: Module
     scope_depth: int
 
-    def get_generic_params(self, node: ASTNode) -> set[TypeVar]: ...
+    def get_generic_params(self, node: ASTNode) -> list[TypeVar]: ...
     def check_int_literal(self, token: Token): ...
     def error(self, code, **kwargs) -> NoReturn: ...
     def error_with_loc(self, loc_tok: Token, code, **kwargs) -> NoReturn: ...
     def enter_ty_ctx(self, scope: symbols.Scope): ...
-    def get_generic_ty_ctx(self, params: set[TypeVar]) -> symbols.Scope: ...
+    def get_generic_ty_ctx(self, params: list[TypeVar]) -> symbols.Scope: ...
     def define_symbol(
         self, symbol: symbols.Symbol, depth: int, scope: symbols.Scope
     ): ...
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index f936173..4de017f 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -741,21 +741,21 @@ class Analyzer(ast.Visitor):
 
     def get_generic_params(
         self, node: ast.Registo | ast.MethodDecl
-    ) -> set[TypeVar]:
+    ) -> list[TypeVar]:
         # TODO: Notify in case of duplicate generic param
         # TODO: Make sure to throw an error for unused generic params
         return (
-            set(
+            list(
                 map(
                     lambda t: TypeVar(t.name.lexeme, self.ctx_module),
                     node.generic_params,
                 )
             )
             if node.generic_params
-            else set()
+            else []
         )
 
-    def get_generic_ty_ctx(self, params: set[TypeVar]) -> symbols.Scope:
+    def get_generic_ty_ctx(self, params: list[TypeVar]) -> symbols.Scope:
         ctx = symbols.Scope(self.ty_ctx)
         for param in params:
             ctx.define(param.name, param)
diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 822e44b..cf2406d 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -339,13 +339,13 @@ class Registo(Type):
         name: str,
         module: Module,
         fields: dict[str, VariableSymbol],
-        ty_params: set[TypeVar] | None = None,
+        ty_params: list[TypeVar] | None = None,
     ):
         super().__init__(name, module)
         self.name = name
         self.fields = fields
         self.methods: dict[str, MethodSym] = {}
-        self.ty_params: set[TypeVar] = ty_params if ty_params else set()
+        self.ty_params: list[TypeVar] = ty_params if ty_params else []
         self._ty_names = set(map(lambda t: t.name, self.ty_params))
 
     def is_callable(self) -> bool:
@@ -466,20 +466,20 @@ class Uniao(Type):
     name: str
     module: Module
     variants: dict[str, Variant]
-    ty_params: set[TypeVar]
+    ty_params: list[TypeVar]
 
     def __init__(
         self,
         name: str,
         module: Module,
         variants: dict[str, Variant],
-        ty_params: set[TypeVar] | None = None,
+        ty_params: list[TypeVar] | None = None,
     ):
         super().__init__(name, module)
         self.name = name
         self.variants = variants
         self.methods: dict[str, MethodSym] = {}
-        self.ty_params: set[TypeVar] = ty_params if ty_params else set()
+        self.ty_params: list[TypeVar] = ty_params if ty_params else []
         self._ty_names = set(map(lambda t: t.name, self.ty_params))
 
     def add_variant(self, name: str, params: list[Type]):
-- 
2.43.0


From 4c7a60b2f0f5481906343498ef3f7f4ccdef4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 32/58] fix: give each local variable a place of its own

---
 amanda/compiler/check/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 4de017f..349f38c 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -219,7 +219,8 @@ class Analyzer(ast.Visitor):
     # should also be regarded as a local
     # 2. After inner function local params are declared,
     # use the non local stmt to get nonlocal names
-    # 3. Local names are depth dependent
+    # 3. Local names are depth dependent, and each local has its own,
+    # since blocks of the same depth may be in use at the same time
     # at level 2 __r10__,__r11__
     def define_symbol(
         self,
@@ -229,7 +230,7 @@ class Analyzer(ast.Visitor):
         name: str | None = None,
     ):
         if not self.is_valid_name(symbol.name) or depth >= 1:
-            symbol.out_id = f"_r{depth}_{scope.count()}_"
+            symbol.out_id = f"_r{depth}_{next(symbols.unique_vars)}_"
         scope.define(name if name else symbol.name, symbol)
 
     def get_type_sym_or_err(self, type_id: str) -> Type:
-- 
2.43.0


From f2bea660855bafc121235ce15f2dff2f5d201fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 33/58] fix: read the element of a compound assignment through
 a node of its own

---
 amanda/compiler/parse.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index c0d8b96..8cc9632 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1015,8 +1015,8 @@ class Parser:
 
             self.consume(current)
             if isinstance(expr, ast.Get):
-                # The field is read through a node of its own, since it is
-                # not treated like the target of the assignment
+                # The field or element is read through a node of its own,
+                # since it is not treated like the target of the assignment
                 expr = ast.Set(
                     target=expr,
                     expr=ast.BinOp(
@@ -1027,7 +1027,9 @@ class Parser:
                 expr = ast.IndexSet(
                     token,
                     expr,
-                    ast.BinOp(token, left=expr, right=self.equality()),
+                    ast.BinOp(
+                        token, left=copy.deepcopy(expr), right=self.equality()
+                    ),
                 )
             else:
                 expr = ast.Assign(
-- 
2.43.0


From be650354bbb0d3f2311194693da7b9b977e9365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:19 +0000
Subject: [PATCH 34/58] fix: run a module after the modules it uses

---
 amanda/compiler/check/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 349f38c..7b207d6 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -502,6 +502,9 @@ class Analyzer(ast.Visitor):
                 )
 
         module.loaded = True
+        # The modules run in the order of this table, and a module runs after
+        # the ones it uses
+        self.imports[module.fpath] = self.imports.pop(module.fpath)
         self.ctx_module = prev_module
 
     def resolve_import(self, fpath: str) -> str | None:
-- 
2.43.0


From b43e37ee8f851218ec2f6507febb5370a5203fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 35/58] fix: reject the use of a module as a value

---
 amanda/compiler/check/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 7b207d6..adcce78 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -906,11 +906,17 @@ class Analyzer(ast.Visitor):
             self.error(
                 f"Erro ao inicializar variável. Não pode referenciar uma variável durante a sua declaração"
             )
+        elif sym.type.is_module() and not self.is_get_target(node):
+            self.error(self.INVALID_REF, name=name)
         node.eval_type = sym.type
         node.var_symbol = sym
         assert node.var_symbol
         return sym
 
+    def is_get_target(self, node: ast.Expr) -> bool:
+        """Modules are not values, they can only be used to get their items"""
+        return isinstance(node.parent, ast.Get) and node.parent.target is node
+
     def is_callee(self, node: ast.Expr) -> bool:
         """Tells callees apart from the arguments of a call"""
         return isinstance(node.parent, ast.Call) and node.parent.callee is node
@@ -992,6 +998,8 @@ class Analyzer(ast.Visitor):
         node.eval_type = (
             field_sym if isinstance(field_sym, Type) else field_sym.type
         )
+        if node.eval_type.is_module() and not self.is_get_target(node):
+            self.error(self.INVALID_REF, name=field)
         return field_sym
 
     def visit_set(self, node):
-- 
2.43.0


From fc4b512293f17b506547ec72ef103a0cde82b2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 36/58] fix: report a module alias that is already in use in
 the module that declares it

---
 amanda/compiler/check/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index adcce78..37e705c 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -392,6 +392,7 @@ class Analyzer(ast.Visitor):
     ):
         if not alias:
             raise TypeError("Arg 'alias' should not be None")
+        self.ctx_module = importing_mod
         self.assert_can_use_ident(self.ctx_node, alias)
         self.global_scope.define(
             alias,
-- 
2.43.0


From c938f0ccc29d8daef610f86873234559c3c12b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:08 +0000
Subject: [PATCH 37/58] fix: do not let the fields of a record hide the types
 and modules of its other fields

---
 amanda/compiler/check/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 37e705c..8610979 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -554,7 +554,14 @@ class Analyzer(ast.Visitor):
     def visit_vardecl(self, node: ast.VarDecl):
         name = node.name.lexeme
         self.assert_can_use_ident(node, name)
-        var_type = self.get_type(node.var_type)
+        if self.ctx_reg:
+            # The fields of a record do not hide the types and modules
+            fields = self.ctx_scope
+            self.ctx_scope = fields.enclosing_scope
+            var_type = self.get_type(node.var_type)
+            self.ctx_scope = fields
+        else:
+            var_type = self.get_type(node.var_type)
         symbol = symbols.VariableSymbol(name, var_type, self.ctx_module)
         self.define_symbol(symbol, self.scope_depth, self.ctx_scope)
         node.var_type = var_type  # type: ignore
-- 
2.43.0


From 3f6f502408457c8c06e769613f2b374eb8351f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 38/58] fix: name the methods of imported types without
 absolute paths

---
 amanda/compiler/symbols/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/symbols/core.py b/amanda/compiler/symbols/core.py
index 24bb35e..a9aeafa 100644
--- a/amanda/compiler/symbols/core.py
+++ b/amanda/compiler/symbols/core.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 from dataclasses import dataclass
 from itertools import count
+from os import path
 from typing import Optional, Dict, cast, Any
 from amanda.compiler.module import Module
 from amanda.compiler.symbols.base import Symbol, TypeVar, Typed, Type
@@ -103,7 +104,11 @@ class MethodSym(FunctionSymbol):
         target_module = self.target_ty.module
         if target_module.builtin or not self.target_ty.is_external(self.module):
             return full_path
-        return f"{target_module.fpath}::{full_path}"
+        # The name does not depend on where the modules are
+        module_path = path.relpath(
+            target_module.fpath, path.dirname(self.module.fpath) or "."
+        )
+        return f"{module_path}::{full_path}"
 
     def __str__(self):
         params = ",".join(self.params)
-- 
2.43.0


From 6e86769a907ea2be0440f4731367281d42567511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:35 +0000
Subject: [PATCH 39/58] fix: give integers and loop variables their type where
 a local variable has its name

---
 amanda/compiler/check/core.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 8610979..7298676 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -863,9 +863,8 @@ class Analyzer(ast.Visitor):
     # TODO: Rename this to literal
     def visit_constant(self, node: ast.Constant):
         constant = node.token.token
-        scope = self.ctx_scope
         if constant == TT.INTEGER:
-            node.eval_type = scope.resolve("int")
+            node.eval_type = Builtins.Int
             self.check_int_literal(node.token)
         elif constant == TT.REAL:
             node.eval_type = Builtins.Real
@@ -1261,9 +1260,7 @@ class Analyzer(ast.Visitor):
         self.visit(node.expression)
         # Define control variable for loop
         name = node.expression.name.lexeme
-        sym = symbols.VariableSymbol(
-            name, self.ctx_scope.resolve("int"), self.ctx_module
-        )
+        sym = symbols.VariableSymbol(name, Builtins.Int, self.ctx_module)
         scope = symbols.Scope(self.ctx_scope)
         self.define_symbol(sym, self.scope_depth + 1, scope)
 
-- 
2.43.0


From 6d2339335b4e4fee77f9720086f9d4f76738a4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 40/58] fix: report errors about source text that holds braces

---
 amanda/compiler/check/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 7298676..f3e2b24 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -195,13 +195,15 @@ class Analyzer(ast.Visitor):
         )
 
     def error(self, code, **kwargs) -> NoReturn:
-        message = code.format(**kwargs)
+        # Messages without arguments may hold braces from the source
+        message = code.format(**kwargs) if kwargs else code
         raise AmandaError.common_error(
             self.ctx_module.fpath, message, self.ctx_node.token.line
         )
 
     def error_with_loc(self, loc_tok: Token, code, **kwargs) -> NoReturn:
-        message = code.format(**kwargs)
+        # Messages without arguments may hold braces from the source
+        message = code.format(**kwargs) if kwargs else code
         raise AmandaError.common_error(
             self.ctx_module.fpath, message, loc_tok.line
         )
-- 
2.43.0


From d8ad511e4287e06fc62730a67ab51b9623204c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:19 +0000
Subject: [PATCH 41/58] fix: do not take a backslash before an n for a line
 break

---
 amanda/compiler/tokens.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/tokens.py b/amanda/compiler/tokens.py
index 849cdf6..c247b66 100644
--- a/amanda/compiler/tokens.py
+++ b/amanda/compiler/tokens.py
@@ -108,6 +108,8 @@ def build_tokens_dict() -> Dict[str, TokenType]:
     return {
         token_type.value.lower(): token_type
         for token_type in tt_list[start_index : end_index + 1]
+        # Its value is only the form in which error messages show it
+        if token_type != TokenType.NEWLINE
     }
 
 
-- 
2.43.0


From 9befcc9a0e3e1abb4aebf4952c745258f583630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 42/58] fix: accept a line break after a single element or
 parameter, as after many

---
 amanda/compiler/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 8cc9632..54d91ee 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -677,6 +677,7 @@ class Parser:
             self.consume(TT.COLON, "esperava-se o símbolo ':'.")
             param_type = self.type()
             params.append(ast.Param(param_type, name))
+            self.skip_newlines()
             while not self.match(TT.RPAR):
                 self.consume(TT.COMMA, skip_newlines=True)
                 name = self.consume(TT.IDENTIFIER, skip_newlines=True)
@@ -1312,6 +1313,7 @@ class Parser:
             if not self.match(TT.RBRACKET):
                 self.skip_newlines()
                 elements.append(self.equality())
+                self.skip_newlines()
                 while not self.match(TT.RBRACKET):
                     self.consume(TT.COMMA, skip_newlines=True)
                     self.skip_newlines()
-- 
2.43.0


From 972189f4242779b5afe47b2acb368f2a5144a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 43/58] fix: report a field of a record that has no type

---
 amanda/compiler/parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 54d91ee..b8d7e74 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -660,12 +660,12 @@ class Parser:
                 self.skip_newlines()
                 continue
             name = self.consume(TT.IDENTIFIER)
-            if self.match(TT.COLON):
-                field = self.simple_decl(name)
-                fields.append(field)
-            elif self.match(TT.COMMA):
+            if self.match(TT.COMMA):
                 new_fields = self.multi_decl(name)
                 fields += new_fields
+            else:
+                field = self.simple_decl(name)
+                fields.append(field)
             self.end_stmt()
         return fields
 
-- 
2.43.0


From 0f1dce2c0a0cef33cbc9482eba57350d3cdc80f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 44/58] fix: write the debug listing in UTF-8 whatever the
 locale

---
 amanda/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/__main__.py b/amanda/__main__.py
index 8b9d1a5..aa45611 100644
--- a/amanda/__main__.py
+++ b/amanda/__main__.py
@@ -15,7 +15,7 @@ from amanda.libamanda import run_module
 
 
 def write_file(name, code):
-    with open(name, "w") as output:
+    with open(name, "w", encoding="utf-8") as output:
         output.write(code)
 
 
-- 
2.43.0


From 607085c7ae7fa9046c87906bf762f170f3a744b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 45/58] fix: stop with a run-time error when the output cannot
 be written

---
 amanda/vm/src/errors.rs                     |  3 +++
 amanda/vm/src/lib.rs                        |  5 ++++-
 amanda/vm/src/modules/builtins/embutidos.rs |  9 ++++++---
 amanda/vm/src/vm.rs                         | 11 +++++++++--
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/amanda/vm/src/errors.rs b/amanda/vm/src/errors.rs
index 3b394d8..07b4b5e 100644
--- a/amanda/vm/src/errors.rs
+++ b/amanda/vm/src/errors.rs
@@ -1 +1,4 @@
 pub type AmaErr = String;
+
+// The program cannot write to its standard output
+pub const OUTPUT_ERR: &str = "Não foi possível escrever na saída";
diff --git a/amanda/vm/src/lib.rs b/amanda/vm/src/lib.rs
index 807d667..6114fa4 100644
--- a/amanda/vm/src/lib.rs
+++ b/amanda/vm/src/lib.rs
@@ -1,4 +1,6 @@
 use alloc::Alloc;
+use std::io;
+use std::io::Write;
 use std::slice;
 use vm::AmaVM;
 
@@ -27,7 +29,8 @@ pub extern "C" fn run_module(bin_module: *mut u8, size: u32) -> u8 {
 
     let mut vm = AmaVM::new(&main_module, &imports, alloc);
     if let Err(err) = vm.run(&main_module) {
-        eprint!("{}", err);
+        // There is nobody to tell when stderr is closed
+        let _ = write!(io::stderr(), "{}", err);
         ERR
     } else {
         OK
diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index 39a2245..fb80c47 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -2,6 +2,7 @@ use super::utils::exports;
 use super::AmaResult;
 use crate::alloc::Alloc;
 use crate::ama_value::AmaValue;
+use crate::errors::OUTPUT_ERR;
 use crate::values::amatype::Type;
 use crate::values::function::{FuncArgs, NativeFunc};
 use std::borrow::Cow;
@@ -13,15 +14,17 @@ use unicode_segmentation::UnicodeSegmentation;
 fn escrevaln<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
     let value = &args[0];
 
-    println!("{}", value);
+    writeln!(io::stdout(), "{}", value).map_err(|_| OUTPUT_ERR.to_string())?;
     Ok(AmaValue::None)
 }
 
 fn escreva<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
     let value = &args[0];
 
-    print!("{}", value);
-    io::stdout().flush().unwrap();
+    let mut stdout = io::stdout();
+    write!(stdout, "{}", value)
+        .and_then(|_| stdout.flush())
+        .map_err(|_| OUTPUT_ERR.to_string())?;
     Ok(AmaValue::None)
 }
 
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index a1440cc..4855a80 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -1,12 +1,14 @@
 use std::collections::HashMap;
 use std::fmt::Write;
+use std::io;
+use std::io::Write as IoWrite;
 use std::borrow::Cow;
 use crate::ama_value;
 use crate::ama_value::{AmaValue, RcCell};
 use crate::values::function::{AmaFunc, FuncModule};
 use crate::values::registo::{Tabela, RegObj};
 use crate::modules::module::{Module, MGlobals};
-use crate::errors::AmaErr;
+use crate::errors::{AmaErr, OUTPUT_ERR};
 use crate::alloc::{Alloc, Ref};
 use crate::opcode::OpCode;
 use crate::modules::builtins;
@@ -220,7 +222,12 @@ impl<'a> AmaVM<'a> {
                     let idx = self.get_u16_arg() as usize;
                     self.op_push(AmaValue::Registo(&self.ctx_module.unwrap().registos[idx]))
                 }
-                OpCode::Mostra => println!("{}", self.op_pop()),
+                OpCode::Mostra => {
+                    let value = self.op_pop();
+                    if writeln!(io::stdout(), "{}", value).is_err() {
+                        self.panic_and_throw(OUTPUT_ERR)?;
+                    }
+                }
                 //Binary Operations
                 OpCode::OpAdd
                 | OpCode::OpMinus
-- 
2.43.0


From dd6e841ac88cbf018ac388b41bd18275f31f5663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 46/58] fix: report calls to vec with too many arguments

---
 amanda/compiler/check/core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index f3e2b24..9bb57cc 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1364,9 +1364,8 @@ class Analyzer(ast.Visitor):
         if fn == BuiltinFn.VEC:
             # TODO: When vargs are implemented, make sure to
             # come here and change the way this node works
-            assert (
-                len(node.fargs) < 256
-            ), "Builtin call exceeded max number of args"
+            if len(node.fargs) > (2**8) - 1:
+                self.error("A função 'vec' só pode ter até 255 argumentos")
             if len(node.fargs) < 2:
                 self.error(
                     f"Função 'vec' deve ser invocada com pelo menos 2 argumentos"
-- 
2.43.0


From d25c79ea1de00ffd6b5b215a1cdd79bee4f352a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 47/58] fix: drop values that are nested to any depth without
 recursion

---
 amanda/vm/src/ama_value.rs      | 36 +++++++++++++++++++++++++++++++++
 amanda/vm/src/lib.rs            |  8 +++++---
 amanda/vm/src/values/registo.rs |  4 ++++
 amanda/vm/src/vm.rs             |  2 +-
 4 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index 05e6adc..000b5fd 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -266,6 +266,42 @@ impl Clone for AmaValue<'_> {
     }
 }
 
+impl<'a> AmaValue<'a> {
+    /// Moves the values that only this one refers to into 'parts'
+    fn take_parts(&mut self, parts: &mut Vec<AmaValue<'a>>) {
+        match self {
+            AmaValue::Vector(vec) => {
+                if let Some(vec) = Rc::get_mut(vec) {
+                    parts.append(vec.get_mut());
+                }
+            }
+            AmaValue::RegObj(reg) => {
+                if let Some(reg) = Rc::get_mut(reg) {
+                    parts.extend(reg.get_mut().take_values());
+                }
+            }
+            AmaValue::Variant(_, Some(args)) => {
+                if let Some(args) = Rc::get_mut(args) {
+                    parts.append(args);
+                }
+            }
+            _ => (),
+        }
+    }
+}
+
+// Values can be nested to any depth (e.g. linked lists), so they can't be
+// dropped recursively
+impl Drop for AmaValue<'_> {
+    fn drop(&mut self) {
+        let mut parts = Vec::new();
+        self.take_parts(&mut parts);
+        while let Some(mut value) = parts.pop() {
+            value.take_parts(&mut parts);
+        }
+    }
+}
+
 impl Display for AmaValue<'_> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         match self {
diff --git a/amanda/vm/src/lib.rs b/amanda/vm/src/lib.rs
index 6114fa4..134efb6 100644
--- a/amanda/vm/src/lib.rs
+++ b/amanda/vm/src/lib.rs
@@ -25,10 +25,12 @@ pub extern "C" fn run_module(bin_module: *mut u8, size: u32) -> u8 {
     };
 
     let alloc = Alloc::new();
-    let (main_module, imports) = binload::load_bin(module);
+    // The modules refer to values that are defined in them, so they are kept
+    // until the process ends
+    let (main_module, imports) = Box::leak(Box::new(binload::load_bin(module)));
 
-    let mut vm = AmaVM::new(&main_module, &imports, alloc);
-    if let Err(err) = vm.run(&main_module) {
+    let mut vm = AmaVM::new(main_module, imports, alloc);
+    if let Err(err) = vm.run(main_module) {
         // There is nobody to tell when stderr is closed
         let _ = write!(io::stderr(), "{}", err);
         ERR
diff --git a/amanda/vm/src/values/registo.rs b/amanda/vm/src/values/registo.rs
index 3c44303..d94a48c 100644
--- a/amanda/vm/src/values/registo.rs
+++ b/amanda/vm/src/values/registo.rs
@@ -54,6 +54,10 @@ impl<'a> RegObj<'a> {
         self.state.insert(field, value);
     }
 
+    pub fn take_values(&mut self) -> impl Iterator<Item = AmaValue<'a>> + '_ {
+        self.state.drain().map(|(_, value)| value)
+    }
+
     pub fn reg_name(&self) -> &str {
         self.registo.name
     }
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 4855a80..2336fc4 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -493,7 +493,7 @@ impl<'a> AmaVM<'a> {
                     let local_indices: Vec<_> = self.values.drain(start..= self.sp as usize).map(|val| val.take_int()).into_iter().collect();
                     self.sp = (start - 1) as isize;
                     let object = self.op_pop();
-                    match object {
+                    match &object {
                         AmaValue::Variant(_, Some(args)) => {
                             for (i, local_idx) in local_indices.iter().enumerate() {
                                 let idx = self.frames.peek().bp as usize + *local_idx as usize;
-- 
2.43.0


From 9fa7d4caf360fb495c09d27de085a1ad5a577fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 48/58] fix: stop with a run-time error when a vector does not
 fit in memory

---
 amanda/vm/src/modules/builtins/embutidos.rs | 36 +++++++++++----------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index fb80c47..563e9cb 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -88,28 +88,30 @@ fn build_vec<'a>(
     dims: &[AmaValue],
     el_type: Type,
     alloc: &mut Alloc<'a>,
-) -> Vec<AmaValue<'a>> {
+) -> Result<Vec<AmaValue<'a>>, String> {
     let size = dims[dim].take_int() as usize;
+    let mut container = Vec::new();
+    if container.try_reserve_exact(size).is_err() {
+        return Err(String::from(
+            "Não existe memória suficiente para criar um vector com as dimensões especificadas",
+        ));
+    }
     if dim == n_dims {
-        match el_type {
-            Type::Int => vec![AmaValue::Int(0); size as usize],
-            Type::Real => vec![AmaValue::F64(0.0); size],
-            Type::Bool => vec![AmaValue::Bool(false); size],
-            Type::Texto => vec![AmaValue::Str(Cow::Owned(String::new())); size],
+        let value = match el_type {
+            Type::Int => AmaValue::Int(0),
+            Type::Real => AmaValue::F64(0.0),
+            Type::Bool => AmaValue::Bool(false),
+            Type::Texto => AmaValue::Str(Cow::Owned(String::new())),
             _ => unreachable!("Only primitives types should have this"),
-        }
+        };
+        container.resize(size, value);
     } else {
-        if size == 0 {
-            Vec::with_capacity(0)
-        } else {
-            let mut container = Vec::with_capacity(size);
-            for _ in 0..size {
-                let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc);
-                container.push(AmaValue::Vector(alloc.alloc_ref(inner)));
-            }
-            container
+        for _ in 0..size {
+            let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc)?;
+            container.push(AmaValue::Vector(alloc.alloc_ref(inner)));
         }
     }
+    Ok(container)
 }
 
 fn vec<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
@@ -124,7 +126,7 @@ fn vec<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
             ));
         }
     }
-    let built_vec = build_vec(0, n_dims - 1, dims, el_type, alloc);
+    let built_vec = build_vec(0, n_dims - 1, dims, el_type, alloc)?;
     let vec = AmaValue::Vector(alloc.alloc_ref(built_vec));
     Ok(vec)
 }
-- 
2.43.0


From 9e49d4101248fa78044c5e8d99226fed47e9cabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 49/58] fix: display vectors that are nested to any depth

---
 amanda/vm/src/ama_value.rs | 52 ++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index 000b5fd..3d40eae 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -6,10 +6,11 @@ use crate::values::function::{AmaFunc, NativeFunc};
 use crate::values::registo::{RegObj, Registo};
 use std::borrow::Cow;
 use std::cell::RefCell;
+use std::collections::HashSet;
 use std::convert::From;
 use std::fmt;
 use std::fmt::Debug;
-use std::fmt::{Display, Formatter, Write};
+use std::fmt::{Display, Formatter};
 use std::hash::{Hash, Hasher};
 use std::rc::Rc;
 
@@ -302,6 +303,36 @@ impl Drop for AmaValue<'_> {
     }
 }
 
+// Vectors can be nested to any depth, so they can't be displayed recursively
+fn display_vector(vec: &RcCell<Vec<AmaValue>>, f: &mut Formatter<'_>) -> fmt::Result {
+    //Vectors that are being displayed, with the index of the next element
+    let mut pending = vec![(Rc::clone(vec), 0)];
+    let mut open = HashSet::from([Rc::as_ptr(vec)]);
+    write!(f, "[")?;
+    while let Some((vec, idx)) = pending.pop() {
+        let elements = vec.borrow();
+        if idx == elements.len() {
+            open.remove(&Rc::as_ptr(&vec));
+            write!(f, "]")?;
+            continue;
+        }
+        pending.push((Rc::clone(&vec), idx + 1));
+        if idx > 0 {
+            write!(f, ", ")?;
+        }
+        match &elements[idx] {
+            AmaValue::Vector(inner) if open.insert(Rc::as_ptr(inner)) => {
+                write!(f, "[")?;
+                pending.push((Rc::clone(inner), 0));
+            }
+            //Already being displayed if the vector is one of its own elements
+            AmaValue::Vector(_) => write!(f, "[...]")?,
+            value => write!(f, "{}", value)?,
+        }
+    }
+    Ok(())
+}
+
 impl Display for AmaValue<'_> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         match self {
@@ -317,24 +348,7 @@ impl Display for AmaValue<'_> {
                 let val_str = if *val { "verdadeiro" } else { "falso" };
                 write!(f, "{}", val_str)
             }
-            AmaValue::Vector(vec) => {
-                //Already being displayed if the vector is one of its own elements
-                let vec = match vec.try_borrow_mut() {
-                    Ok(vec) => vec,
-                    Err(_) => return write!(f, "[...]"),
-                };
-                let mut res = String::new();
-                write!(res, "[").unwrap();
-                vec.iter().enumerate().for_each(|(i, val)| {
-                    if i == vec.len() - 1 {
-                        write!(res, "{}", val).unwrap();
-                        return;
-                    }
-                    write!(res, "{}, ", val).unwrap();
-                });
-                write!(res, "]").unwrap();
-                write!(f, "{}", res)
-            }
+            AmaValue::Vector(vec) => display_vector(vec, f),
             AmaValue::None => write!(f, "nulo"),
             AmaValue::RegObj(reg) => {
                 write!(f, "<Instância do tipo {}>", reg.borrow().reg_name())
-- 
2.43.0


From 93c14568a18eb05a89985a9a651fccd166825b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:54 +0000
Subject: [PATCH 50/58] fix: place the errors of arguments, parameters, types
 and patterns on their own lines

---
 amanda/compiler/ast.py          |  2 +-
 amanda/compiler/check/core.py   | 14 ++++++++++++++
 amanda/compiler/check/iguala.py |  1 +
 amanda/compiler/check/uniao.py  |  1 +
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/ast.py b/amanda/compiler/ast.py
index 7c9aa0e..9bb9ac3 100644
--- a/amanda/compiler/ast.py
+++ b/amanda/compiler/ast.py
@@ -462,7 +462,7 @@ class IndexSet(Expr):
 
 class Set(Expr):
     def __init__(self, *, target: Get, expr: Expr):
-        super().__init__(expr.token)
+        super().__init__(target.token)
         self.target = target
         self.expr = expr
 
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 9bb57cc..4c88f68 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -295,6 +295,13 @@ class Analyzer(ast.Visitor):
     def get_type(self, type_node: ast.Type) -> Type:
         if not type_node:
             return cast(Type, self.ctx_scope.resolve("vazio"))
+        # Errors are on the line of the type itself
+        ctx_node, self.ctx_node = self.ctx_node, type_node
+        ty = self.get_type_from_node(type_node)
+        self.ctx_node = ctx_node
+        return ty
+
+    def get_type_from_node(self, type_node: ast.Type) -> Type:
         match type_node:
             case ast.Variable():
                 return self.get_type_variable(type_node)  # type: ignore
@@ -672,6 +679,7 @@ class Analyzer(ast.Visitor):
         for param in params:
             param_name = param.name.lexeme
             if params_dict.get(param_name):
+                self.ctx_node = param
                 self.error(
                     f"o parâmetro '{param_name}' já foi especificado nesta função"
                 )
@@ -1287,6 +1295,7 @@ class Analyzer(ast.Visitor):
             if not enode:
                 continue
             if enode.eval_type != Builtins.Int:
+                self.ctx_node = enode
                 self.error("os parâmetros de uma série devem ser do tipo 'int'")
 
     def visit_namedarg(self, node: ast.NamedArg):
@@ -1355,6 +1364,7 @@ class Analyzer(ast.Visitor):
 
         vec_t = vec_expr.eval_type
         if not isinstance(vec_t, Vector):
+            self.ctx_node = vec_expr
             self.error(f"O argumento 1 da função '{fn}' deve ser um vector")
 
     # Validates call to builtin functions
@@ -1375,6 +1385,7 @@ class Analyzer(ast.Visitor):
             self.visit_positional_args(sizes)
             for arg in sizes:
                 if arg.eval_type != Builtins.Int:
+                    self.ctx_node = arg
                     self.error(
                         "Os tamanhos de um vector devem ser representado por inteiros"
                     )
@@ -1405,6 +1416,7 @@ class Analyzer(ast.Visitor):
             el_type = vec_t.element_type
             val_t = value.eval_type
             if not self.types_match(el_type, val_t):
+                self.ctx_node = value
                 self.error(
                     f"incompatibilidade de tipos entre o tipo dos elementos da lista e o valor a anexar: '{el_type}' != '{val_t}'"
                 )
@@ -1415,6 +1427,7 @@ class Analyzer(ast.Visitor):
             vec_expr = node.fargs[0]
             index = node.fargs[1]
             if index.eval_type != Builtins.Int:
+                self.ctx_node = index
                 self.error(
                     "O argumento 2 da função 'remova' deve ser um número inteiro"
                 )
@@ -1477,6 +1490,7 @@ class Analyzer(ast.Visitor):
         for arg, param in zip(fargs, sym.params.values()):
             arg.prom_type = arg.eval_type.promote_to(param.type)
             if not self.types_match(param.type, arg.eval_type):
+                self.ctx_node = arg
                 self.error(
                     f"argumento inválido. Esperava-se um argumento do tipo '{param.type}' mas recebeu o tipo '{arg.eval_type}'"
                 )
diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 4210a08..ce47532 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -102,6 +102,7 @@ def check_pattern(
     pattern: ast.Pattern,
     target_ty: Type,
 ):
+    checker.ctx_node = pattern
     match pattern:
         case ast.ADTPattern(adt, args):
             checker.visit(adt)
diff --git a/amanda/compiler/check/uniao.py b/amanda/compiler/check/uniao.py
index 1e6b7bc..19b7a80 100644
--- a/amanda/compiler/check/uniao.py
+++ b/amanda/compiler/check/uniao.py
@@ -56,6 +56,7 @@ def validate_variant_init(
     for i, (arg, param) in enumerate(zip(args, variant.params)):
         arg.prom_type = arg.eval_type.promote_to(param)
         if not checker.types_match(param, arg.eval_type):
+            checker.ctx_node = arg
             checker.error(
                 f"erro no argumento {i + 1}. Esperava-se um argumento do tipo '{param}' mas recebeu o tipo '{arg.eval_type}'"
             )
-- 
2.43.0


From f95302e47f6745a998024f117f4d1dc5a1e13311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:59 +0000
Subject: [PATCH 51/58] fix: match the same text written with different
 delimiters in order

---
 amanda/compiler/check/exhaustiveness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 0a92daf..9767a50 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -339,7 +339,8 @@ class IgualaCompiler:
                         cons = IntCons(num)
                     case ast.StrPattern(val):
                         val = val.lexeme
-                        key = val
+                        # Without the delimiters, which may differ
+                        key = val[1:-1]
                         cons = StrCons(val)
                     case _:
                         raise NotImplementedError("Invalid pattern")
-- 
2.43.0


From 07549f3bc5f6eebe6131d69d1c74c38eda4f38e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:27 +0000
Subject: [PATCH 52/58] fix: accept line breaks around every part of a union
 and of a variant's pattern

---
 amanda/compiler/parse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index b8d7e74..5d53cc2 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -615,7 +615,7 @@ class Parser:
                 self.consume(TT.COMMA)
                 self.skip_newlines()
                 variants.append(self.uniao_variant())
-        self.skip_newlines()
+                self.skip_newlines()
         return variants
 
     def uniao_variant(self) -> ast.UniaoVariant:
@@ -625,6 +625,7 @@ class Parser:
             self.consume(TT.LPAR)
             self.skip_newlines()
             params.append(self.type())
+            self.skip_newlines()
             while self.match(TT.COMMA):
                 self.skip_newlines()
                 self.consume(TT.COMMA)
@@ -875,12 +876,15 @@ class Parser:
                     raise NotImplementedError("Unreachable!")
         self.consume(TT.LPAR)
         # Parse first argument to see what type of pattern it is
+        self.skip_newlines()
         args = []
         args.append(self.pattern())
         self.skip_newlines()
         while self.match(TT.COMMA):
             self.consume(TT.COMMA)
+            self.skip_newlines()
             args.append(self.pattern())
+            self.skip_newlines()
         self.consume(TT.RPAR)
         return ast.ADTPattern(ty, args)
 
-- 
2.43.0


From d61a7042bd0afb65a17bcf80320ae1709582bc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:27 +0000
Subject: [PATCH 53/58] fix: accept annotations on lines of their own

---
 amanda/compiler/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 5d53cc2..d08f0eb 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -339,6 +339,7 @@ class Parser:
         while self.match(TT.DOUBLEAT):
             self.consume(TT.DOUBLEAT)
             annotations.append(self.annotation_body())
+            self.skip_newlines()
         return annotations
 
     def usa_stmt(self):
@@ -1138,6 +1139,7 @@ class Parser:
         while self.match(TT.AT):
             self.consume(TT.AT)
             annotations.append(self.annotation_body())
+            self.skip_newlines()
         return annotations
 
     def unary(self):
-- 
2.43.0


From 8c4c3c82113a433594343dd4bc06e3f4750d4e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:20 +0000
Subject: [PATCH 54/58] fix: quebra and continua in the header of a loop belong
 to the outer loop

---
 amanda/compiler/codegen.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index f109312..80ef994 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -717,14 +717,9 @@ class ByteGen:
 
     def gen_enquanto(self, node):
         after_loop = self.new_label()
-        # Set the current loop exit
-        loop_exit_state = self.ctx_loop_exit
-        self.ctx_loop_exit = after_loop
-
         loop = self.new_label()
-        # Set the current loop start
+        loop_exit_state = self.ctx_loop_exit
         loop_start_state = self.ctx_loop_start
-        self.ctx_loop_start = loop
 
         block = node.statement
         self.enter_block(block.symbols)
@@ -733,6 +728,9 @@ class ByteGen:
         self.gen(node.condition)
         self.append_op(OpCode.JUMP_IF_FALSE, after_loop)
         # Block
+        # Set the current loop exit and start (the condition is not in the loop)
+        self.ctx_loop_exit = after_loop
+        self.ctx_loop_start = loop
         self.gen_statements(block.children)
         self.append_op(OpCode.JUMP, loop)
         # END LOOP
@@ -755,11 +753,8 @@ class ByteGen:
         after_loop = self.new_label()
         loop = self.new_label()
         update = self.new_label()
-        # Set the current loop exit and the point where 'continua' resumes
         loop_exit_state = self.ctx_loop_exit
         loop_start_state = self.ctx_loop_start
-        self.ctx_loop_exit = after_loop
-        self.ctx_loop_start = update
         block = node.statement
         self.enter_block(block.symbols)
 
@@ -774,7 +769,13 @@ class ByteGen:
         self.append_op(OpCode.OP_LESS)
         self.append_op(OpCode.JUMP_IF_FALSE, after_loop)
         # Body
+        # Set the current loop exit and the point where 'continua' resumes
+        # (the parameters of the range are not in the loop)
+        self.ctx_loop_exit = after_loop
+        self.ctx_loop_start = update
         self.gen_statements(block.children)
+        self.ctx_loop_start = loop_start_state
+        self.ctx_loop_exit = loop_exit_state
         # update: control_var += inc
         self.lineno = node.lineno
         self.patch_label_loc(update)
@@ -790,8 +791,6 @@ class ByteGen:
         # END LOOP
         self.patch_label_loc(after_loop)
         self.exit_block()
-        self.ctx_loop_start = loop_start_state
-        self.ctx_loop_exit = loop_exit_state
 
     def gen_escolha(self, node: ast.Escolha):
         after_escolha = self.new_label()
-- 
2.43.0


From ea04554802b27e7163377d735e9e51ea8bfe40fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:20 +0000
Subject: [PATCH 55/58] fix: discard the values left on the stack by quebra and
 continua

---
 amanda/compiler/codegen.py | 54 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 80ef994..88ac8d5 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -164,6 +164,41 @@ class OpCode(Enum):
             case _:
                 return OP_SIZE
 
+    def stack_effect(self, args: tuple[int, ...]) -> int:
+        # Return by how many values each op changes the size of the stack
+        match self:
+            case (
+                OpCode.LOAD_CONST
+                | OpCode.LOAD_NAME
+                | OpCode.LOAD_REGISTO
+                | OpCode.LOAD_MODULE_DEF
+                | OpCode.GET_GLOBAL
+                | OpCode.GET_LOCAL
+            ):
+                return 1
+            case (
+                OpCode.OP_INVERT
+                | OpCode.OP_NOT
+                | OpCode.OP_ISNULL
+                | OpCode.MATCH_VARIANT
+                | OpCode.JUMP
+                | OpCode.HALT
+            ):
+                return 0
+            case OpCode.OP_INDEX_SET | OpCode.SET_PROP:
+                return -3
+            case OpCode.CALL_FUNCTION | OpCode.BUILD_VARIANT | OpCode.OP_UNWRAP:
+                return -args[0]
+            case OpCode.BUILD_STR | OpCode.BUILD_VEC:
+                return 1 - args[0]
+            case OpCode.BUILD_OBJ:
+                return -2 * args[0]
+            case OpCode.BIND_MATCH_ARGS:
+                return -args[0] - 1
+            case _:
+                # Ops that take two values and leave one, or that take one
+                return -1
+
     def __str__(self) -> str:
         return str(self.value)
 
@@ -201,6 +236,9 @@ class ByteGen:
         self.assigned_locals: dict[ast.ASTNode, int] = {}
         self.ctx_loop_start: int = -1
         self.ctx_loop_exit: int = -1
+        # Number of values on the stack, now and when the current loop starts
+        self.stack_size: int = 0
+        self.ctx_loop_stack: int = 0
         # Maps consecutive bytecode offsets to the source line they come from
         # Each element has the first offset, the last one and the line
         self.src_map: list[list[int]] = []
@@ -333,6 +371,7 @@ class ByteGen:
         else:
             self.src_map.append([self.ip, self.ip, self.lineno])
         self.ip += op.op_size() // OP_SIZE
+        self.stack_size += op.stack_effect(args)
         self.ops.append((op, args))
 
     def load_const(self, const):
@@ -729,8 +768,10 @@ class ByteGen:
         self.append_op(OpCode.JUMP_IF_FALSE, after_loop)
         # Block
         # Set the current loop exit and start (the condition is not in the loop)
+        loop_stack_state = self.ctx_loop_stack
         self.ctx_loop_exit = after_loop
         self.ctx_loop_start = loop
+        self.ctx_loop_stack = self.stack_size
         self.gen_statements(block.children)
         self.append_op(OpCode.JUMP, loop)
         # END LOOP
@@ -741,6 +782,7 @@ class ByteGen:
         self.ctx_loop_start = loop_start_state
         # Restore old loop exit
         self.ctx_loop_exit = loop_exit_state
+        self.ctx_loop_stack = loop_stack_state
 
     # NOTE: this statement is very unstable and will be changed
     # NOTE: This is a loop that can only count forward
@@ -771,11 +813,14 @@ class ByteGen:
         # Body
         # Set the current loop exit and the point where 'continua' resumes
         # (the parameters of the range are not in the loop)
+        loop_stack_state = self.ctx_loop_stack
         self.ctx_loop_exit = after_loop
         self.ctx_loop_start = update
+        self.ctx_loop_stack = self.stack_size
         self.gen_statements(block.children)
         self.ctx_loop_start = loop_start_state
         self.ctx_loop_exit = loop_exit_state
+        self.ctx_loop_stack = loop_stack_state
         # update: control_var += inc
         self.lineno = node.lineno
         self.patch_label_loc(update)
@@ -873,9 +918,12 @@ class ByteGen:
         fallback: Decision | None,
     ):
         after_if = self.new_label()
+        stack_size = self.stack_size
 
         for case in cases:
             after_elsif = self.new_label()
+            # Only one of the cases leaves a value
+            self.stack_size = stack_size
             self.gen_iguala_test(var, case.constructor)
             self.append_op(OpCode.JUMP_IF_FALSE, after_elsif)
 
@@ -884,6 +932,7 @@ class ByteGen:
             self.append_op(OpCode.JUMP, after_if)
             self.patch_label_loc(after_elsif)
 
+        self.stack_size = stack_size
         if fallback:
             self.gen_iguala_from_ir(node, fallback)
         else:
@@ -1020,6 +1069,11 @@ class ByteGen:
 
     def gen_loopctlstmt(self, node):
         token = node.token
+        # Discard the values of the expressions that the jump leaves halfway
+        stack_size = self.stack_size
+        for _ in range(stack_size - self.ctx_loop_stack):
+            self.append_op(OpCode.POP)
+        self.stack_size = stack_size
         if token.token == TT.QUEBRA:
             self.append_op(OpCode.JUMP, self.ctx_loop_exit)
         else:
-- 
2.43.0


From 72651dabdfa72fb0b012215e3aae5a018eac8933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:20 +0000
Subject: [PATCH 56/58] fix: tell apart records and unions of different scopes
 with the same name

---
 amanda/compiler/types/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index cf2406d..3fe450b 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -414,6 +414,8 @@ class Registo(Type):
             isinstance(other, Registo)
             and self.name == other.name
             and self.module.fpath == other.module.fpath
+            # Types of different scopes may have the same name
+            and self.out_id == other.out_id
         )
 
     def __str__(self) -> str:
@@ -543,6 +545,8 @@ class Uniao(Type):
             isinstance(other, Uniao)
             and self.name == other.name
             and self.module.fpath == other.module.fpath
+            # Types of different scopes may have the same name
+            and self.out_id == other.out_id
         )
 
     def __str__(self) -> str:
-- 
2.43.0


From 5ead69745f02421167e11fee55b7ff9732251c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:17 +0000
Subject: [PATCH 57/58] fix: the assignment to an element of a vector is not
 itself a target of assignments

---
 amanda/compiler/ast.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/amanda/compiler/ast.py b/amanda/compiler/ast.py
index 9bb9ac3..8088778 100644
--- a/amanda/compiler/ast.py
+++ b/amanda/compiler/ast.py
@@ -456,9 +456,6 @@ class IndexSet(Expr):
         self.index = index
         self.value = value
 
-    def is_assignable(self):
-        return True
-
 
 class Set(Expr):
     def __init__(self, *, target: Get, expr: Expr):
-- 
2.43.0


From b2bc67ab1d7d2b70973878b876d337d3dd864420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:17 +0000
Subject: [PATCH 58/58] fix: an instruction usa with a name or items ends like
 any other instruction

---
 amanda/compiler/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index d08f0eb..09aa0aa 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -352,6 +352,7 @@ class Parser:
         self.consume(TT.ARROW)
         if self.match(TT.IDENTIFIER):
             alias = self.consume(TT.IDENTIFIER)
+            self.end_stmt()
             return ast.Usa(
                 token, usa_mode=ast.UsaMode.Scoped, module=module, alias=alias
             )
@@ -363,6 +364,7 @@ class Parser:
                 self.consume(TT.COMMA)
                 idents.append(self.consume(TT.IDENTIFIER).lexeme)
             self.consume(TT.RBRACKET)
+            self.end_stmt()
             return ast.Usa(
                 token, usa_mode=ast.UsaMode.Item, module=module, items=idents
             )
-- 
2.43.0

