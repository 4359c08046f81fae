From b4f39ea04726bf6c80b23129ecf347b8dc97694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:48 +0000
Subject: [PATCH 01/21] fix: report reserved keywords and unrecognized input
 instead of panicking in the parser

---
 dice-syntax/src/parser/rules.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/dice-syntax/src/parser/rules.rs b/dice-syntax/src/parser/rules.rs
index 7024442..45717c5 100644
--- a/dice-syntax/src/parser/rules.rs
+++ b/dice-syntax/src/parser/rules.rs
@@ -1,7 +1,11 @@
 use std::collections::HashMap;
 
-use dice_core::error::Error;
+use dice_core::error::{
+    codes::{RESERVED_KEYWORD, UNRECOGNIZED_INPUT},
+    Error,
+};
 use dice_core::span::Span;
+use dice_core::tags;
 
 use crate::{
     lexer::{Token, TokenKind},
@@ -226,16 +230,15 @@ impl<'a> ParserRules<'a> {
 
     pub fn for_token(&self, token: &Token) -> Result<&Rule<'a>, Error> {
         self.rules.get(&token.kind).ok_or_else(|| {
-            todo!()
-            // let error = if token.kind == TokenKind::Reserved {
-            //     RESERVED_KEYWORD
-            // } else {
-            //     UNRECOGNIZED_INPUT
-            // };
+            let error = if token.kind == TokenKind::Reserved {
+                RESERVED_KEYWORD
+            } else {
+                UNRECOGNIZED_INPUT
+            };
 
-            // Error::new(error).with_span(token.span).with_tags(tags! {
-            //     input => token.slice.to_string()
-            // })
+            Error::new(error).with_span(token.span).with_tags(tags! {
+                input => token.slice.to_string()
+            })
         })
     }
 
-- 
2.43.0


From 5d9f713d030db39add6b4c1fa9e5a454ff5966e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:48 +0000
Subject: [PATCH 02/21] fix: lex a comment without any text as a comment

---
 dice-syntax/src/lexer/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dice-syntax/src/lexer/token.rs b/dice-syntax/src/lexer/token.rs
index a8ab006..48633f9 100644
--- a/dice-syntax/src/lexer/token.rs
+++ b/dice-syntax/src/lexer/token.rs
@@ -222,7 +222,7 @@ pub enum TokenKind {
     BackslashArg,
 
     #[error]
-    #[regex(r"[ \t\r\n\f]+|//[^\r\n]+", logos::skip)]
+    #[regex(r"[ \t\r\n\f]+|//[^\r\n]*", logos::skip)]
     Error,
 }
 
-- 
2.43.0


From 2a4c175023c59cd4f2b14018c027222ded92a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:48 +0000
Subject: [PATCH 03/21] fix: reject an unmatched closing brace instead of
 ignoring the rest of the source

---
 dice-syntax/src/parser/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index c7cde60..c3c5deb 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -54,6 +54,9 @@ impl<'a> Parser<'a> {
     pub fn parse(mut self) -> Result<SyntaxTree, Error> {
         let root = self.expression_sequence()?;
 
+        // NOTE: A sequence also ends at a closing curly brace, which has nothing to close at the top level.
+        self.lexer.consume(TokenKind::EndOfInput)?;
+
         Ok(SyntaxTree::new(root, self.arena))
     }
 
-- 
2.43.0


From b9e8f1c4c366eb985e8e645c597b2b9a4f532c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:48 +0000
Subject: [PATCH 04/21] fix: consume the identifier of an export

---
 dice-syntax/src/parser/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index c3c5deb..18ae35c 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -323,9 +323,11 @@ impl<'a> Parser<'a> {
             TokenKind::Let => self.var_decl()?,
             TokenKind::Function => self.fn_decl()?,
             TokenKind::Class => self.class_decl()?,
-            TokenKind::Identifier => self
-                .arena
-                .alloc(SyntaxNode::LitIdent(LitIdent::synthesize(next.slice, next.span))),
+            TokenKind::Identifier => {
+                self.lexer.next()?;
+                self.arena
+                    .alloc(SyntaxNode::LitIdent(LitIdent::synthesize(next.slice, next.span)))
+            }
             kind => self.unexpected_token(
                 kind,
                 &[
-- 
2.43.0


From defec97f1d004129a77db0a3265ce863db966687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:50 +0000
Subject: [PATCH 05/21] fix: evaluate the value of a nullable type check only
 once

---
 dice-compiler/src/visitor/expr_is.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_is.rs b/dice-compiler/src/visitor/expr_is.rs
index 13a1a10..9d3f9f2 100644
--- a/dice-compiler/src/visitor/expr_is.rs
+++ b/dice-compiler/src/visitor/expr_is.rs
@@ -11,15 +11,23 @@ impl NodeVisitor<&Is> for Compiler {
             emit_bytecode! {
                 self.assembler()?, *span => [
                     {self.visit(*value)?};
-                    PUSH_NULL;
-                    EQ;
                     DUP 0;
+                    PUSH_NULL;
+                    NEQ;
                     JUMP_IF_TRUE -> type_check_jump;
                     POP;
-                    {self.visit(*value)?};
+                    {self.assembler()?.push_bool(true, *span)};
+                ]
+            }
+
+            let end_jump = self.assembler()?.jump(*span);
+
+            emit_bytecode! {
+                self.assembler()?, *span => [
+                    PATCH_JUMP <- type_check_jump;
                     {self.visit(&type_.name)?};
                     IS;
-                    PATCH_JUMP <- type_check_jump;
+                    PATCH_JUMP <- end_jump;
                 ]
             }
         } else {
-- 
2.43.0


From b18b3e9c33e3b5d9d885f3e6e851a929a95602a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:50 +0000
Subject: [PATCH 06/21] fix: end null propagation at the boundary of its own
 call chain

---
 dice-compiler/src/visitor/syntax_node.rs | 32 +++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/dice-compiler/src/visitor/syntax_node.rs b/dice-compiler/src/visitor/syntax_node.rs
index 39228bb..99dc4de 100644
--- a/dice-compiler/src/visitor/syntax_node.rs
+++ b/dice-compiler/src/visitor/syntax_node.rs
@@ -10,7 +10,24 @@ impl NodeVisitor<SyntaxNodeId> for Compiler {
     fn visit(&mut self, node: SyntaxNodeId) -> Result<(), Error> {
         let node = self.syntax_tree.get(node).clone();
 
-        match &node {
+        /* NOTE: Only the links of a call chain take part in the current call context. Any other kind of node starts new call
+         * chains of its own, so the current call context is temporarily replaced with a new one.
+         */
+        if !Self::is_call_chain_link(&node) {
+            let original_call_context = std::mem::take(&mut self.context()?.scope_stack().top_mut()?.call_context);
+            self.visit(&node)?;
+            self.context()?.scope_stack().top_mut()?.call_context = original_call_context;
+
+            return Ok(());
+        }
+
+        self.visit(&node)
+    }
+}
+
+impl NodeVisitor<&SyntaxNode> for Compiler {
+    fn visit(&mut self, node: &SyntaxNode) -> Result<(), Error> {
+        match node {
             SyntaxNode::LitIdent(literal) => self.visit(literal)?,
             SyntaxNode::LitUnit(literal) => self.visit(literal)?,
             SyntaxNode::LitNull(literal) => self.visit(literal)?,
@@ -81,6 +98,19 @@ impl NodeVisitor<SyntaxNodeId> for Compiler {
 }
 
 impl Compiler {
+    fn is_call_chain_link(node: &SyntaxNode) -> bool {
+        matches!(
+            node,
+            SyntaxNode::NullPropagate(_)
+                | SyntaxNode::ErrorPropagate(_)
+                | SyntaxNode::FieldAccess(_)
+                | SyntaxNode::SuperAccess(_)
+                | SyntaxNode::FnCall(_)
+                | SyntaxNode::SuperCall(_)
+                | SyntaxNode::Index(_)
+        )
+    }
+
     fn enter_call(&mut self) -> Result<(), Error> {
         let context = &mut self.context()?.scope_stack().top_mut()?.call_context;
         context.depth += 1;
-- 
2.43.0


From c7c0b519e28876ad2aaad627001450a7bed7aa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:10 +0000
Subject: [PATCH 07/21] fix: report super calls outside of methods instead of
 panicking

---
 dice-compiler/src/visitor/expr_super_call.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_super_call.rs b/dice-compiler/src/visitor/expr_super_call.rs
index 18788ec..c8d3300 100644
--- a/dice-compiler/src/visitor/expr_super_call.rs
+++ b/dice-compiler/src/visitor/expr_super_call.rs
@@ -1,20 +1,27 @@
 use dice_core::{
-    error::Error,
+    error::{codes::INVALID_SUPER_CALL, Error},
     protocol::class::{SELF, SUPER},
 };
 use dice_syntax::{LitIdent, SuperCall};
 
-use crate::compiler::Compiler;
+use crate::{compiler::Compiler, compiler_stack::CompilerKind};
 
 use super::NodeVisitor;
 
 impl NodeVisitor<&SuperCall> for Compiler {
     fn visit(&mut self, node: &SuperCall) -> Result<(), Error> {
+        if !matches!(
+            self.context()?.kind(),
+            CompilerKind::Method { .. } | CompilerKind::Constructor
+        ) {
+            return Err(Error::new(INVALID_SUPER_CALL).with_span(node.span));
+        }
+
         let local_slot = self
             .context()?
             .scope_stack()
             .local(SELF)
-            .expect("self should always be declared in constructors.")
+            .expect("self should always be declared in methods and constructors.")
             .slot as u8;
         self.assembler()?.load_local(local_slot, node.span);
 
-- 
2.43.0


From 854e30e10577053efed3d537afb312b8c94f1240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:10 +0000
Subject: [PATCH 08/21] fix: report exports of destructuring declarations
 instead of panicking

---
 dice-compiler/src/visitor/decl_export.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dice-compiler/src/visitor/decl_export.rs b/dice-compiler/src/visitor/decl_export.rs
index e10366e..0a6b5ce 100644
--- a/dice-compiler/src/visitor/decl_export.rs
+++ b/dice-compiler/src/visitor/decl_export.rs
@@ -48,6 +48,11 @@ impl NodeVisitor<&ExportDecl> for Compiler {
             SyntaxNode::FnDecl(fn_decl) => fn_decl.name.identifier.clone(),
             SyntaxNode::ClassDecl(class_decl) => class_decl.name.identifier.clone(),
             SyntaxNode::LitIdent(lit_ident) => lit_ident.identifier.clone(),
+            // TODO: Support exporting every variable of a destructuring declaration.
+            SyntaxNode::VarDecl(VarDecl {
+                kind: VarDeclKind::Destructured(_),
+                ..
+            }) => return Err(Error::new(INVALID_EXPORT_USAGE).with_span(node.span)),
             _ => unreachable!("Invalid export node type encountered."),
         };
 
-- 
2.43.0


From 5669294879e4cfb5ab13aa65a721a5f9991a028a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:11 +0000
Subject: [PATCH 09/21] fix: report functions and classes that clash with
 another declaration

---
 dice-compiler/src/visitor/decl_class.rs | 9 ++++-----
 dice-compiler/src/visitor/decl_fn.rs    | 7 +++----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/dice-compiler/src/visitor/decl_class.rs b/dice-compiler/src/visitor/decl_class.rs
index d36bc6e..6942694 100644
--- a/dice-compiler/src/visitor/decl_class.rs
+++ b/dice-compiler/src/visitor/decl_class.rs
@@ -54,17 +54,16 @@ impl NodeVisitor<&ClassDecl> for Compiler {
                 .local(class_name)
                 .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
 
-            // NOTE: Check if a class of the given name has already been initialized.
-            if let State::Class { ref mut is_initialized } = &mut local.state {
-                if *is_initialized {
+            // NOTE: Check if a class or anything else of the given name has already been initialized.
+            match &mut local.state {
+                State::Class { ref mut is_initialized } if !*is_initialized => *is_initialized = true,
+                _ => {
                     return Err(Error::new(CLASS_ALREADY_DECLARED)
                         .with_span(node.name.span)
                         .with_tags(tags! {
                             name => node.name.identifier.clone()
                         }));
                 }
-
-                *is_initialized = true;
             }
 
             local.slot as u8
diff --git a/dice-compiler/src/visitor/decl_fn.rs b/dice-compiler/src/visitor/decl_fn.rs
index 46222ae..06e844e 100644
--- a/dice-compiler/src/visitor/decl_fn.rs
+++ b/dice-compiler/src/visitor/decl_fn.rs
@@ -66,17 +66,16 @@ impl Compiler {
             .local(fn_name)
             .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
 
-        // NOTE: Check if a function of the given name has already been initialized.
+        // NOTE: Check if a function or anything else of the given name has already been initialized.
         match &mut local.state {
-            State::Function { ref mut is_initialized } if *is_initialized => {
+            State::Function { ref mut is_initialized } if !*is_initialized => *is_initialized = true,
+            _ => {
                 return Err(Error::new(FUNCTION_ALREADY_DECLARED)
                     .with_span(fn_decl.name.span)
                     .with_tags(tags! {
                         name => fn_decl.name.identifier.clone()
                     }));
             }
-            State::Function { ref mut is_initialized } => *is_initialized = true,
-            _ => unreachable!("Unexpected non-function local state while compiling a function."),
         }
 
         let slot = local.slot as u8;
-- 
2.43.0


From d998dda5accad770ca6d92e9eb1edf1941c91720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:05 +0000
Subject: [PATCH 10/21] fix: discard all temporaries when returning out of a
 nested expression

---
 dice-compiler/src/visitor/expr_assignment.rs | 14 +++++++-------
 dice-compiler/src/visitor/expr_binary_op.rs  |  4 ++--
 dice-compiler/src/visitor/literal_list.rs    |  4 ++--
 dice-compiler/src/visitor/literal_object.rs  |  2 +-
 dice-compiler/src/visitor/syntax_node.rs     |  9 +++++++++
 5 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_assignment.rs b/dice-compiler/src/visitor/expr_assignment.rs
index 9d1ea6b..3af8c2a 100644
--- a/dice-compiler/src/visitor/expr_assignment.rs
+++ b/dice-compiler/src/visitor/expr_assignment.rs
@@ -37,13 +37,13 @@ impl NodeVisitor<&Assignment> for Compiler {
 impl Compiler {
     fn assign_index(&mut self, target: Index, assignment: &Assignment) -> Result<(), Error> {
         self.visit(target.expression)?;
-        self.visit(target.index_expression)?;
+        self.visit_with_temporaries(target.index_expression, 1)?;
 
         match assignment.operator {
             AssignmentOperator::Assignment => {
                 emit_bytecode! {
                     self.assembler()?, assignment.span => [
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 2)?};
                         ASSIGN_INDEX;
                     ]
                 }
@@ -54,7 +54,7 @@ impl Compiler {
                         DUP 1;
                         DUP 1;
                         LOAD_INDEX;
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 3)?};
                         {self.visit_operator(operator, assignment.span)?};
                         ASSIGN_INDEX;
                     ]
@@ -72,7 +72,7 @@ impl Compiler {
             AssignmentOperator::Assignment => {
                 emit_bytecode! {
                     self.assembler()?, target.span => [
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 1)?};
                         STORE_FIELD target.field;
                     ]
                 }
@@ -82,7 +82,7 @@ impl Compiler {
                     self.assembler()?, target.span => [
                         DUP 0;
                         LOAD_FIELD &*target.field;
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 2)?};
                         {self.visit_operator(operator, target.span)?};
                         ASSIGN_FIELD target.field;
                     ]
@@ -150,7 +150,7 @@ impl Compiler {
                 emit_bytecode! {
                     self.assembler()?, span => [
                         LOAD_UPVALUE upvalue as u8;
-                        {self.visit(rhs_expression)?};
+                        {self.visit_with_temporaries(rhs_expression, 1)?};
                         {self.visit_operator(operator, span)?};
                         ASSIGN_UPVALUE upvalue as u8;
                     ]
@@ -192,7 +192,7 @@ impl Compiler {
                 emit_bytecode! {
                     self.assembler()?, span => [
                         LOAD_LOCAL slot;
-                        {self.visit(rhs_expression)?};
+                        {self.visit_with_temporaries(rhs_expression, 1)?};
                         {self.visit_operator(operator, span)?};
                         ASSIGN_LOCAL slot;
                     ]
diff --git a/dice-compiler/src/visitor/expr_binary_op.rs b/dice-compiler/src/visitor/expr_binary_op.rs
index c800423..c9f2060 100644
--- a/dice-compiler/src/visitor/expr_binary_op.rs
+++ b/dice-compiler/src/visitor/expr_binary_op.rs
@@ -91,7 +91,7 @@ impl Compiler {
         span: Span,
     ) -> Result<(), Error> {
         self.visit(rhs_expression)?;
-        self.visit(lhs_expression)?;
+        self.visit_with_temporaries(lhs_expression, 1)?;
         self.assembler()?.call(1, span);
 
         Ok(())
@@ -129,7 +129,7 @@ impl Compiler {
         span: Span,
     ) -> Result<(), Error> {
         self.visit(lhs_expression)?;
-        self.visit(rhs_expression)?;
+        self.visit_with_temporaries(rhs_expression, 1)?;
 
         match operator {
             BinaryOperator::Multiply => self.assembler()?.mul(span),
diff --git a/dice-compiler/src/visitor/literal_list.rs b/dice-compiler/src/visitor/literal_list.rs
index 5a8d988..b278674 100644
--- a/dice-compiler/src/visitor/literal_list.rs
+++ b/dice-compiler/src/visitor/literal_list.rs
@@ -5,8 +5,8 @@ use dice_syntax::LitList;
 
 impl NodeVisitor<&LitList> for Compiler {
     fn visit(&mut self, LitList { items: value, span }: &LitList) -> Result<(), Error> {
-        for item in value {
-            self.visit(*item)?;
+        for (index, item) in value.iter().enumerate() {
+            self.visit_with_temporaries(*item, index)?;
         }
 
         self.assembler()?.create_list(value.len() as u8, *span);
diff --git a/dice-compiler/src/visitor/literal_object.rs b/dice-compiler/src/visitor/literal_object.rs
index b9b82bc..b5376bb 100644
--- a/dice-compiler/src/visitor/literal_object.rs
+++ b/dice-compiler/src/visitor/literal_object.rs
@@ -9,7 +9,7 @@ impl NodeVisitor<&LitObject> for Compiler {
 
         for (field, value) in items {
             self.assembler()?.dup(0, *span);
-            self.visit(*value)?;
+            self.visit_with_temporaries(*value, 2)?;
             self.assembler()?.store_field(field.clone(), *span)?;
             self.assembler()?.pop(*span);
         }
diff --git a/dice-compiler/src/visitor/syntax_node.rs b/dice-compiler/src/visitor/syntax_node.rs
index 99dc4de..20d9735 100644
--- a/dice-compiler/src/visitor/syntax_node.rs
+++ b/dice-compiler/src/visitor/syntax_node.rs
@@ -98,6 +98,15 @@ impl NodeVisitor<&SyntaxNode> for Compiler {
 }
 
 impl Compiler {
+    /// Visit a node while the specified number of additional temporaries is stored on the stack.
+    pub(super) fn visit_with_temporaries(&mut self, node: SyntaxNodeId, count: usize) -> Result<(), Error> {
+        *self.context()?.temporary_count() += count;
+        self.visit(node)?;
+        *self.context()?.temporary_count() -= count;
+
+        Ok(())
+    }
+
     fn is_call_chain_link(node: &SyntaxNode) -> bool {
         matches!(
             node,
-- 
2.43.0


From fc5e7f734ffe85ecadfae91b699c1880281307fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:22 +0000
Subject: [PATCH 11/21] fix: keep the stack balanced when breaking out of and
 continuing loops

---
 dice-compiler/src/scope_stack.rs             | 35 ++++++++++++++++----
 dice-compiler/src/visitor/expr_break.rs      |  6 ++++
 dice-compiler/src/visitor/expr_continue.rs   | 15 +++++++--
 dice-compiler/src/visitor/expr_for.rs        | 19 +++++++++--
 dice-compiler/src/visitor/expr_loop.rs       |  2 ++
 dice-compiler/src/visitor/expr_range_loop.rs | 12 +++++--
 dice-compiler/src/visitor/expr_while.rs      |  2 ++
 7 files changed, 78 insertions(+), 13 deletions(-)

diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index 98504a3..d193aad 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -56,6 +56,10 @@ pub struct ScopeContext {
     pub kind: ScopeKind,
     pub entry_point: Option<usize>,
     pub exit_points: Vec<usize>,
+    /// The locations of jumps to the end of the current iteration, for loops that do more than jump back at their end.
+    pub continue_points: Vec<usize>,
+    /// The number of temporaries on the stack at the start of every iteration of a loop.
+    pub temporary_count: usize,
     pub variables: Vec<ScopeVariable>,
     pub call_context: CallContext,
     slot_count: usize,
@@ -68,6 +72,8 @@ impl Default for ScopeContext {
             kind: ScopeKind::Block,
             entry_point: None,
             exit_points: Vec::new(),
+            continue_points: Vec::new(),
+            temporary_count: 0,
             variables: Vec::new(),
             call_context: Default::default(),
             slot_count: 0,
@@ -157,16 +163,33 @@ impl ScopeStack {
         Ok(())
     }
 
-    /// Get the entry point of the first scope to match the specified kind.
-    pub fn entry_point(&mut self, kind: ScopeKind) -> Result<usize, Error> {
+    /// Push the bytecode location of a continue point to the inner most loop's scope, to later be patched.
+    pub fn add_loop_continue_point(&mut self, continue_point: usize) -> Result<(), Error> {
+        let scope = self
+            .first_of_kind_mut(ScopeKind::Loop)
+            .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
+
+        scope.continue_points.push(continue_point);
+
+        Ok(())
+    }
+
+    /// Get the entry point of the first scope to match the specified kind, if it has one.
+    pub fn entry_point(&mut self, kind: ScopeKind) -> Result<Option<usize>, Error> {
         let scope = self
             .first_of_kind(kind)
             .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
 
-        scope
-            .entry_point
-            .clone()
-            .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
+        Ok(scope.entry_point)
+    }
+
+    /// Get the number of temporaries on the stack at the start of every iteration of the inner most loop.
+    pub fn loop_temporary_count(&self) -> Result<usize, Error> {
+        let scope = self
+            .first_of_kind(ScopeKind::Loop)
+            .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
+
+        Ok(scope.temporary_count)
     }
 
     fn first_of_kind(&self, kind: ScopeKind) -> Option<&ScopeContext> {
diff --git a/dice-compiler/src/visitor/expr_break.rs b/dice-compiler/src/visitor/expr_break.rs
index 5f82642..c2a6de4 100644
--- a/dice-compiler/src/visitor/expr_break.rs
+++ b/dice-compiler/src/visitor/expr_break.rs
@@ -11,6 +11,12 @@ impl NodeVisitor<&Break> for Compiler {
             return Err(Error::new(INVALID_BREAK_USAGE).with_span(*span));
         }
 
+        // NOTE: Cleanup any temporaries created since the start of the loop's iteration.
+        let temporary_count = *context.temporary_count() - context.scope_stack().loop_temporary_count()?;
+        for _ in 0..temporary_count {
+            context.assembler().pop(*span);
+        }
+
         let patch_location = context.assembler().jump(*span);
         context.scope_stack().add_loop_exit_point(patch_location as usize)?;
 
diff --git a/dice-compiler/src/visitor/expr_continue.rs b/dice-compiler/src/visitor/expr_continue.rs
index 2a54861..ce4c43a 100644
--- a/dice-compiler/src/visitor/expr_continue.rs
+++ b/dice-compiler/src/visitor/expr_continue.rs
@@ -10,8 +10,19 @@ impl NodeVisitor<&Continue> for Compiler {
             return Err(Error::new(INVALID_CONTINUE_USAGE).with_span(*span));
         }
 
-        let loop_start = context.scope_stack().entry_point(ScopeKind::Loop)?;
-        context.assembler().jump_back(loop_start as u64, *span);
+        // NOTE: Cleanup any temporaries created since the start of the loop's iteration.
+        let temporary_count = *context.temporary_count() - context.scope_stack().loop_temporary_count()?;
+        for _ in 0..temporary_count {
+            context.assembler().pop(*span);
+        }
+
+        match context.scope_stack().entry_point(ScopeKind::Loop)? {
+            Some(loop_start) => context.assembler().jump_back(loop_start as u64, *span),
+            None => {
+                let patch_location = context.assembler().jump(*span);
+                context.scope_stack().add_loop_continue_point(patch_location as usize)?;
+            }
+        }
 
         Ok(())
     }
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index 917561c..5dcfb5f 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -34,6 +34,9 @@ impl NodeVisitor<&ForLoop> for Compiler {
 
         // NOTE: Start a new scope and define the loop variable.
         context.scope_stack().push_scope(ScopeKind::Loop, None);
+        // NOTE: The next method is kept on the stack as a temporary while the loop is running.
+        *context.temporary_count() += 1;
+        context.scope_stack().top_mut()?.temporary_count = *context.temporary_count();
         let variable_slot = context
             .scope_stack()
             .add_local(for_loop.variable.clone(), State::initialized(false))? as u8;
@@ -56,16 +59,27 @@ impl NodeVisitor<&ForLoop> for Compiler {
 
         // NOTE: Close the scope and close out any upvalues at the end of the loop scope, before jumping back.
         let scope_context = context.scope_stack().pop_scope()?;
+        *context.temporary_count() -= 1;
+        context.assembler().pop(for_loop.span);
+        for continue_point in scope_context.continue_points {
+            context.assembler().patch_jump(continue_point as u64);
+        }
         emit_bytecode! {
             context.assembler(), for_loop.span => [
-                POP;
                 CLOSE_UPVALUES scope_context.variables;
                 JUMP_BACK loop_start;
             ]
         }
 
+        // NOTE: Clean up the iterator's last result, which is not on the stack when exiting from the loop's body.
+        emit_bytecode! {
+            context.assembler(), for_loop.span => [
+                PATCH_JUMP <- loop_exit;
+                POP;
+            ]
+        }
+
         // NOTE: Patch all exit points from the loop to jump to after the end of the loop.
-        context.assembler().patch_jump(loop_exit);
         for exit_point in scope_context.exit_points {
             context.assembler().patch_jump(exit_point as u64);
         }
@@ -73,7 +87,6 @@ impl NodeVisitor<&ForLoop> for Compiler {
         // NOTE: Clean up the temporaries stored on the stack and push a unit value.
         emit_bytecode! {
             context.assembler(), for_loop.span => [
-                POP;
                 POP;
                 PUSH_UNIT;
             ]
diff --git a/dice-compiler/src/visitor/expr_loop.rs b/dice-compiler/src/visitor/expr_loop.rs
index d05af6a..ee06e11 100644
--- a/dice-compiler/src/visitor/expr_loop.rs
+++ b/dice-compiler/src/visitor/expr_loop.rs
@@ -12,6 +12,8 @@ impl NodeVisitor<&Loop> for Compiler {
             self.context()?
                 .scope_stack()
                 .push_scope(ScopeKind::Loop, Some(loop_start as usize));
+            let temporary_count = *self.context()?.temporary_count();
+            self.context()?.scope_stack().top_mut()?.temporary_count = temporary_count;
 
             self.visit((&block, BlockKind::Loop))?;
             self.assembler()?.jump_back(loop_start, *span);
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index eb406a9..4f137c1 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -25,7 +25,7 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         // NOTE: Evaluate the end of the range first as a temporary so that it doesn't have to be evaluated again.
         self.visit(range_loop.end)?;
         // NOTE: The start is then evaluated. It will get popped and re-pushed later when stored as a local.
-        self.visit(range_loop.start)?;
+        self.visit_with_temporaries(range_loop.start, 1)?;
 
         let context = self.context()?;
         let loop_start = context.assembler().current_position();
@@ -33,6 +33,9 @@ impl NodeVisitor<&RangeLoop> for Compiler {
 
         // NOTE: Start a new scope and define the loop variable.
         context.scope_stack().push_scope(ScopeKind::Loop, None);
+        // NOTE: The end of the range is kept on the stack as a temporary while the loop is running.
+        *context.temporary_count() += 1;
+        context.scope_stack().top_mut()?.temporary_count = *context.temporary_count();
         let variable_slot = context
             .scope_stack()
             .add_local(range_loop.variable.clone(), State::initialized(false))? as u8;
@@ -56,9 +59,13 @@ impl NodeVisitor<&RangeLoop> for Compiler {
 
         let context = self.context()?;
         // NOTE: Pop off the value from evaluating the loop body and increment the loop variable by 1.
+        context.assembler().pop(range_loop.span);
+        let continue_points = std::mem::take(&mut context.scope_stack().top_mut()?.continue_points);
+        for continue_point in continue_points {
+            context.assembler().patch_jump(continue_point as u64);
+        }
         emit_bytecode! {
             context.assembler(), range_loop.span => [
-                POP;
                 LOAD_LOCAL variable_slot;
                 PUSH_I1;
                 ADD;
@@ -67,6 +74,7 @@ impl NodeVisitor<&RangeLoop> for Compiler {
 
         // NOTE: Close the scope and close out any upvalues at the end of the loop scope, before jumping back.
         let scope_context = context.scope_stack().pop_scope()?;
+        *context.temporary_count() -= 1;
         emit_bytecode! {
             context.assembler(), range_loop.span => [
                 CLOSE_UPVALUES scope_context.variables;
diff --git a/dice-compiler/src/visitor/expr_while.rs b/dice-compiler/src/visitor/expr_while.rs
index 8a48e63..1f49096 100644
--- a/dice-compiler/src/visitor/expr_while.rs
+++ b/dice-compiler/src/visitor/expr_while.rs
@@ -12,6 +12,8 @@ impl NodeVisitor<&WhileLoop> for Compiler {
             self.context()?
                 .scope_stack()
                 .push_scope(ScopeKind::Loop, Some(loop_start as usize));
+            let temporary_count = *self.context()?.temporary_count();
+            self.context()?.scope_stack().top_mut()?.temporary_count = temporary_count;
             self.visit(*condition)?;
 
             let loop_end = self.assembler()?.jump_if_false(*span);
-- 
2.43.0


From ac075bc6cbc275f0d000bc031f4d59079adca96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:53 +0000
Subject: [PATCH 12/21] fix: close captured variables when returning, breaking
 or continuing

---
 dice-compiler/src/scope_stack.rs           | 34 ++++++++++++++++++++++
 dice-compiler/src/visitor/expr_block.rs    | 12 +++++++-
 dice-compiler/src/visitor/expr_break.rs    |  5 ++++
 dice-compiler/src/visitor/expr_continue.rs |  5 ++++
 4 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index d193aad..0868963 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -192,6 +192,40 @@ impl ScopeStack {
         Ok(scope.temporary_count)
     }
 
+    /// Get the slots of the variables that have to be closed before leaving the scopes down to the inner most loop's scope.
+    pub fn loop_captured_slots(&self, include_loop_scope: bool) -> Vec<usize> {
+        let scopes_in_loop = self
+            .stack
+            .iter()
+            .rev()
+            .position(|scope| scope.kind == ScopeKind::Loop)
+            .unwrap_or_default();
+
+        self.stack
+            .iter()
+            .rev()
+            .take(scopes_in_loop + include_loop_scope as usize)
+            .flat_map(|scope| scope.variables.iter())
+            .filter(|variable| variable.is_captured)
+            .map(|variable| variable.slot)
+            .collect()
+    }
+
+    /// Get the slots of the variables that have to be closed before returning.
+    pub fn captured_slots(&self) -> Vec<usize> {
+        // NOTE: The code in the rest of a loop might already have been executed by a previous iteration, so any variable
+        // could have been captured, even though the closure capturing it is yet to be compiled.
+        let is_in_loop = self.in_context_of(ScopeKind::Loop);
+
+        self.stack
+            .iter()
+            .rev()
+            .flat_map(|scope| scope.variables.iter())
+            .filter(|variable| is_in_loop || variable.is_captured)
+            .map(|variable| variable.slot)
+            .collect()
+    }
+
     fn first_of_kind(&self, kind: ScopeKind) -> Option<&ScopeContext> {
         self.stack.iter().rev().find(|scope| scope.kind == kind)
     }
diff --git a/dice-compiler/src/visitor/expr_block.rs b/dice-compiler/src/visitor/expr_block.rs
index 62df36f..5e13678 100644
--- a/dice-compiler/src/visitor/expr_block.rs
+++ b/dice-compiler/src/visitor/expr_block.rs
@@ -81,7 +81,6 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
         self.visit_args(&kind, kind.args())?;
         self.scan_item_decls(block)?;
         self.visit(block)?;
-        self.visit_close_upvalues(block)?;
 
         if let FunctionBlockKind::Function(_) | FunctionBlockKind::Method(_) = kind {
             self.visit_return(block.span)?
@@ -98,6 +97,7 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
                 self.assembler()?, block.span => [
                     POP;
                     LOAD_LOCAL local_slot;
+                    {self.close_all_upvalues(block.span)?};
                     RET;
                 ]
             }
@@ -173,6 +173,14 @@ impl Compiler {
         Ok(())
     }
 
+    fn close_all_upvalues(&mut self, span: Span) -> Result<(), Error> {
+        for slot in self.context()?.scope_stack().captured_slots() {
+            self.assembler()?.close_upvalue(slot as u8, span);
+        }
+
+        Ok(())
+    }
+
     pub(super) fn visit_return(&mut self, span: Span) -> Result<(), Error> {
         if let CompilerKind::Function {
             return_type: Some(return_type),
@@ -184,6 +192,7 @@ impl Compiler {
             emit_bytecode! {
                 self.assembler()?, span => [
                     {self.visit(&return_type.name)?};
+                    {self.close_all_upvalues(span)?};
                     if return_type.is_nullable => [
                         ASSERT_TYPE_OR_NULL_AND_RETURN;
                     ] else [
@@ -192,6 +201,7 @@ impl Compiler {
                 ]
             }
         } else {
+            self.close_all_upvalues(span)?;
             self.assembler()?.ret(span)
         }
 
diff --git a/dice-compiler/src/visitor/expr_break.rs b/dice-compiler/src/visitor/expr_break.rs
index c2a6de4..71988a6 100644
--- a/dice-compiler/src/visitor/expr_break.rs
+++ b/dice-compiler/src/visitor/expr_break.rs
@@ -17,6 +17,11 @@ impl NodeVisitor<&Break> for Compiler {
             context.assembler().pop(*span);
         }
 
+        // NOTE: Close out any upvalues of the scopes being left.
+        for slot in context.scope_stack().loop_captured_slots(true) {
+            context.assembler().close_upvalue(slot as u8, *span);
+        }
+
         let patch_location = context.assembler().jump(*span);
         context.scope_stack().add_loop_exit_point(patch_location as usize)?;
 
diff --git a/dice-compiler/src/visitor/expr_continue.rs b/dice-compiler/src/visitor/expr_continue.rs
index ce4c43a..0078bfa 100644
--- a/dice-compiler/src/visitor/expr_continue.rs
+++ b/dice-compiler/src/visitor/expr_continue.rs
@@ -16,6 +16,11 @@ impl NodeVisitor<&Continue> for Compiler {
             context.assembler().pop(*span);
         }
 
+        // NOTE: Close out any upvalues of the scopes being left. The loop's own scope is closed at the end of the iteration.
+        for slot in context.scope_stack().loop_captured_slots(false) {
+            context.assembler().close_upvalue(slot as u8, *span);
+        }
+
         match context.scope_stack().entry_point(ScopeKind::Loop)? {
             Some(loop_start) => context.assembler().jump_back(loop_start as u64, *span),
             None => {
-- 
2.43.0


From 186d621ab721d46997725800d39bd6a018a9a14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:16 +0000
Subject: [PATCH 13/21] fix: follow the iterator protocol in the prelude's
 inclusive ranges

---
 data/scripts/prelude.dm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/scripts/prelude.dm b/data/scripts/prelude.dm
index 0d90317..aad1eb8 100644
--- a/data/scripts/prelude.dm
+++ b/data/scripts/prelude.dm
@@ -35,9 +35,9 @@ export class RangeInclusive {
         #{
             next: || {
                 let result = if current <= self.end {
-                    #{ value: current, done: false }
+                    #{ value: current, is_done: false }
                 } else {
-                    #{ done: true }
+                    #{ is_done: true }
                 }
 
                 current += 1
-- 
2.43.0


From 3558da926d03cd1b45630e2c0e92f30dedac3219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:36 +0000
Subject: [PATCH 14/21] Add a guarded hook to load modules in a simulation

---
 dice-runtime/src/lib.rs       |  1 +
 dice-runtime/src/runtime.rs   | 39 +++++++++++++++++++++++++++++++++++
 dice-runtime/src/stack/mod.rs |  3 +++
 3 files changed, 43 insertions(+)

diff --git a/dice-runtime/src/lib.rs b/dice-runtime/src/lib.rs
index a54181f..be17f28 100644
--- a/dice-runtime/src/lib.rs
+++ b/dice-runtime/src/lib.rs
@@ -4,6 +4,7 @@ pub mod module;
 pub mod runtime;
 
 // mod classes;
+#[cfg(not(dice_sim))]
 mod interpreter;
 mod stack;
 pub mod type_id;
diff --git a/dice-runtime/src/runtime.rs b/dice-runtime/src/runtime.rs
index e0a88ec..0fcd1b4 100644
--- a/dice-runtime/src/runtime.rs
+++ b/dice-runtime/src/runtime.rs
@@ -68,6 +68,7 @@ where
     }
 }
 
+#[cfg(not(dice_sim))]
 impl<'gc, L> Default for Runtime<L>
 where
     L: ModuleLoader,
@@ -83,6 +84,44 @@ where
     }
 }
 
+/// What a simulation needs to load modules while the interpreter does not compile: a runtime that only loads.
+#[cfg(dice_sim)]
+pub struct ModuleLoading<L: ModuleLoader> {
+    state: Arena<Rootable![State<'_>]>,
+    interner: Box<SymbolInterner>,
+    loader: L,
+}
+
+#[cfg(dice_sim)]
+impl<L: ModuleLoader> Default for ModuleLoading<L> {
+    fn default() -> Self {
+        Self {
+            state: Arena::<Rootable![State<'_>]>::new(|mutation| State::new(mutation)),
+            interner: Default::default(),
+            loader: L::default(),
+        }
+    }
+}
+
+#[cfg(dice_sim)]
+impl<L: ModuleLoader> ModuleLoading<L> {
+    /// Loads a module; gives the name it is known by and its program.
+    pub fn load(&mut self, name: &str) -> Result<(String, Bytecode), Error> {
+        let symbol = self.interner.get_or_intern(name);
+        // SAFETY: The interner is neither changed nor moved while the context, which ends with this call, refers to it.
+        let interner = unsafe { &*(self.interner.as_ref() as *const SymbolInterner) };
+        let loader = &mut self.loader;
+
+        self.state.mutate(|mutation, state| {
+            let ctx = RuntimeContext { mutation, interner, state };
+            let module = loader.load_module(&ctx, symbol)?;
+
+            Ok((interner.resolve(module.id).expect("symbol not found").to_owned(), module.bytecode))
+        })
+    }
+}
+
+#[cfg(not(dice_sim))]
 impl<L> Runtime<L>
 where
     L: ModuleLoader + Default,
diff --git a/dice-runtime/src/stack/mod.rs b/dice-runtime/src/stack/mod.rs
index 3841905..4109313 100644
--- a/dice-runtime/src/stack/mod.rs
+++ b/dice-runtime/src/stack/mod.rs
@@ -10,6 +10,7 @@ mod frame;
 
 // NOTE: Allocate 1MB of stack space, this is 65,536 values when sizeof(Value) == 16
 const MAX_STACK_SIZE: usize = (1024 * 1024) / std::mem::size_of::<Value>();
+#[cfg(not(dice_sim))]
 const MAX_STACK_COUNT: () = assert_eq!(MAX_STACK_SIZE, 65536);
 
 #[derive(Collect)]
@@ -78,11 +79,13 @@ impl<'gc> Stack<'gc> {
     }
 
     // NOTE: Returns the value offset from the top of the stack.
+    #[cfg(not(dice_sim))]
     #[inline]
     pub fn peek_mut(&mut self, offset: usize) -> &mut Value {
         &mut self.values[self.stack_ptr.wrapping_sub(offset).wrapping_sub(1)]
     }
 
+    #[cfg(not(dice_sim))]
     #[inline]
     pub fn peek(&self, offset: usize) -> &Value {
         &self.values[self.stack_ptr.wrapping_sub(offset).wrapping_sub(1)]
-- 
2.43.0


From 26dd4bcbea6e3324c37c78e118130f3eafad4da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 15/21] fix: reject programs beyond the limits of the bytecode

More than 256 local variables, 255 list items or 255 call arguments, and jumps
beyond 32 KiB were truncated silently to what their encoding holds.
---
 data/locales/en-US/errors.ftl                 |  3 +++
 dice-compiler/src/assembler.rs                | 25 ++++++++++++++++---
 dice-compiler/src/compiler.rs                 |  4 ++-
 dice-compiler/src/compiler_stack.rs           | 20 ++++++++++++---
 dice-compiler/src/visitor/decl_fn.rs          |  2 +-
 dice-compiler/src/visitor/decl_op.rs          |  2 +-
 dice-compiler/src/visitor/expr_fn_call.rs     |  6 ++++-
 dice-compiler/src/visitor/expr_super_call.rs  |  9 ++++++-
 .../src/visitor/literal_anonymous_fn.rs       |  2 +-
 dice-compiler/src/visitor/literal_list.rs     |  7 +++++-
 dice-core/src/error/codes.rs                  |  3 +++
 11 files changed, 69 insertions(+), 14 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index d10c728..428f555 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -14,6 +14,9 @@ E2000 = Internal Compiler Error (please report this as a bug with code to reprod
 
 E2100 = The maximum number of upvalues (256) has been exceeded for this compilation unit.
 E2101 = The maximum number of constants (256) has been exceeded for this compilation unit.
+E2102 = The maximum number of local variables (256) has been exceeded for this compilation unit.
+E2103 = The list has too many items (max: 255).
+E2104 = The maximum size of the code of a branch or loop (32 KiB) has been exceeded.
 
 E2200 = The new method cannot specify a return type.
 E2201 = The new method must specify self as the first parameter.
diff --git a/dice-compiler/src/assembler.rs b/dice-compiler/src/assembler.rs
index b034ee5..cdc8d10 100644
--- a/dice-compiler/src/assembler.rs
+++ b/dice-compiler/src/assembler.rs
@@ -19,6 +19,7 @@ pub struct Assembler {
     constants: Vec<ConstantValue>,
     source_map: HashMap<u64, Span>,
     data: Vec<u8>,
+    far_jump: Option<Span>,
 }
 
 impl Assembler {
@@ -27,6 +28,7 @@ impl Assembler {
             constants: Default::default(),
             source_map: Default::default(),
             data: Default::default(),
+            far_jump: None,
         }
     }
 
@@ -260,15 +262,30 @@ impl Assembler {
     }
 
     pub fn patch_jump(&mut self, jump_position: u64) {
-        let offset = (self.current_position() - jump_position - 2) as i16;
-        (&mut self.data[jump_position as usize..]).put_i16(offset)
+        let offset = self.current_position() - jump_position - 2;
+
+        if offset > i16::MAX as u64 {
+            self.far_jump = self.source_map.get(&(jump_position - 1)).copied();
+        }
+
+        (&mut self.data[jump_position as usize..]).put_i16(offset as i16)
     }
 
     pub fn jump_back(&mut self, position: u64, span: Span) {
         self.source_map.insert(self.data.len() as u64, span);
         self.data.put_u8(Instruction::Jump.into());
-        let offset = -((self.current_position() - position + 2) as i16);
-        self.data.put_i16(offset);
+        let offset = self.current_position() - position + 2;
+
+        if offset > i16::MAX as u64 {
+            self.far_jump = Some(span);
+        }
+
+        self.data.put_i16(-(offset as i16));
+    }
+
+    /// The location of a jump that is farther than its offset can encode, if there is any.
+    pub fn far_jump(&self) -> Option<Span> {
+        self.far_jump
     }
 
     pub fn current_position(&self) -> u64 {
diff --git a/dice-compiler/src/compiler.rs b/dice-compiler/src/compiler.rs
index f288c45..bb25f56 100644
--- a/dice-compiler/src/compiler.rs
+++ b/dice-compiler/src/compiler.rs
@@ -64,7 +64,9 @@ impl Compiler {
 
         let compiler_context = self.compiler_stack.pop()?;
 
-        Ok(compiler_context.finish(self.source.clone()))
+        let span = self.syntax_tree.get(self.syntax_tree.root()).span();
+
+        compiler_context.finish(self.source.clone(), span)
     }
 
     pub(super) fn context(&mut self) -> Result<&mut CompilerContext, Error> {
diff --git a/dice-compiler/src/compiler_stack.rs b/dice-compiler/src/compiler_stack.rs
index ea46348..bbbe815 100644
--- a/dice-compiler/src/compiler_stack.rs
+++ b/dice-compiler/src/compiler_stack.rs
@@ -2,8 +2,12 @@ use std::fmt::Display;
 
 use dice_bytecode::Bytecode;
 use dice_core::{
-    error::{codes::INTERNAL_COMPILER_ERROR, Error},
+    error::{
+        codes::{INTERNAL_COMPILER_ERROR, JUMP_TOO_FAR, TOO_MANY_LOCALS},
+        Error,
+    },
     source::Source,
+    span::Span,
 };
 use dice_syntax::TypeAnnotation;
 
@@ -85,10 +89,20 @@ impl CompilerContext {
         &mut self.temporary_count
     }
 
-    pub fn finish(mut self, source: Source) -> Bytecode {
+    pub fn finish(mut self, source: Source, span: Span) -> Result<Bytecode, Error> {
         let slot_count = self.scope_stack.slot_count;
+
+        // NOTE: Slots are encoded in a single byte.
+        if slot_count > 256 {
+            return Err(Error::new(TOO_MANY_LOCALS).with_span(span));
+        }
+
+        if let Some(span) = self.assembler.far_jump() {
+            return Err(Error::new(JUMP_TOO_FAR).with_span(span));
+        }
+
         let upvalue_count = self.upvalues().len();
-        self.assembler.generate(slot_count, upvalue_count, source)
+        Ok(self.assembler.generate(slot_count, upvalue_count, source))
     }
 }
 
diff --git a/dice-compiler/src/visitor/decl_fn.rs b/dice-compiler/src/visitor/decl_fn.rs
index 06e844e..710c907 100644
--- a/dice-compiler/src/visitor/decl_fn.rs
+++ b/dice-compiler/src/visitor/decl_fn.rs
@@ -22,7 +22,7 @@ impl NodeVisitor<(&FnDecl, FnKind)> for Compiler {
         let body = self.syntax_tree.child(fn_decl.body);
         let mut fn_context = self.compile_fn(body, &fn_decl.args, fn_decl.return_.clone(), fn_kind)?;
         let upvalues = fn_context.upvalues().clone();
-        let bytecode = fn_context.finish(self.source.clone());
+        let bytecode = fn_context.finish(self.source.clone(), fn_decl.span)?;
         let compiled_fn = ConstantValue::Function(FunctionBytecode::new(
             bytecode,
             &*fn_decl.name.identifier,
diff --git a/dice-compiler/src/visitor/decl_op.rs b/dice-compiler/src/visitor/decl_op.rs
index d8904e4..8594e5f 100644
--- a/dice-compiler/src/visitor/decl_op.rs
+++ b/dice-compiler/src/visitor/decl_op.rs
@@ -28,7 +28,7 @@ impl NodeVisitor<(&OpDecl, OpKind)> for Compiler {
         let name = Compiler::op_name(node);
 
         let upvalues = op_context.upvalues().clone();
-        let bytecode = op_context.finish(self.source.clone());
+        let bytecode = op_context.finish(self.source.clone(), node.span)?;
         let value = ConstantValue::Function(FunctionBytecode::new(bytecode, name, uuid::Uuid::new_v4()));
 
         match kind {
diff --git a/dice-compiler/src/visitor/expr_fn_call.rs b/dice-compiler/src/visitor/expr_fn_call.rs
index fab31b9..d21d422 100644
--- a/dice-compiler/src/visitor/expr_fn_call.rs
+++ b/dice-compiler/src/visitor/expr_fn_call.rs
@@ -1,12 +1,16 @@
 use super::NodeVisitor;
 use crate::compiler::Compiler;
-use dice_core::error::Error;
+use dice_core::error::{codes::FUNCTION_HAS_TOO_MANY_ARGUMENTS, Error};
 use dice_syntax::FnCall;
 
 impl NodeVisitor<&FnCall> for Compiler {
     fn visit(&mut self, node: &FnCall) -> Result<(), Error> {
         self.visit(node.target)?;
 
+        if node.args.len() > (u8::MAX as usize) {
+            return Err(Error::new(FUNCTION_HAS_TOO_MANY_ARGUMENTS).with_span(node.span));
+        }
+
         // NOTE: Store the temporary at the time the function call was started, to be restored later.
         let original_temporary_count = *self.context()?.temporary_count();
         for arg in &node.args {
diff --git a/dice-compiler/src/visitor/expr_super_call.rs b/dice-compiler/src/visitor/expr_super_call.rs
index c8d3300..b14144c 100644
--- a/dice-compiler/src/visitor/expr_super_call.rs
+++ b/dice-compiler/src/visitor/expr_super_call.rs
@@ -1,5 +1,8 @@
 use dice_core::{
-    error::{codes::INVALID_SUPER_CALL, Error},
+    error::{
+        codes::{FUNCTION_HAS_TOO_MANY_ARGUMENTS, INVALID_SUPER_CALL},
+        Error,
+    },
     protocol::class::{SELF, SUPER},
 };
 use dice_syntax::{LitIdent, SuperCall};
@@ -25,6 +28,10 @@ impl NodeVisitor<&SuperCall> for Compiler {
             .slot as u8;
         self.assembler()?.load_local(local_slot, node.span);
 
+        if node.args.len() > (u8::MAX as usize) {
+            return Err(Error::new(FUNCTION_HAS_TOO_MANY_ARGUMENTS).with_span(node.span));
+        }
+
         // NOTE: Store the temporary at the time the function call was started, to be restored later.
         let original_temporary_count = *self.context()?.temporary_count();
         for arg in &node.args {
diff --git a/dice-compiler/src/visitor/literal_anonymous_fn.rs b/dice-compiler/src/visitor/literal_anonymous_fn.rs
index ab35579..a9c8e9a 100644
--- a/dice-compiler/src/visitor/literal_anonymous_fn.rs
+++ b/dice-compiler/src/visitor/literal_anonymous_fn.rs
@@ -13,7 +13,7 @@ impl NodeVisitor<&LitAnonymousFn> for Compiler {
         let body = self.syntax_tree.child(node.body);
         let mut fn_context = self.compile_fn(body, &node.args, node.return_.clone(), FnKind::Function)?;
         let upvalues = fn_context.upvalues().clone();
-        let bytecode = fn_context.finish(self.source.clone());
+        let bytecode = fn_context.finish(self.source.clone(), node.span)?;
         let value = ConstantValue::Function(FunctionBytecode::new(bytecode, name, id));
         let context = self.context()?;
 
diff --git a/dice-compiler/src/visitor/literal_list.rs b/dice-compiler/src/visitor/literal_list.rs
index b278674..af8ec98 100644
--- a/dice-compiler/src/visitor/literal_list.rs
+++ b/dice-compiler/src/visitor/literal_list.rs
@@ -1,10 +1,15 @@
 use super::NodeVisitor;
 use crate::compiler::Compiler;
-use dice_core::error::Error;
+use dice_core::error::{codes::TOO_MANY_LIST_ITEMS, Error};
 use dice_syntax::LitList;
 
 impl NodeVisitor<&LitList> for Compiler {
     fn visit(&mut self, LitList { items: value, span }: &LitList) -> Result<(), Error> {
+        // NOTE: The number of items is encoded in a single byte.
+        if value.len() > (u8::MAX as usize) {
+            return Err(Error::new(TOO_MANY_LIST_ITEMS).with_span(*span));
+        }
+
         for (index, item) in value.iter().enumerate() {
             self.visit_with_temporaries(*item, index)?;
         }
diff --git a/dice-core/src/error/codes.rs b/dice-core/src/error/codes.rs
index 6f240f7..ae1785b 100644
--- a/dice-core/src/error/codes.rs
+++ b/dice-core/src/error/codes.rs
@@ -17,6 +17,9 @@ pub static INTERNAL_COMPILER_ERROR: ErrorCode = "E2000";
 
 pub static TOO_MANY_UPVALUES: ErrorCode = "E2100";
 pub static TOO_MANY_CONSTANTS: ErrorCode = "E2101";
+pub static TOO_MANY_LOCALS: ErrorCode = "E2102";
+pub static TOO_MANY_LIST_ITEMS: ErrorCode = "E2103";
+pub static JUMP_TOO_FAR: ErrorCode = "E2104";
 
 pub static NEW_METHOD_CANNOT_HAVE_RETURN_TYPE: ErrorCode = "E2200";
 pub static NEW_METHOD_MUST_HAVE_RECEIVER: ErrorCode = "E2201";
-- 
2.43.0


From 2c1852bf01e891635d7397fec9a7b4a64b79253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:15 +0000
Subject: [PATCH 16/21] Add a guarded hook to operate the heap in a simulation

---
 dice-runtime/src/lib.rs |   2 +
 dice-runtime/src/sim.rs | 146 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 148 insertions(+)
 create mode 100644 dice-runtime/src/sim.rs

diff --git a/dice-runtime/src/lib.rs b/dice-runtime/src/lib.rs
index be17f28..0a6f926 100644
--- a/dice-runtime/src/lib.rs
+++ b/dice-runtime/src/lib.rs
@@ -6,6 +6,8 @@ pub mod runtime;
 // mod classes;
 #[cfg(not(dice_sim))]
 mod interpreter;
+#[cfg(dice_sim)]
+pub mod sim;
 mod stack;
 pub mod type_id;
 mod upvalue;
diff --git a/dice-runtime/src/sim.rs b/dice-runtime/src/sim.rs
new file mode 100644
index 0000000..b69143d
--- /dev/null
+++ b/dice-runtime/src/sim.rs
@@ -0,0 +1,146 @@
+//! What a simulation needs to drive the heap while the interpreter does not compile.
+use std::collections::VecDeque;
+
+use gc_arena::{metrics::Pacing, Arena, CollectionPhase, Rootable};
+
+use crate::runtime::State;
+pub use uuid::Uuid;
+pub use crate::{
+    runtime::RuntimeContext,
+    stack::{Stack, StackFrame},
+    upvalue::{Upvalue, UpvalueState},
+    value::*,
+};
+
+/// The state of a runtime, with its collector under the control of the caller.
+pub struct Heap {
+    arena: Arena<Rootable![State<'_>]>,
+    interner: Box<SymbolInterner>,
+}
+
+impl Default for Heap {
+    fn default() -> Self {
+        Self {
+            arena: Arena::<Rootable![State<'_>]>::new(|mutation| State::new(mutation)),
+            interner: Default::default(),
+        }
+    }
+}
+
+impl Heap {
+    pub fn intern(&mut self, name: &str) -> Symbol {
+        self.interner.get_or_intern(name)
+    }
+
+    pub fn resolve(&self, symbol: Symbol) -> Option<String> {
+        self.interner.resolve(symbol).map(Into::into)
+    }
+
+    /// Runs a part of a program; no collection happens meanwhile.
+    pub fn step<T>(&mut self, f: impl for<'gc> FnOnce(&RuntimeContext<'gc>, &mut Access<'gc>) -> T) -> T {
+        // SAFETY: The interner is neither changed nor moved while the context, which ends with this call, refers to it.
+        let interner = unsafe { &*(self.interner.as_ref() as *const SymbolInterner) };
+
+        self.arena.mutate_root(|mutation, state| {
+            let state = state as *mut State<'_>;
+            // SAFETY: No reference that is handed out by the access is alive while the context uses the state.
+            let ctx = RuntimeContext {
+                mutation,
+                interner,
+                state: unsafe { &*state },
+            };
+
+            f(&ctx, &mut Access { state })
+        })
+    }
+
+    pub fn collect_debt(&mut self, bytes: usize) {
+        self.arena.metrics().mark_external_allocation(bytes);
+        self.arena.collect_debt();
+    }
+
+    pub fn mark_debt(&mut self, bytes: usize) {
+        self.arena.metrics().mark_external_allocation(bytes);
+        self.arena.mark_debt();
+    }
+
+    pub fn mark_all(&mut self, start_collecting: bool) {
+        if let Some(marked) = self.arena.mark_all() {
+            if start_collecting {
+                marked.start_collecting();
+            }
+        }
+    }
+
+    pub fn collect_all(&mut self) {
+        self.arena.collect_all();
+    }
+
+    pub fn set_pacing(&mut self, pause: f64, timing: f64, sleep: usize) {
+        let pacing = Pacing::default()
+            .with_pause_factor(pause)
+            .with_timing_factor(timing)
+            .with_min_sleep(sleep);
+
+        self.arena.metrics().set_pacing(pacing);
+    }
+
+    pub fn phase(&self) -> &'static str {
+        match self.arena.collection_phase() {
+            CollectionPhase::Sleeping => "sleeping",
+            CollectionPhase::Marking => "marking",
+            CollectionPhase::Marked => "marked",
+            CollectionPhase::Collecting => "sweeping",
+        }
+    }
+
+    pub fn allocation(&self) -> usize {
+        self.arena.metrics().total_gc_allocation()
+    }
+}
+
+/// Some functions take the context by value.
+pub fn again<'gc>(ctx: &RuntimeContext<'gc>) -> RuntimeContext<'gc> {
+    RuntimeContext {
+        mutation: ctx.mutation,
+        interner: ctx.interner,
+        state: ctx.state,
+    }
+}
+
+/// The parts of the state that a program changes.
+pub struct Access<'gc> {
+    state: *mut State<'gc>,
+}
+
+// SAFETY: The pointer is that of the exclusive reference to the state the access was made from.
+impl<'gc> Access<'gc> {
+    pub fn stack(&mut self) -> &mut Stack<'gc> {
+        unsafe { &mut (*self.state).stack }
+    }
+
+    pub fn open_upvalues(&mut self) -> &mut VecDeque<Upvalue<'gc>> {
+        unsafe { &mut (*self.state).open_upvalues }
+    }
+
+    pub fn globals(&mut self) -> &mut ValueMap<'gc> {
+        unsafe { &mut (*self.state).globals }
+    }
+
+    pub fn loaded_modules(&mut self) -> &mut ValueMap<'gc> {
+        unsafe { &mut (*self.state).loaded_modules }
+    }
+
+    pub fn class_of_kind(&mut self, kind: ValueKind) -> Option<Class<'gc>> {
+        unsafe { (*self.state).value_class_mapping.get(&kind).cloned() }
+    }
+
+    pub fn set_class_of_kind(&mut self, kind: ValueKind, class: Option<Class<'gc>>) {
+        let classes = unsafe { &mut (*self.state).value_class_mapping };
+
+        match class {
+            Some(class) => classes.insert(kind, class),
+            None => classes.remove(&kind),
+        };
+    }
+}
-- 
2.43.0


From ac9d5cc8f0369299727354b4cb74f02a301b0f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:15 +0000
Subject: [PATCH 17/21] fix: give a derived class static fields of its own

---
 dice-runtime/src/value/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dice-runtime/src/value/object.rs b/dice-runtime/src/value/object.rs
index 6755cd5..6f9334d 100644
--- a/dice-runtime/src/value/object.rs
+++ b/dice-runtime/src/value/object.rs
@@ -36,7 +36,7 @@ impl<'gc> Object<'gc> {
                 ctx.mutation,
                 ObjectInner {
                     class: self.inner.class.clone(),
-                    fields: self.inner.fields.clone(),
+                    fields: Gc::new(ctx.mutation, RefLock::new(self.inner.fields.borrow().clone())),
                 },
             ),
         }
-- 
2.43.0


From c4f97eb6cc5625244559daaa6b3d9c4da74ce92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:15 +0000
Subject: [PATCH 18/21] fix: compare arrays by identity instead of by endless
 recursion

---
 dice-runtime/src/value/array.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dice-runtime/src/value/array.rs b/dice-runtime/src/value/array.rs
index 48cc388..5364f7b 100644
--- a/dice-runtime/src/value/array.rs
+++ b/dice-runtime/src/value/array.rs
@@ -10,7 +10,7 @@ use crate::{
     value::{Object, Value},
 };
 
-#[derive(Clone, PartialEq, Collect)]
+#[derive(Clone, Collect)]
 #[collect(no_drop)]
 pub struct Array<'gc> {
     inner: Gc<'gc, ArrayInner<'gc>>,
@@ -46,6 +46,13 @@ impl<'gc> Array<'gc> {
     }
 }
 
+impl PartialEq for Array<'_> {
+    fn eq(&self, other: &Self) -> bool {
+        // NOTE: Every array has an object of its own, which tells it from any other array, whatever they contain.
+        self.inner.object == other.inner.object
+    }
+}
+
 // impl Display for Array<'_> {
 //     fn fmt(&self, fmt: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
 //         let items = self
@@ -69,7 +76,7 @@ impl<'gc> Deref for Array<'gc> {
     }
 }
 
-#[derive(Clone, PartialEq, Collect)]
+#[derive(Clone, Collect)]
 #[collect(no_drop)]
 struct ArrayInner<'gc> {
     array: Gc<'gc, RefLock<Vec<Value<'gc>>>>,
-- 
2.43.0


From 7648bc0aaf10d6cd4aa8a51c990785bef35c410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:16 +0000
Subject: [PATCH 19/21] fix: report an else that is followed by neither if nor
 a block

---
 dice-syntax/src/parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index 18ae35c..b3ffa36 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -153,10 +153,11 @@ impl<'a> Parser<'a> {
         let secondary = if self.lexer.peek()?.kind == TokenKind::Else {
             self.lexer.consume(TokenKind::Else)?;
 
-            match self.lexer.peek()?.kind {
+            let next = self.lexer.peek()?;
+            match next.kind {
                 TokenKind::If => Some(self.if_expression(false)?),
                 TokenKind::LeftCurly => Some(self.block_expression(false)?),
-                _ => None,
+                kind => self.unexpected_token(kind, &[TokenKind::If, TokenKind::LeftCurly], next.span)?,
             }
         } else {
             None
-- 
2.43.0


From e2038ff02349660dab03ee218bfed4a84be1e7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:16 +0000
Subject: [PATCH 20/21] fix: read the string of an object's key instead of
 keeping its quotes

---
 dice-syntax/src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index b3ffa36..c4d5b69 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -954,7 +954,8 @@ impl<'a> Parser<'a> {
         while self.lexer.peek()?.kind != TokenKind::RightCurly {
             let next = self.lexer.next()?.clone();
             let key = match next.kind {
-                TokenKind::String | TokenKind::Integer | TokenKind::Identifier => next.slice.to_owned(),
+                TokenKind::String => process_string(next.slice, StringMode::Escaped)?,
+                TokenKind::Integer | TokenKind::Identifier => next.slice.to_owned(),
                 kind => self.unexpected_token(
                     kind,
                     &[TokenKind::String, TokenKind::Integer, TokenKind::Identifier],
-- 
2.43.0


From 1b9265e171b0d4d5ce0f11833090f1a00476dc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:16 +0000
Subject: [PATCH 21/21] fix: number every quoted line of a trace by itself

---
 dice-core/src/error/fmt.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dice-core/src/error/fmt.rs b/dice-core/src/error/fmt.rs
index 75fb5e8..3511aaf 100644
--- a/dice-core/src/error/fmt.rs
+++ b/dice-core/src/error/fmt.rs
@@ -152,6 +152,8 @@ impl HumanReadableErrorFormatter {
                 }
 
                 for line in trace.source.line_index().lines(trace.span) {
+                    let position = trace.source.line_index().position_of(line.start);
+
                     writeln!(
                         buffer,
                         "    {:<4} | {}",
-- 
2.43.0

