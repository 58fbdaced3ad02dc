From a637a34bdb741795ae788614142ae2a2e75e0e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 01/50] fix: parse comments of a module that holds only white
 space

---
 lib/parse/src/parser.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/parse/src/parser.rs b/lib/parse/src/parser.rs
index 138eb84..d3926e9 100644
--- a/lib/parse/src/parser.rs
+++ b/lib/parse/src/parser.rs
@@ -56,15 +56,18 @@ pub fn module(input: Input) -> IResult<Module> {
 
 pub fn comments(input: Input) -> IResult<Vec<Comment>> {
     map(
-        all_consuming(many0((
-            multispace0,
-            alt((
-                map(comment, Some),
-                map(raw_string_literal, |_| None),
-                map(none_of("\"#"), |_| None),
+        all_consuming(terminated(
+            many0((
+                multispace0,
+                alt((
+                    map(comment, Some),
+                    map(raw_string_literal, |_| None),
+                    map(none_of("\"#"), |_| None),
+                )),
+                multispace0,
             )),
             multispace0,
-        ))),
+        )),
         |comments| {
             comments
                 .into_iter()
-- 
2.43.0


From b43e9e7d2f35257745023fd44a0c770830f35a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 02/50] fix: keep parentheses around function types at the end
 of union types

---
 lib/format/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index e05ac8a..f6d2c83 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -309,11 +309,10 @@ fn compile_type<'a>(context: &Context<'a>, type_: &'a Type) -> Document<'a> {
             let union = builder.sequence(
                 types
                     .iter()
-                    .enumerate()
-                    .map(|(index, type_)| {
+                    .map(|type_| {
                         let document = compile_type(context, type_);
 
-                        if index != types.len() - 1 && matches!(type_, Type::Function(_)) {
+                        if matches!(type_, Type::Function(_)) {
                             builder.sequence(["(".into(), document, ")".into()])
                         } else {
                             document
-- 
2.43.0


From e0a32a619e4fddba7777cd8806b3774cacdfb3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 03/50] fix: keep parentheses around right operands of equal
 priority

---
 lib/format/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index f6d2c83..9f5d65f 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -822,12 +822,16 @@ fn compile_binary_operation<'a>(
 ) -> Document<'a> {
     let builder = context.builder();
     let document = builder.sequence([
-        compile_operand(context, operation.lhs(), operation.operator()),
+        compile_operand(context, operation.lhs(), |operator| {
+            operator_priority(operator) < operator_priority(operation.operator())
+        }),
         builder.indent(builder.sequence([
             line(),
             compile_binary_operator(operation.operator()),
             " ".into(),
-            compile_operand(context, operation.rhs(), operation.operator()),
+            compile_operand(context, operation.rhs(), |operator| {
+                operator_priority(operator) <= operator_priority(operation.operator())
+            }),
         ])),
     ]);
 
@@ -840,7 +844,7 @@ fn compile_binary_operation<'a>(
 fn compile_operand<'a>(
     context: &mut Context<'a>,
     operand: &'a Expression,
-    parent_operator: BinaryOperator,
+    is_parenthesized: impl Fn(BinaryOperator) -> bool,
 ) -> Document<'a> {
     let document = compile_expression(context, operand);
 
@@ -848,7 +852,7 @@ fn compile_operand<'a>(
         Expression::BinaryOperation(operation) => Some(operation),
         _ => None,
     }
-    .map(|operand| operator_priority(operand.operator()) < operator_priority(parent_operator))
+    .map(|operand| is_parenthesized(operand.operator()))
     .unwrap_or_default()
     {
         context
-- 
2.43.0


From d1fb88971a04db567537e5c22a5831d7d22f8f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 04/50] fix: keep parentheses around operands of suffix
 operators

---
 lib/format/src/lib.rs | 56 +++++++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index 9f5d65f..3f3e182 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -474,7 +474,7 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
         Expression::BinaryOperation(operation) => compile_binary_operation(context, operation),
         Expression::Call(call) => {
             let separator = builder.sequence([",".into(), line()]);
-            let function = compile_expression(context, call.function());
+            let function = compile_suffix_operand(context, call.function());
             let arguments = builder.sequence(
                 call.arguments()
                     .iter()
@@ -645,24 +645,34 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
             ])
         }
         Expression::RecordDeconstruction(deconstruction) => builder.sequence([
-            compile_expression(context, deconstruction.expression()),
+            match deconstruction.expression() {
+                Expression::Number(_) => builder.sequence([
+                    "(".into(),
+                    compile_expression(context, deconstruction.expression()),
+                    ")".into(),
+                ]),
+                expression => compile_suffix_operand(context, expression),
+            },
             ".".into(),
             deconstruction.name().into(),
         ]),
         Expression::String(string) => builder.strings(["\"", string.value(), "\""]),
-        Expression::UnaryOperation(operation) => {
-            let operand = compile_expression(context, operation.expression());
-            let operand = if matches!(operation.expression(), Expression::BinaryOperation(_)) {
-                builder.sequence(["(".into(), operand, ")".into()])
-            } else {
-                operand
-            };
+        Expression::UnaryOperation(operation) => match operation.operator() {
+            UnaryOperator::Not => {
+                let operand = compile_expression(context, operation.expression());
+                let operand = if matches!(operation.expression(), Expression::BinaryOperation(_)) {
+                    builder.sequence(["(".into(), operand, ")".into()])
+                } else {
+                    operand
+                };
 
-            match operation.operator() {
-                UnaryOperator::Not => builder.sequence(["!".into(), operand]),
-                UnaryOperator::Try => builder.sequence([operand, "?".into()]),
+                builder.sequence(["!".into(), operand])
             }
-        }
+            UnaryOperator::Try => builder.sequence([
+                compile_suffix_operand(context, operation.expression()),
+                "?".into(),
+            ]),
+        },
         Expression::Variable(variable) => variable.name().into(),
     }
 }
@@ -863,6 +873,26 @@ fn compile_operand<'a>(
     }
 }
 
+fn compile_suffix_operand<'a>(context: &mut Context<'a>, operand: &'a Expression) -> Document<'a> {
+    let document = compile_expression(context, operand);
+
+    if is_weaker_than_suffix(operand) {
+        context
+            .builder()
+            .sequence(["(".into(), document, ")".into()])
+    } else {
+        document
+    }
+}
+
+fn is_weaker_than_suffix(expression: &Expression) -> bool {
+    match expression {
+        Expression::BinaryOperation(_) => true,
+        Expression::UnaryOperation(operation) => operation.operator() == UnaryOperator::Not,
+        _ => false,
+    }
+}
+
 fn compile_binary_operator(operator: BinaryOperator) -> Document<'static> {
     match operator {
         BinaryOperator::Or => "|",
-- 
2.43.0


From 7a312fd95ada1cbfa4129310f9bd54967520fe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 05/50] fix: keep parentheses around if conditions starting
 with lists

---
 lib/format/src/lib.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index 3f3e182..7d683de 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -677,13 +677,38 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
     }
 }
 
+// Finds an expression that a given expression starts with.
+fn first_expression(expression: &Expression) -> &Expression {
+    match expression {
+        Expression::BinaryOperation(operation) => first_expression(operation.lhs()),
+        Expression::Call(call) => first_expression(call.function()),
+        Expression::RecordDeconstruction(deconstruction) => {
+            first_expression(deconstruction.expression())
+        }
+        Expression::UnaryOperation(operation) if operation.operator() == UnaryOperator::Try => {
+            first_expression(operation.expression())
+        }
+        _ => expression,
+    }
+}
+
 fn compile_if<'a>(context: &mut Context<'a>, if_: &'a If) -> Document<'a> {
     let builder = context.builder();
     let document = builder.sequence([
         builder.sequence(if_.branches().iter().map(|branch| {
+            let condition = compile_expression(context, branch.condition());
+
             builder.sequence([
                 "if ".into(),
-                compile_expression(context, branch.condition()),
+                // Avoid confusion with list patterns.
+                if matches!(
+                    first_expression(branch.condition()),
+                    Expression::List(_) | Expression::ListComprehension(_)
+                ) {
+                    builder.sequence(["(".into(), condition, ")".into()])
+                } else {
+                    condition
+                },
                 " ".into(),
                 compile_block(context, branch.block()),
                 " else ".into(),
-- 
2.43.0


From d5b0ae8c8e4d9fbb37b755757106f2fb75cb1c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 06/50] fix: keep parentheses around signed numbers after
 statements

---
 lib/format/src/lib.rs | 52 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index 7d683de..2d36461 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -416,12 +416,13 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
                     .map(|statement| statement.position())
                     .chain([block.expression().position()]),
             )
-            .map(|(statement, next_position)| {
+            .enumerate()
+            .map(|(index, (statement, next_position))| {
                 let block_comment = compile_block_comment(context, statement.position());
                 // TODO Use end positions of spans when they are available.
                 let line_count = next_position.line_number() as isize
                     - statement.position().line_number() as isize;
-                let statement_document = compile_statement(context, statement);
+                let statement_document = compile_statement(context, statement, index == 0);
 
                 let extra_line = if (count_lines(&statement_document)
                     + context
@@ -444,7 +445,11 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
             line(),
             statements,
             compile_line_comment(context, block.expression().position(), |context| {
-                compile_expression(context, block.expression())
+                compile_block_expression(
+                    context,
+                    block.expression(),
+                    block.statements().is_empty(),
+                )
             }),
         ])),
         line(),
@@ -452,21 +457,54 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
     ])
 }
 
-fn compile_statement<'a>(context: &mut Context<'a>, statement: &'a Statement) -> Document<'a> {
+fn compile_statement<'a>(
+    context: &mut Context<'a>,
+    statement: &'a Statement,
+    first: bool,
+) -> Document<'a> {
     let builder = context.builder();
 
     builder.sequence([
         if let Some(name) = statement.name() {
-            builder.strings([name, " = "])
+            builder.sequence([
+                builder.strings([name, " = "]),
+                compile_expression(context, statement.expression()),
+            ])
         } else {
-            empty()
+            compile_block_expression(context, statement.expression(), first)
         },
-        compile_expression(context, statement.expression()),
         compile_suffix_comment(context, statement.position()),
         builder.r#break(line()),
     ])
 }
 
+fn compile_block_expression<'a>(
+    context: &mut Context<'a>,
+    expression: &'a Expression,
+    first: bool,
+) -> Document<'a> {
+    let document = compile_expression(context, expression);
+
+    // Avoid confusion of signs with binary operators after preceding statements.
+    if !first && is_signed_number(first_expression(expression)) {
+        context
+            .builder()
+            .sequence(["(".into(), document, ")".into()])
+    } else {
+        document
+    }
+}
+
+fn is_signed_number(expression: &Expression) -> bool {
+    match expression {
+        Expression::Number(number) => match number.value() {
+            NumberRepresentation::FloatingPoint(string) => string.starts_with(['+', '-']),
+            NumberRepresentation::Binary(_) | NumberRepresentation::Hexadecimal(_) => false,
+        },
+        _ => false,
+    }
+}
+
 fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression) -> Document<'a> {
     let builder = context.builder();
 
-- 
2.43.0


From 10cc4c846908b372b8d156e6be767885084ab6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 07/50] fix: keep parentheses around maps after statements

---
 lib/format/src/lib.rs | 55 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index 2d36461..aef8836 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -416,13 +416,19 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
                     .map(|statement| statement.position())
                     .chain([block.expression().position()]),
             )
-            .enumerate()
-            .map(|(index, (statement, next_position))| {
+            .scan(None, |previous, (statement, next_position)| {
+                Some((
+                    previous.replace(statement.expression()),
+                    statement,
+                    next_position,
+                ))
+            })
+            .map(|(previous, statement, next_position)| {
                 let block_comment = compile_block_comment(context, statement.position());
                 // TODO Use end positions of spans when they are available.
                 let line_count = next_position.line_number() as isize
                     - statement.position().line_number() as isize;
-                let statement_document = compile_statement(context, statement, index == 0);
+                let statement_document = compile_statement(context, statement, previous);
 
                 let extra_line = if (count_lines(&statement_document)
                     + context
@@ -448,7 +454,10 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
                 compile_block_expression(
                     context,
                     block.expression(),
-                    block.statements().is_empty(),
+                    block
+                        .statements()
+                        .last()
+                        .map(|statement| statement.expression()),
                 )
             }),
         ])),
@@ -460,7 +469,7 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
 fn compile_statement<'a>(
     context: &mut Context<'a>,
     statement: &'a Statement,
-    first: bool,
+    previous: Option<&Expression>,
 ) -> Document<'a> {
     let builder = context.builder();
 
@@ -471,7 +480,7 @@ fn compile_statement<'a>(
                 compile_expression(context, statement.expression()),
             ])
         } else {
-            compile_block_expression(context, statement.expression(), first)
+            compile_block_expression(context, statement.expression(), previous)
         },
         compile_suffix_comment(context, statement.position()),
         builder.r#break(line()),
@@ -481,12 +490,11 @@ fn compile_statement<'a>(
 fn compile_block_expression<'a>(
     context: &mut Context<'a>,
     expression: &'a Expression,
-    first: bool,
+    previous: Option<&Expression>,
 ) -> Document<'a> {
     let document = compile_expression(context, expression);
 
-    // Avoid confusion of signs with binary operators after preceding statements.
-    if !first && is_signed_number(first_expression(expression)) {
+    if previous.is_some_and(|previous| is_continued(previous, expression)) {
         context
             .builder()
             .sequence(["(".into(), document, ")".into()])
@@ -495,16 +503,35 @@ fn compile_block_expression<'a>(
     }
 }
 
-fn is_signed_number(expression: &Expression) -> bool {
+// Checks if an expression is parsed as a part of its previous one.
+fn is_continued(previous: &Expression, expression: &Expression) -> bool {
+    match first_expression(expression) {
+        // Signs are parsed as binary operators.
+        Expression::Number(number) => is_signed_number(number),
+        // Maps after variables are parsed as records.
+        Expression::Map(_) => ends_with_variable(previous),
+        _ => false,
+    }
+}
+
+fn ends_with_variable(expression: &Expression) -> bool {
     match expression {
-        Expression::Number(number) => match number.value() {
-            NumberRepresentation::FloatingPoint(string) => string.starts_with(['+', '-']),
-            NumberRepresentation::Binary(_) | NumberRepresentation::Hexadecimal(_) => false,
-        },
+        Expression::BinaryOperation(operation) => ends_with_variable(operation.rhs()),
+        Expression::UnaryOperation(operation) => {
+            operation.operator() == UnaryOperator::Not && ends_with_variable(operation.expression())
+        }
+        Expression::Variable(_) => true,
         _ => false,
     }
 }
 
+fn is_signed_number(number: &Number) -> bool {
+    match number.value() {
+        NumberRepresentation::FloatingPoint(string) => string.starts_with(['+', '-']),
+        NumberRepresentation::Binary(_) | NumberRepresentation::Hexadecimal(_) => false,
+    }
+}
+
 fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression) -> Document<'a> {
     let builder = context.builder();
 
-- 
2.43.0


From b4aa8ba942433eaec45b9d989fdd3a07ba31708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 08/50] fix: break arguments of signatures with comments on
 lines of their own

---
 lib/format/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index aef8836..cd15bb6 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -381,7 +381,7 @@ fn compile_signature<'a>(
 
     builder.sequence([
         "\\(".into(),
-        if flat {
+        if flat && !is_broken(&arguments) {
             builder.flatten(arguments)
         } else {
             builder.r#break(builder.sequence([
-- 
2.43.0


From 51802d4eb389894b10d67dfec1946054949d13c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 09/50] Observe reference counts for verification behind cfg
 pen_verif

---
 lib/ffi/src/arc/arc_block.rs |   6 +-
 lib/ffi/src/lib.rs           |   3 +
 lib/ffi/src/verif.rs         | 123 +++++++++++++++++++++++++++++++++++
 3 files changed, 131 insertions(+), 1 deletion(-)
 create mode 100644 lib/ffi/src/verif.rs

diff --git a/lib/ffi/src/arc/arc_block.rs b/lib/ffi/src/arc/arc_block.rs
index b7c497a..272d32b 100644
--- a/lib/ffi/src/arc/arc_block.rs
+++ b/lib/ffi/src/arc/arc_block.rs
@@ -1,8 +1,12 @@
+#[cfg(pen_verif)]
+use crate::verif::{fence, AtomicIsize};
 use alloc::alloc::{alloc, dealloc};
+#[cfg(not(pen_verif))]
+use core::sync::atomic::{fence, AtomicIsize};
 use core::{
     alloc::Layout,
     ptr::{drop_in_place, null, NonNull},
-    sync::atomic::{fence, AtomicIsize, Ordering},
+    sync::atomic::Ordering,
 };
 
 const UNIQUE_COUNT: isize = 0;
diff --git a/lib/ffi/src/lib.rs b/lib/ffi/src/lib.rs
index 139716c..4dbb5ad 100644
--- a/lib/ffi/src/lib.rs
+++ b/lib/ffi/src/lib.rs
@@ -1,4 +1,5 @@
 #![no_std]
+#![allow(unexpected_cfgs)]
 
 extern crate alloc;
 #[cfg(any(test, feature = "std"))]
@@ -20,6 +21,8 @@ mod number;
 pub mod runtime;
 mod string;
 mod type_information;
+#[cfg(pen_verif)]
+pub mod verif;
 
 pub use any::*;
 pub use arc::*;
diff --git a/lib/ffi/src/verif.rs b/lib/ffi/src/verif.rs
new file mode 100644
index 0000000..b61aca7
--- /dev/null
+++ b/lib/ffi/src/verif.rs
@@ -0,0 +1,123 @@
+//! Observation of reference counts for verification. Compiled only with `--cfg pen_verif`.
+
+use core::{
+    mem::transmute,
+    ptr::null_mut,
+    sync::atomic::{self, AtomicPtr, Ordering},
+};
+
+#[derive(Clone, Copy, Debug, Eq, PartialEq)]
+pub enum Operation {
+    Load(Ordering),
+    Store(Ordering),
+    Update(Ordering),
+    Fence(Ordering),
+}
+
+/// Called right before every operation on a count with its address, and before every fence with a null address.
+pub type Observer = fn(address: *const (), operation: Operation);
+
+static OBSERVER: AtomicPtr<()> = AtomicPtr::new(null_mut());
+
+pub fn observe(observer: Option<Observer>) {
+    OBSERVER.store(
+        observer.map_or(null_mut(), |observer| observer as *mut ()),
+        Ordering::SeqCst,
+    );
+}
+
+fn notify(address: *const (), operation: Operation) {
+    let observer = OBSERVER.load(Ordering::Relaxed);
+
+    if !observer.is_null() {
+        (unsafe { transmute::<*mut (), Observer>(observer) })(address, operation);
+    }
+}
+
+pub fn fence(ordering: Ordering) {
+    notify(null_mut(), Operation::Fence(ordering));
+    atomic::fence(ordering)
+}
+
+#[derive(Debug)]
+#[repr(transparent)]
+pub struct AtomicIsize(atomic::AtomicIsize);
+
+impl AtomicIsize {
+    pub const fn new(value: isize) -> Self {
+        Self(atomic::AtomicIsize::new(value))
+    }
+
+    fn notify(&self, operation: Operation) {
+        notify(self as *const Self as *const (), operation)
+    }
+
+    pub fn get_mut(&mut self) -> &mut isize {
+        self.0.get_mut()
+    }
+
+    pub fn load(&self, ordering: Ordering) -> isize {
+        self.notify(Operation::Load(ordering));
+        self.0.load(ordering)
+    }
+
+    pub fn store(&self, value: isize, ordering: Ordering) {
+        self.notify(Operation::Store(ordering));
+        self.0.store(value, ordering)
+    }
+
+    pub fn swap(&self, value: isize, ordering: Ordering) -> isize {
+        self.notify(Operation::Update(ordering));
+        self.0.swap(value, ordering)
+    }
+
+    pub fn fetch_add(&self, value: isize, ordering: Ordering) -> isize {
+        self.notify(Operation::Update(ordering));
+        self.0.fetch_add(value, ordering)
+    }
+
+    pub fn fetch_sub(&self, value: isize, ordering: Ordering) -> isize {
+        self.notify(Operation::Update(ordering));
+        self.0.fetch_sub(value, ordering)
+    }
+
+    pub fn compare_exchange(
+        &self,
+        current: isize,
+        new: isize,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<isize, isize> {
+        self.notify(Operation::Update(success));
+        self.0.compare_exchange(current, new, success, failure)
+    }
+
+    pub fn compare_exchange_weak(
+        &self,
+        current: isize,
+        new: isize,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<isize, isize> {
+        self.notify(Operation::Update(success));
+        self.0.compare_exchange_weak(current, new, success, failure)
+    }
+
+    pub fn fetch_update(
+        &self,
+        set: Ordering,
+        fetch: Ordering,
+        mut update: impl FnMut(isize) -> Option<isize>,
+    ) -> Result<isize, isize> {
+        let mut value = self.load(fetch);
+
+        while let Some(new) = update(value) {
+            match self.compare_exchange_weak(value, new, set, fetch) {
+                Err(next) => value = next,
+                result => return result,
+            }
+        }
+
+        Err(value)
+    }
+}
-- 
2.43.0


From d919c74274b7bfaa022855c2f7b8c6f7feabbab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 10/50] fix: push values of strict alignment onto stacks

Stacks keep their contents aligned to machine words. Values of stricter
alignment were written to and read from there with aligned accesses.
---
 lib/ffi/src/cps/stack.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/ffi/src/cps/stack.rs b/lib/ffi/src/cps/stack.rs
index 2496edb..bf1de5a 100644
--- a/lib/ffi/src/cps/stack.rs
+++ b/lib/ffi/src/cps/stack.rs
@@ -39,14 +39,14 @@ impl Stack {
             self.capacity = new_capacity;
         }
 
-        unsafe { ptr::write(self.get_pointer() as *mut T, value) }
+        unsafe { ptr::write_unaligned(self.get_pointer() as *mut T, value) }
         self.size += type_size;
     }
 
     pub fn pop<T>(&mut self) -> T {
         self.size -= Self::get_type_size::<T>();
 
-        unsafe { ptr::read(self.get_pointer() as *const T) }
+        unsafe { ptr::read_unaligned(self.get_pointer() as *const T) }
     }
 
     fn get_pointer(&self) -> usize {
-- 
2.43.0


From af60e0ee1249ae5a1c2afee1082500ee8422d5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 11/50] fix: slice bytes from indexes before the first

---
 packages/core/ffi/src/string/byte.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/core/ffi/src/string/byte.rs b/packages/core/ffi/src/string/byte.rs
index 28e6e25..8a93bed 100644
--- a/packages/core/ffi/src/string/byte.rs
+++ b/packages/core/ffi/src/string/byte.rs
@@ -9,7 +9,7 @@ fn _pen_core_byte_slice(
     start: ffi::Number,
     end: ffi::Number,
 ) -> ffi::ByteString {
-    let start = f64::from(start) as usize;
+    let start = (f64::from(start) as usize).max(1);
     let end = f64::from(end).min(string.as_slice().len() as f64) as usize;
 
     if start > end || start > string.as_slice().len() || end == 0 {
-- 
2.43.0


From aa37462032745d22c452a2ee9023991edf9fa2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 12/50] fix: keep views of strings with indexes out of range
 from crashing

---
 packages/core/ffi/src/view.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/packages/core/ffi/src/view.rs b/packages/core/ffi/src/view.rs
index fb35f09..f482070 100644
--- a/packages/core/ffi/src/view.rs
+++ b/packages/core/ffi/src/view.rs
@@ -5,11 +5,9 @@ fn _pen_core_view_starts_with(
     end: ffi::Number,
     prefix: ffi::ByteString,
 ) -> ffi::Boolean {
-    let string = string.as_slice();
-    let start = f64::from(start) as usize - 1;
-    let prefix = prefix.as_slice();
-
-    (&string[start..(start + prefix.len()).min(f64::from(end) as usize)] == prefix).into()
+    slice(string.as_slice(), start, end)
+        .starts_with(prefix.as_slice())
+        .into()
 }
 
 #[ffi::bindgen]
@@ -18,7 +16,19 @@ fn _pen_core_view_to_string(
     start: ffi::Number,
     end: ffi::Number,
 ) -> ffi::ByteString {
-    string.as_slice()[f64::from(start) as usize - 1..f64::from(end) as usize].into()
+    slice(string.as_slice(), start, end).into()
+}
+
+// Indexes of views derived from ones out of range can be out of range too.
+fn slice(string: &[u8], start: ffi::Number, end: ffi::Number) -> &[u8] {
+    let start = (f64::from(start) as usize).max(1);
+    let end = f64::from(end).min(string.len() as f64) as usize;
+
+    if start > end {
+        &[]
+    } else {
+        &string[start - 1..end]
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 08701b80823f450f99232a23788a3b537e08427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 13/50] fix: find an empty pattern in an empty string

---
 packages/core/ffi/src/string/utf8.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/packages/core/ffi/src/string/utf8.rs b/packages/core/ffi/src/string/utf8.rs
index ced9f91..afa51f1 100644
--- a/packages/core/ffi/src/string/utf8.rs
+++ b/packages/core/ffi/src/string/utf8.rs
@@ -41,13 +41,7 @@ fn find(string: ffi::ByteString, pattern: ffi::ByteString) -> Option<usize> {
     let pattern = str::from_utf8(pattern.as_slice()).ok()?;
     let index = string.find(pattern)?;
 
-    Some(
-        string
-            .char_indices()
-            .enumerate()
-            .find(|(_, (byte_index, _))| byte_index == &index)?
-            .0,
-    )
+    Some(string[..index].chars().count())
 }
 
 #[ffi::bindgen]
-- 
2.43.0


From cc6d8ab81f7085dbb079cfd0ab9523948d1eaefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 14/50] fix: shift out all bits by counts of 64 or more

---
 packages/core/ffi/src/bit.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/core/ffi/src/bit.rs b/packages/core/ffi/src/bit.rs
index be91cfb..d3bf066 100644
--- a/packages/core/ffi/src/bit.rs
+++ b/packages/core/ffi/src/bit.rs
@@ -22,12 +22,20 @@ fn _pen_core_bit_not(x: ffi::Number) -> ffi::Number {
 
 #[ffi::bindgen]
 fn _pen_core_bit_left_shift(x: ffi::Number, count: ffi::Number) -> ffi::Number {
-    unsafe { transmute(transmute::<ffi::Number, u64>(x) << (f64::from(count) as u64)) }
+    shift(x, count, u64::checked_shl)
 }
 
 #[ffi::bindgen]
 fn _pen_core_bit_right_shift(x: ffi::Number, count: ffi::Number) -> ffi::Number {
-    unsafe { transmute(transmute::<ffi::Number, u64>(x) >> (f64::from(count) as u64)) }
+    shift(x, count, u64::checked_shr)
+}
+
+fn shift(x: ffi::Number, count: ffi::Number, shift: fn(u64, u32) -> Option<u64>) -> ffi::Number {
+    unsafe {
+        transmute::<u64, ffi::Number>(
+            shift(transmute::<ffi::Number, u64>(x), f64::from(count) as u32).unwrap_or_default(),
+        )
+    }
 }
 
 #[ffi::bindgen]
-- 
2.43.0


From 599b5b9b98dfae3b47bc86a48a307a5d20849286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 15/50] fix: complete file writes before returning

---
 packages/os/ffi/library/src/file.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/os/ffi/library/src/file.rs b/packages/os/ffi/library/src/file.rs
index cb9de6b..34a9698 100644
--- a/packages/os/ffi/library/src/file.rs
+++ b/packages/os/ffi/library/src/file.rs
@@ -3,6 +3,7 @@ use crate::utilities;
 use std::{error::Error, ops::DerefMut, path::Path, sync::Arc};
 use tokio::{
     fs,
+    io::AsyncWriteExt,
     sync::{RwLock, RwLockWriteGuard},
 };
 
@@ -74,7 +75,13 @@ async fn _pen_os_write_file(
     file: File,
     bytes: ffi::ByteString,
 ) -> Result<ffi::Number, Box<dyn Error>> {
-    utilities::write(file.lock().await.deref_mut(), bytes).await
+    let mut file = file.lock().await;
+    let count = utilities::write(file.deref_mut(), bytes).await?;
+
+    // Complete the write operation, which may fail, before any other one.
+    file.flush().await?;
+
+    Ok(count)
 }
 
 #[ffi::bindgen]
-- 
2.43.0


From cc39f36ac9ab293f8b80270521cc6eedf8c2b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 16/50] fix: read up to arbitrarily large limits

---
 packages/os-sync/ffi/library/src/tcp.rs       | 11 +++--------
 packages/os-sync/ffi/library/src/utilities.rs |  5 ++++-
 packages/os/ffi/library/src/tcp.rs            | 10 +++-------
 packages/os/ffi/library/src/utilities.rs      |  5 ++++-
 4 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/packages/os-sync/ffi/library/src/tcp.rs b/packages/os-sync/ffi/library/src/tcp.rs
index 12f78e8..ea63fa8 100644
--- a/packages/os-sync/ffi/library/src/tcp.rs
+++ b/packages/os-sync/ffi/library/src/tcp.rs
@@ -1,7 +1,7 @@
-use crate::error::OsError;
+use crate::{error::OsError, utilities};
 use std::{
     error::Error,
-    io::{Read, Write},
+    io::Write,
     net, str,
     sync::{Arc, RwLock, RwLockWriteGuard},
 };
@@ -100,12 +100,7 @@ fn _pen_os_tcp_receive(
     socket: TcpStream,
     limit: ffi::Number,
 ) -> Result<ffi::ByteString, Box<dyn Error>> {
-    let mut buffer = vec![0; f64::from(limit) as usize];
-    let size = socket.lock()?.read(&mut buffer)?;
-
-    buffer.truncate(size);
-
-    Ok(buffer.into())
+    utilities::read_limit(&mut *socket.lock()?, f64::from(limit) as usize)
 }
 
 #[ffi::bindgen]
diff --git a/packages/os-sync/ffi/library/src/utilities.rs b/packages/os-sync/ffi/library/src/utilities.rs
index a25598d..6f34795 100644
--- a/packages/os-sync/ffi/library/src/utilities.rs
+++ b/packages/os-sync/ffi/library/src/utilities.rs
@@ -4,6 +4,9 @@ use std::{
     str,
 };
 
+// Limits are arbitrary and can be even infinite.
+const MAX_READ_SIZE: usize = 1 << 26;
+
 pub fn read(reader: &mut impl Read) -> Result<ffi::ByteString, Box<dyn Error>> {
     let mut buffer = vec![];
 
@@ -13,7 +16,7 @@ pub fn read(reader: &mut impl Read) -> Result<ffi::ByteString, Box<dyn Error>> {
 }
 
 pub fn read_limit(reader: &mut impl Read, limit: usize) -> Result<ffi::ByteString, Box<dyn Error>> {
-    let mut buffer = vec![0; limit];
+    let mut buffer = vec![0; limit.min(MAX_READ_SIZE)];
     let size = reader.read(&mut buffer)?;
 
     buffer.truncate(size);
diff --git a/packages/os/ffi/library/src/tcp.rs b/packages/os/ffi/library/src/tcp.rs
index 14278a6..4f5e7a9 100644
--- a/packages/os/ffi/library/src/tcp.rs
+++ b/packages/os/ffi/library/src/tcp.rs
@@ -1,6 +1,7 @@
+use crate::utilities;
 use std::{error::Error, str, sync::Arc};
 use tokio::{
-    io::{AsyncReadExt, AsyncWriteExt},
+    io::AsyncWriteExt,
     net,
     sync::{RwLock, RwLockWriteGuard},
 };
@@ -101,12 +102,7 @@ async fn _pen_os_tcp_receive(
     socket: TcpStream,
     limit: ffi::Number,
 ) -> Result<ffi::ByteString, Box<dyn Error>> {
-    let mut buffer = vec![0; f64::from(limit) as usize];
-    let size = socket.lock().await.read(&mut buffer).await?;
-
-    buffer.truncate(size);
-
-    Ok(buffer.into())
+    utilities::read_limit(&mut *socket.lock().await, f64::from(limit) as usize).await
 }
 
 #[ffi::bindgen]
diff --git a/packages/os/ffi/library/src/utilities.rs b/packages/os/ffi/library/src/utilities.rs
index 332ffc2..199d7ea 100644
--- a/packages/os/ffi/library/src/utilities.rs
+++ b/packages/os/ffi/library/src/utilities.rs
@@ -1,6 +1,9 @@
 use std::{error::Error, str};
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
 
+// Limits are arbitrary and can be even infinite.
+const MAX_READ_SIZE: usize = 1 << 26;
+
 pub async fn read(
     reader: &mut (impl AsyncReadExt + Unpin),
 ) -> Result<ffi::ByteString, Box<dyn Error>> {
@@ -15,7 +18,7 @@ pub async fn read_limit(
     reader: &mut (impl AsyncReadExt + Unpin),
     limit: usize,
 ) -> Result<ffi::ByteString, Box<dyn Error>> {
-    let mut buffer = vec![0; limit];
+    let mut buffer = vec![0; limit.min(MAX_READ_SIZE)];
     let size = reader.read(&mut buffer).await?;
 
     buffer.truncate(size);
-- 
2.43.0


From 8db67fbea345a2e326addd9f45a5b8e6dda3642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 17/50] fix: keep contents of blocks resized to a few bytes

---
 packages/os-sync/ffi/application/src/heap.rs | 4 +++-
 packages/os/ffi/application/src/heap.rs      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/os-sync/ffi/application/src/heap.rs b/packages/os-sync/ffi/application/src/heap.rs
index e21680a..1983887 100644
--- a/packages/os-sync/ffi/application/src/heap.rs
+++ b/packages/os-sync/ffi/application/src/heap.rs
@@ -20,7 +20,9 @@ extern "C" fn _pen_realloc(old_pointer: *mut u8, size: usize) -> *mut u8 {
         realloc(
             old_pointer,
             Layout::from_size_align(0, ffi::DEFAULT_MEMORY_ALIGNMENT).unwrap(),
-            size,
+            // The system allocator copies contents up to the size of the ignored layout if a new
+            // size is smaller than its alignment.
+            size.max(ffi::DEFAULT_MEMORY_ALIGNMENT),
         )
     };
 
diff --git a/packages/os/ffi/application/src/heap.rs b/packages/os/ffi/application/src/heap.rs
index 767fc7f..6226faa 100644
--- a/packages/os/ffi/application/src/heap.rs
+++ b/packages/os/ffi/application/src/heap.rs
@@ -20,7 +20,9 @@ pub extern "C" fn _pen_realloc(old_pointer: *mut u8, size: usize) -> *mut u8 {
         realloc(
             old_pointer,
             Layout::from_size_align(0, ffi::DEFAULT_MEMORY_ALIGNMENT).unwrap(),
-            size,
+            // The system allocator copies contents up to the size of the ignored layout if a new
+            // size is smaller than its alignment.
+            size.max(ffi::DEFAULT_MEMORY_ALIGNMENT),
         )
     };
 
-- 
2.43.0


From deed9f8f66a7715b798b1afabb37cf50a9923ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 18/50] fix: give results of spawned functions many times

---
 .../os/ffi/application/src/concurrency.rs     | 43 +++++++++++++++++--
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/packages/os/ffi/application/src/concurrency.rs b/packages/os/ffi/application/src/concurrency.rs
index af5e8f9..3c2bbfb 100644
--- a/packages/os/ffi/application/src/concurrency.rs
+++ b/packages/os/ffi/application/src/concurrency.rs
@@ -1,5 +1,9 @@
-use futures::{future::FutureExt, pin_mut, stream::StreamExt};
-use std::{num::NonZeroUsize, thread::available_parallelism};
+use futures::{
+    future::{BoxFuture, FutureExt, Shared},
+    pin_mut,
+    stream::StreamExt,
+};
+use std::{mem::transmute, num::NonZeroUsize, thread::available_parallelism};
 use tokio::{
     spawn,
     sync::mpsc::{channel, Receiver},
@@ -8,11 +12,42 @@ use tokio::{
 
 const PARALLELISM_MULTIPLIER: usize = 2;
 
+type SpawnedResult = Shared<BoxFuture<'static, ffi::Any>>;
+
 #[ffi::bindgen]
 async fn _pen_spawn(closure: ffi::Closure) -> ffi::Closure {
-    ffi::future::to_closure(
-        spawn(ffi::future::from_closure::<_, ffi::Any>(closure)).map(Result::unwrap),
+    let handle = spawn(async move {
+        let result = ffi::future::from_closure::<_, ffi::Any>(closure).await;
+
+        // Different threads might get the same result.
+        (result.type_information().synchronize_fn())(*result.payload());
+
+        result
+    });
+
+    ffi::Closure::new(
+        get_spawned_result as *const u8,
+        handle.map(Result::unwrap).boxed().shared(),
     )
+    .into_opaque()
+}
+
+extern "C" fn get_spawned_result(
+    stack: &mut ffi::cps::AsyncStack,
+    continue_: ffi::cps::ContinuationFunction<ffi::Any>,
+    closure: ffi::Closure<SpawnedResult>,
+) {
+    type EntryFunction = extern "C" fn(
+        &mut ffi::cps::AsyncStack,
+        ffi::cps::ContinuationFunction<ffi::Any>,
+        ffi::Closure,
+    );
+
+    // A closure of a future can be called only once while a result can be demanded many times.
+    let closure = ffi::future::to_closure(unsafe { &*closure.payload() }.clone());
+    let entry_function: EntryFunction = unsafe { transmute(closure.entry_function()) };
+
+    entry_function(stack, continue_, closure)
 }
 
 #[ffi::bindgen]
-- 
2.43.0


From 13d57ffdf3ea3deee626f3d09a7164f5423fb80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 19/50] fix: keep contents of blocks resized to a few bytes in
 tests

---
 cmd/test/src/heap.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/test/src/heap.rs b/cmd/test/src/heap.rs
index bb262af..5397045 100644
--- a/cmd/test/src/heap.rs
+++ b/cmd/test/src/heap.rs
@@ -18,7 +18,9 @@ pub extern "C" fn _pen_realloc(old_pointer: *mut u8, size: usize) -> *mut u8 {
         realloc(
             old_pointer,
             Layout::from_size_align(0, ffi::DEFAULT_MEMORY_ALIGNMENT).unwrap(),
-            size,
+            // The system allocator copies contents up to the size of the ignored layout if a new
+            // size is smaller than its alignment.
+            size.max(ffi::DEFAULT_MEMORY_ALIGNMENT),
         )
     }
 }
-- 
2.43.0


From 216ca2c1b305e0e2bb1e5edf897605dcee829845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 20/50] fix: give arguments that are not UTF-8

---
 packages/os-sync/ffi/library/src/argument.rs | 5 +++--
 packages/os/ffi/library/src/argument.rs      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/os-sync/ffi/library/src/argument.rs b/packages/os-sync/ffi/library/src/argument.rs
index d01ab36..c25a5fe 100644
--- a/packages/os-sync/ffi/library/src/argument.rs
+++ b/packages/os-sync/ffi/library/src/argument.rs
@@ -1,8 +1,9 @@
 #[ffi::bindgen]
 fn _pen_os_get_arguments() -> ffi::List {
-    std::env::args()
+    // Arguments are arbitrary bytes.
+    std::env::args_os()
         .skip(1)
-        .map(ffi::ByteString::from)
+        .map(|argument| ffi::ByteString::from(argument.into_encoded_bytes()))
         .collect::<Vec<_>>()
         .into()
 }
diff --git a/packages/os/ffi/library/src/argument.rs b/packages/os/ffi/library/src/argument.rs
index d01ab36..c25a5fe 100644
--- a/packages/os/ffi/library/src/argument.rs
+++ b/packages/os/ffi/library/src/argument.rs
@@ -1,8 +1,9 @@
 #[ffi::bindgen]
 fn _pen_os_get_arguments() -> ffi::List {
-    std::env::args()
+    // Arguments are arbitrary bytes.
+    std::env::args_os()
         .skip(1)
-        .map(ffi::ByteString::from)
+        .map(|argument| ffi::ByteString::from(argument.into_encoded_bytes()))
         .collect::<Vec<_>>()
         .into()
 }
-- 
2.43.0


From ec36db7f078f652ea2e72db1455c691413e12639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 21/50] fix: write to the standard output at once

---
 packages/os-sync/ffi/library/src/stdio.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/os-sync/ffi/library/src/stdio.rs b/packages/os-sync/ffi/library/src/stdio.rs
index 62aa7b6..275749f 100644
--- a/packages/os-sync/ffi/library/src/stdio.rs
+++ b/packages/os-sync/ffi/library/src/stdio.rs
@@ -1,7 +1,7 @@
 use super::utilities;
 use std::{
     error::Error,
-    io::{stderr, stdin, stdout},
+    io::{stderr, stdin, stdout, Write},
 };
 
 #[ffi::bindgen]
@@ -16,7 +16,13 @@ fn _pen_os_read_limit_stdin(limit: ffi::Number) -> Result<ffi::ByteString, Box<d
 
 #[ffi::bindgen]
 fn _pen_os_write_stdout(bytes: ffi::ByteString) -> Result<ffi::Number, Box<dyn Error>> {
-    utilities::write(&mut stdout(), bytes)
+    let mut stdout = stdout().lock();
+    let count = utilities::write(&mut stdout, bytes)?;
+
+    // Otherwise, bytes are buffered until the end of a line.
+    stdout.flush()?;
+
+    Ok(count)
 }
 
 #[ffi::bindgen]
-- 
2.43.0


From 268be6e61712387bb64439356b66f909d11a1f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 22/50] Revert "fix: keep contents of blocks resized to a few
 bytes in tests"

This reverts commit 13d57ffdf3ea3deee626f3d09a7164f5423fb80e.
---
 cmd/test/src/heap.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cmd/test/src/heap.rs b/cmd/test/src/heap.rs
index 5397045..bb262af 100644
--- a/cmd/test/src/heap.rs
+++ b/cmd/test/src/heap.rs
@@ -18,9 +18,7 @@ pub extern "C" fn _pen_realloc(old_pointer: *mut u8, size: usize) -> *mut u8 {
         realloc(
             old_pointer,
             Layout::from_size_align(0, ffi::DEFAULT_MEMORY_ALIGNMENT).unwrap(),
-            // The system allocator copies contents up to the size of the ignored layout if a new
-            // size is smaller than its alignment.
-            size.max(ffi::DEFAULT_MEMORY_ALIGNMENT),
+            size,
         )
     }
 }
-- 
2.43.0


From 31fb58658c9d1d41288b86478f70b93b46f62d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 23/50] fix: keep entries of nested nodes on removal from maps

---
 packages/prelude/Map.pen | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/prelude/Map.pen b/packages/prelude/Map.pen
index a01543b..262de29 100644
--- a/packages/prelude/Map.pen
+++ b/packages/prelude/Map.pen
@@ -246,10 +246,10 @@ deleteKey = \(ctx MapContext, hamt hamt, key any, layer number, level number) ha
 }
 
 normalizeHamt = \(h hamt) entry {
-  if e = getSingleEntry(h, 1, none) as none {
-    h
-  } else {
+  if e = getSingleEntry(h, 1, none) as keyValue {
     e
+  } else {
+    h
   }
 }
 
-- 
2.43.0


From b8e8c6a6501924d50e4856474fda1ca6b06e2238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 24/50] fix: hash elements of lists rather than their nodes

---
 packages/prelude/List.pen | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/prelude/List.pen b/packages/prelude/List.pen
index e3e6280..755fd98 100644
--- a/packages/prelude/List.pen
+++ b/packages/prelude/List.pen
@@ -123,7 +123,7 @@ hashNode = \(f \(any) number, node \() node | none, h number) number {
     hashNode(
       f,
       n.rest,
-      _pen_prelude_combine_hashes(h, f(n)),
+      _pen_prelude_combine_hashes(h, f(n.first())),
     )
   } else {
     h
-- 
2.43.0


From da46e20189665cd31127c82730c1ca4f1bef517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 25/50] fix: tell apart hashes of lists of different lengths

---
 packages/prelude/List.pen | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/prelude/List.pen b/packages/prelude/List.pen
index 755fd98..d42f270 100644
--- a/packages/prelude/List.pen
+++ b/packages/prelude/List.pen
@@ -115,7 +115,10 @@ equalNodes = \(f \(any, any) boolean | none, x node | none, y node | none) boole
 }
 
 HashList = \(f \(any) number, l List) number {
-  hashNode(f, l.node, 0)
+  # Elements' hashes can be zero. So we cannot start with it.
+  headerHash = 0.6180339887498949
+
+  hashNode(f, l.node, headerHash)
 }
 
 hashNode = \(f \(any) number, node \() node | none, h number) number {
-- 
2.43.0


From 324c6cf8cad1bca10405da377eaf22e65e821187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 26/50] fix: tell apart hashes of values with many booleans

---
 .../src/transformation/hash_calculation/expression.rs       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/hir-mir/src/transformation/hash_calculation/expression.rs b/lib/hir-mir/src/transformation/hash_calculation/expression.rs
index 03f1e95..dd20057 100644
--- a/lib/hir-mir/src/transformation/hash_calculation/expression.rs
+++ b/lib/hir-mir/src/transformation/hash_calculation/expression.rs
@@ -14,8 +14,10 @@ use hir::{
 use position::Position;
 
 const NONE_HASH: f64 = 0.0;
-const BOOLEAN_TRUE_HASH: f64 = 1.0;
-const BOOLEAN_FALSE_HASH: f64 = 2.0;
+// These hashes need to differ in their low bits too. Otherwise, hashes combined
+// from many of them collide.
+const BOOLEAN_TRUE_HASH: f64 = 1.2345678901234567;
+const BOOLEAN_FALSE_HASH: f64 = 2.345678901234568;
 
 pub fn transform(
     context: &Context,
-- 
2.43.0


From 6c3204e10dd60b1dd6a9fd29616ff1ff185fa22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 27/50] fix: visit conditions of list comprehensions

---
 lib/hir/src/analysis/expression_visitor.rs | 4 ++++
 lib/hir/src/analysis/type_visitor.rs       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/lib/hir/src/analysis/expression_visitor.rs b/lib/hir/src/analysis/expression_visitor.rs
index 2f19277..32eeaf0 100644
--- a/lib/hir/src/analysis/expression_visitor.rs
+++ b/lib/hir/src/analysis/expression_visitor.rs
@@ -78,6 +78,10 @@ fn visit_expression<'a>(expression: &'a Expression, visit: &mut impl FnMut(&'a E
                 for iteratee in branch.iteratees() {
                     visit_expression(iteratee.expression());
                 }
+
+                if let Some(condition) = branch.condition() {
+                    visit_expression(condition);
+                }
             }
 
             visit_expression(comprehension.element());
diff --git a/lib/hir/src/analysis/type_visitor.rs b/lib/hir/src/analysis/type_visitor.rs
index 25c8cc3..7e3aae3 100644
--- a/lib/hir/src/analysis/type_visitor.rs
+++ b/lib/hir/src/analysis/type_visitor.rs
@@ -162,6 +162,10 @@ fn visit_expression<'a>(expression: &'a Expression, visit: &mut impl FnMut(&'a T
 
                     visit_expression(iteratee.expression(), visit);
                 }
+
+                if let Some(condition) = branch.condition() {
+                    visit_expression(condition, visit);
+                }
             }
 
             visit_expression(comprehension.element(), visit);
-- 
2.43.0


From 9fffc9fe4e5aa388038c2dcf1ed79cefe72b7eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 28/50] fix: check iteratees of a comprehension without names
 of their branch

---
 lib/hir/src/analysis/type_checker.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/hir/src/analysis/type_checker.rs b/lib/hir/src/analysis/type_checker.rs
index 231cbb1..73ea50c 100644
--- a/lib/hir/src/analysis/type_checker.rs
+++ b/lib/hir/src/analysis/type_checker.rs
@@ -322,6 +322,9 @@ fn check_expression(
                     ));
                 }
 
+                // Names of a branch are not visible to iteratees of the same branch.
+                let outer_variables = variables.clone();
+
                 for (name, iteratee) in branch.names().iter().zip(branch.iteratees()) {
                     let position = iteratee.position();
                     let type_ = iteratee
@@ -329,7 +332,7 @@ fn check_expression(
                         .ok_or_else(|| AnalysisError::TypeNotInferred(position.clone()))?;
 
                     check_subsumption(
-                        &check_expression(iteratee.expression(), &variables)?,
+                        &check_expression(iteratee.expression(), &outer_variables)?,
                         type_,
                         iteratee.expression().position(),
                         type_.position(),
-- 
2.43.0


From 8eb29209e42e1df9eb69ee6db0028a57f8b5d9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:28 +0000
Subject: [PATCH 29/50] fix: keep variables in else blocks of map look-ups

---
 lib/hir-mir/src/expression.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/lib/hir-mir/src/expression.rs b/lib/hir-mir/src/expression.rs
index 3c08560..e6a4ff2 100644
--- a/lib/hir-mir/src/expression.rs
+++ b/lib/hir-mir/src/expression.rs
@@ -62,7 +62,30 @@ pub fn compile(
         )
         .into(),
         Expression::IfList(if_) => compile(&if_list::transform(context, if_)?)?,
-        Expression::IfMap(if_) => compile(&if_map::transform(context, if_)?)?,
+        Expression::IfMap(if_) => {
+            const VALUE_NAME: &str = "$mapValue";
+
+            // Bind a name only in a then block because it is not visible in an else block.
+            compile(&if_map::transform(
+                context,
+                &IfMap::new(
+                    if_.key_type().cloned(),
+                    if_.value_type().cloned(),
+                    VALUE_NAME,
+                    if_.map().clone(),
+                    if_.key().clone(),
+                    Let::new(
+                        Some(if_.name().into()),
+                        if_.value_type().cloned(),
+                        Variable::new(VALUE_NAME, if_.position().clone()),
+                        if_.then().clone(),
+                        if_.position().clone(),
+                    ),
+                    if_.else_().clone(),
+                    if_.position().clone(),
+                ),
+            )?)?
+        }
         Expression::IfType(if_) => mir::ir::Case::new(
             compile(if_.argument())?,
             if_.branches()
-- 
2.43.0


From 1d7d9d5123424fcdf6ef4925761af12ced1d2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 30/50] fix: collect types of spawned functions and elements of
 maps

---
 lib/hir-mir/src/variant_type_collection.rs | 39 ++++++++++++++++++----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/lib/hir-mir/src/variant_type_collection.rs b/lib/hir-mir/src/variant_type_collection.rs
index ffe4191..446f205 100644
--- a/lib/hir-mir/src/variant_type_collection.rs
+++ b/lib/hir-mir/src/variant_type_collection.rs
@@ -1,7 +1,9 @@
 use crate::context::Context;
 use fnv::FnvHashSet;
 use hir::{
-    analysis::{expression_visitor, union_type_member_calculator, AnalysisError},
+    analysis::{
+        expression_visitor, type_canonicalizer, union_type_member_calculator, AnalysisError,
+    },
     ir::*,
     types::{self, Type},
 };
@@ -9,6 +11,7 @@ use hir::{
 /// Collects types potentially casted from or to variant (union or `any`) types.
 pub fn collect(context: &Context, module: &Module) -> Result<FnvHashSet<Type>, AnalysisError> {
     let mut lower_types = FnvHashSet::default();
+    let mut thunk_types = vec![];
 
     // We need to visit expressions other than type coercion too because type
     // coercion might be generated just before compilation.
@@ -19,13 +22,27 @@ pub fn collect(context: &Context, module: &Module) -> Result<FnvHashSet<Type>, A
     expression_visitor::visit(module, |expression| match expression {
         Expression::Call(call) => {
             if let Expression::BuiltInFunction(function) = call.function() {
-                if function.name() == BuiltInFunctionName::Race {
-                    let position = call.position();
+                match (function.name(), call.function_type()) {
+                    (
+                        BuiltInFunctionName::Keys | BuiltInFunctionName::Values,
+                        Some(Type::Function(function_type)),
+                    ) => {
+                        if let Type::List(list_type) = function_type.result() {
+                            lower_types.insert(list_type.element().clone());
+                        }
+                    }
+                    (BuiltInFunctionName::Race, _) => {
+                        let position = call.position();
 
-                    lower_types.insert(
-                        types::List::new(types::Any::new(position.clone()), position.clone())
-                            .into(),
-                    );
+                        lower_types.insert(
+                            types::List::new(types::Any::new(position.clone()), position.clone())
+                                .into(),
+                        );
+                    }
+                    (BuiltInFunctionName::Spawn, Some(Type::Function(function_type))) => {
+                        thunk_types.push(function_type.result().clone());
+                    }
+                    _ => {}
                 }
             }
         }
@@ -78,6 +95,14 @@ pub fn collect(context: &Context, module: &Module) -> Result<FnvHashSet<Type>, A
         _ => {}
     });
 
+    for type_ in &thunk_types {
+        if let Some(function_type) =
+            type_canonicalizer::canonicalize_function(type_, context.types())?
+        {
+            lower_types.insert(function_type.result().clone());
+        }
+    }
+
     Ok(lower_types
         .into_iter()
         .chain(
-- 
2.43.0


From 732faa2b492f401f7964ced5e2ae6f23854e0988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 31/50] fix: refuse comparison of lists and maps of values not
 comparable

---
 lib/hir-mir/src/transformation/equal_operation/operation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/hir-mir/src/transformation/equal_operation/operation.rs b/lib/hir-mir/src/transformation/equal_operation/operation.rs
index 2479f8b..8406c5b 100644
--- a/lib/hir-mir/src/transformation/equal_operation/operation.rs
+++ b/lib/hir-mir/src/transformation/equal_operation/operation.rs
@@ -40,6 +40,12 @@ fn transform_canonical(
     rhs: &Expression,
     position: &Position,
 ) -> Result<Expression, CompileError> {
+    if matches!(type_, Type::List(_) | Type::Map(_))
+        && !type_comparability_checker::check(type_, context.types(), context.records())?
+    {
+        return Err(AnalysisError::TypeNotComparable(position.clone(), type_.clone()).into());
+    }
+
     Ok(match type_ {
         Type::Boolean(_) => If::new(
             lhs.clone(),
-- 
2.43.0


From b3f10fbba772664eb3b17f309314ea7932854680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:20 +0000
Subject: [PATCH 32/50] fix: unescape back slashes of strings once

---
 lib/ast-hir/src/string.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/lib/ast-hir/src/string.rs b/lib/ast-hir/src/string.rs
index 24ebad3..58c2595 100644
--- a/lib/ast-hir/src/string.rs
+++ b/lib/ast-hir/src/string.rs
@@ -1,23 +1,23 @@
 use regex::bytes::{Captures, Regex};
 use std::{str, sync::LazyLock};
 
-static HEX_CHARACTER_REGEX: LazyLock<Regex> =
-    LazyLock::new(|| Regex::new(r"\\x([0-9a-fA-F][0-9a-fA-F])").unwrap());
+static ESCAPE_REGEX: LazyLock<Regex> =
+    LazyLock::new(|| Regex::new(r#"\\(?:([\\"nrt])|x([0-9a-fA-F][0-9a-fA-F]))"#).unwrap());
 
 pub fn compile(string: &str) -> Vec<u8> {
-    HEX_CHARACTER_REGEX
-        .replace_all(
-            string
-                .replace("\\\\", "\\")
-                .replace("\\\"", "\"")
-                .replace("\\n", "\n")
-                .replace("\\r", "\r")
-                .replace("\\t", "\t")
-                .as_bytes(),
-            |captures: &Captures| {
-                vec![u8::from_str_radix(str::from_utf8(&captures[1]).unwrap(), 16).unwrap()]
-            },
-        )
+    ESCAPE_REGEX
+        .replace_all(string.as_bytes(), |captures: &Captures| {
+            vec![if let Some(character) = captures.get(1) {
+                match character.as_bytes()[0] {
+                    b'n' => b'\n',
+                    b'r' => b'\r',
+                    b't' => b'\t',
+                    character => character,
+                }
+            } else {
+                u8::from_str_radix(str::from_utf8(&captures[2]).unwrap(), 16).unwrap()
+            }]
+        })
         .into()
 }
 
-- 
2.43.0


From 804e575343b31422e448561cdabd04843c82924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:20 +0000
Subject: [PATCH 33/50] fix: rename locals apart from arguments of global
 functions

---
 lib/mir/src/analysis/alpha_conversion.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/mir/src/analysis/alpha_conversion.rs b/lib/mir/src/analysis/alpha_conversion.rs
index a264221..808443a 100644
--- a/lib/mir/src/analysis/alpha_conversion.rs
+++ b/lib/mir/src/analysis/alpha_conversion.rs
@@ -43,7 +43,18 @@ pub fn transform(module: &Module) -> Module {
                             definition.arguments().to_vec(),
                             definition.result_type().clone(),
                             transform_expression(
-                                &Context::new(name_counts.clone()),
+                                &Context::new(
+                                    name_counts
+                                        .iter()
+                                        .map(|(&name, &count)| (name, count))
+                                        .chain(
+                                            definition
+                                                .arguments()
+                                                .iter()
+                                                .map(|argument| (argument.name(), 1)),
+                                        )
+                                        .collect(),
+                                ),
                                 definition.body(),
                                 &Default::default(),
                             ),
-- 
2.43.0


From 7cdf955a75c3a98335555a80913ba1ff184f8347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:05 +0000
Subject: [PATCH 34/50] fix: evaluate arguments of debug once

---
 lib/hir-mir/src/built_in_call.rs | 45 ++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/lib/hir-mir/src/built_in_call.rs b/lib/hir-mir/src/built_in_call.rs
index f571479..c670e72 100644
--- a/lib/hir-mir/src/built_in_call.rs
+++ b/lib/hir-mir/src/built_in_call.rs
@@ -48,7 +48,10 @@ pub fn compile(
         BuiltInFunctionName::Debug => mir::ir::Call::new(
             mir::types::Function::new(vec![mir::types::Type::ByteString], mir::types::Type::None),
             mir::ir::Variable::new(LOCAL_DEBUG_FUNCTION_NAME),
-            vec![type_information::debug::compile_call(arguments[0].clone())],
+            vec![compile_reflection(
+                arguments[0].clone(),
+                type_information::debug::compile_call,
+            )],
         )
         .into(),
         BuiltInFunctionName::Delete => {
@@ -162,11 +165,11 @@ pub fn compile(
             .into()
         }
         BuiltInFunctionName::ReflectDebug => {
-            type_information::debug::compile_call(arguments[0].clone())
-        }
-        BuiltInFunctionName::ReflectEqual => {
-            type_information::equal::compile_call(arguments[0].clone(), arguments[1].clone())
+            compile_reflection(arguments[0].clone(), type_information::debug::compile_call)
         }
+        BuiltInFunctionName::ReflectEqual => compile_reflection(arguments[0].clone(), |lhs| {
+            type_information::equal::compile_call(lhs, arguments[1].clone())
+        }),
         BuiltInFunctionName::Size => mir::ir::Call::new(
             type_::compile_function(context, &function_type)?,
             match &function_type.arguments()[0] {
@@ -286,6 +289,38 @@ pub fn compile(
     })
 }
 
+// Calls of type information functions refer to their first arguments twice.
+fn compile_reflection(
+    argument: mir::ir::Expression,
+    compile: impl FnOnce(mir::ir::Expression) -> mir::ir::Expression,
+) -> mir::ir::Expression {
+    const ARGUMENT_NAME: &str = "$argument";
+
+    if is_value(&argument) {
+        compile(argument)
+    } else {
+        mir::ir::Let::new(
+            ARGUMENT_NAME,
+            mir::types::Type::Variant,
+            argument,
+            compile(mir::ir::Variable::new(ARGUMENT_NAME).into()),
+        )
+        .into()
+    }
+}
+
+fn is_value(expression: &mir::ir::Expression) -> bool {
+    match expression {
+        mir::ir::Expression::Boolean(_)
+        | mir::ir::Expression::ByteString(_)
+        | mir::ir::Expression::None
+        | mir::ir::Expression::Number(_)
+        | mir::ir::Expression::Variable(_) => true,
+        mir::ir::Expression::Variant(variant) => is_value(variant.payload()),
+        _ => false,
+    }
+}
+
 fn compile_map_iteration(
     context: &Context,
     argument: &Expression,
-- 
2.43.0


From 98c2dd344ebccbf8e76ed7c2809224309e8aba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:03 +0000
Subject: [PATCH 35/50] fix: evaluate operands of comparison with none

---
 .../transformation/equal_operation/operation.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/hir-mir/src/transformation/equal_operation/operation.rs b/lib/hir-mir/src/transformation/equal_operation/operation.rs
index 8406c5b..25f40df 100644
--- a/lib/hir-mir/src/transformation/equal_operation/operation.rs
+++ b/lib/hir-mir/src/transformation/equal_operation/operation.rs
@@ -117,7 +117,22 @@ fn transform_canonical(
             )
             .into()
         }
-        Type::None(_) => Boolean::new(true, position.clone()).into(),
+        Type::None(_) => [rhs, lhs]
+            .into_iter()
+            .filter(|operand| !matches!(operand, Expression::None(_) | Expression::Variable(_)))
+            .fold(
+                Boolean::new(true, position.clone()).into(),
+                |expression: Expression, operand| {
+                    Let::new(
+                        None,
+                        Some(type_.clone()),
+                        operand.clone(),
+                        expression,
+                        position.clone(),
+                    )
+                    .into()
+                },
+            ),
         Type::Number(_) => EqualityOperation::new(
             Some(type_.clone()),
             EqualityOperator::Equal,
-- 
2.43.0


From 5c652910478f433b4fa44c8c5f429aa2bc3c9d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:52 +0000
Subject: [PATCH 36/50] fix: decode escapes and exponents and encode control
 characters in JSON

Decode took only \" for an escape, refused exponents and carriage returns
and let numbers end in a period and strings hold raw control characters.
Encode wrote control characters as they are.
---
 packages/json/Decode.pen | 114 ++++++++++++++++++++++++++++++++++++---
 packages/json/Encode.pen |  23 +++++++-
 2 files changed, 129 insertions(+), 8 deletions(-)

diff --git a/packages/json/Decode.pen b/packages/json/Decode.pen
index 2ca7fd5..64be0b6 100644
--- a/packages/json/Decode.pen
+++ b/packages/json/Decode.pen
@@ -1,8 +1,10 @@
 import Core'Boolean
+import Core'Character
 import Core'Number
 import Core'String
 import Core'String'Byte
 import Core'String'Byte'View { View }
+import Core'String'Utf8
 
 import 'Value { Value }
 
@@ -103,13 +105,86 @@ stringCharacters = \(v View) stringsResult | error {
 }
 
 stringCharacter = \(v View) stringResult | error {
-  if w = raw(v, "\\\"") as View {
-    stringResult{string: "\"", input: w}
+  if View'Length(v) == 0 {
+    error("unexpected end of string")
   } else {
-    if View'Length(v) == 0 {
-      error("unexpected end of string")
+    s = View'ToString(View'Slice(v, 1, 1))
+    v = View'Seek(v, 1)
+
+    if s == "\\" {
+      escapedCharacter(v)
+    } else if Character'ToCodePoint(s) < 0x20 {
+      error("unexpected control character in string")
+    } else {
+      stringResult{string: s, input: v}
+    }
+  }
+}
+
+escapedCharacter = \(v View) stringResult | error {
+  if w = raw(v, "u") as View {
+    unicodeCharacter(w)
+  } else {
+    if s = escapedCharacters()[View'ToString(View'Slice(v, 1, 1))] {
+      stringResult{string: s, input: View'Seek(v, 1)}
+    } else {
+      error("unexpected escape sequence")
+    }
+  }
+}
+
+escapedCharacters = \() {string: string} {
+  {string: string
+    "\"": "\"",
+    "\\": "\\",
+    "/": "/",
+    "b": "\x08",
+    "f": "\x0c",
+    "n": "\n",
+    "r": "\r",
+    "t": "\t",
+  }
+}
+
+unicodeCharacter = \(v View) stringResult | error {
+  n = codeUnit(v)?
+  v = View'Seek(v, 4)
+
+  if n < 0xD800 | n > 0xDFFF {
+    stringResult{string: Character'FromCodePoint(n), input: v}
+  } else {
+    v = raw(v, "\\u")?
+    m = codeUnit(v)?
+
+    if n < 0xDC00 & m >= 0xDC00 & m <= 0xDFFF {
+      stringResult{
+        string: Character'FromCodePoint(0x10000 + (n - 0xD800) * 0x400 + m - 0xDC00),
+        input: View'Seek(v, 4),
+      }
+    } else {
+      error("unexpected surrogate")
+    }
+  }
+}
+
+codeUnit = \(v View) number | error {
+  hexadecimalDigits(Utf8'ToLowercase(View'ToString(View'Slice(v, 1, 4))), 4, 0)
+}
+
+hexadecimalDigits = \(s string, count number, sum number) number | error {
+  if count == 0 {
+    sum
+  } else {
+    c = Byte'Slice(s, 1, 1)
+
+    if c == "" {
+      error("hexadecimal digit expected")
     } else {
-      stringResult{string: View'ToString(View'Slice(v, 1, 1)), input: View'Seek(v, 1)}
+      if n = Utf8'Find("0123456789abcdef", c) as number {
+        hexadecimalDigits(Byte'Slice(s, 2, Number'Infinity()), count - 1, sum * 16 + n - 1)
+      } else {
+        error("hexadecimal digit expected")
+      }
     }
   }
 }
@@ -119,7 +194,8 @@ number = \(v View) valueResult | error {
 
   v = if w = token(v, "-") as View { w } else { v }
   v = integer(v)?
-  v = if w = raw(v, ".") as View { digits(w) } else { v }
+  v = if w = raw(v, ".") as View { positiveDigits(w) } else { v }?
+  v = if w = exponentSymbol(v) as View { exponent(w) } else { v }?
 
   valueResult{
     value: Value'New(
@@ -141,6 +217,30 @@ integer = \(v View) View | error {
   }
 }
 
+positiveDigits = \(v View) View | error {
+  if w = digit(v) as View {
+    digits(w)
+  } else {
+    error("digit expected")
+  }
+}
+
+exponentSymbol = \(v View) View | none {
+  if View'StartsWith(v, "e") | View'StartsWith(v, "E") {
+    View'Seek(v, 1)
+  } else {
+    none
+  }
+}
+
+exponent = \(v View) View | error {
+  if View'StartsWith(v, "+") | View'StartsWith(v, "-") {
+    positiveDigits(View'Seek(v, 1))
+  } else {
+    positiveDigits(v)
+  }
+}
+
 digits = \(v View) View {
   if w = digit(v) as View {
     digits(w)
@@ -249,7 +349,7 @@ raw = \(v View, s string) View | error {
 }
 
 blank = \(v View) View {
-  if View'StartsWith(v, " ") | View'StartsWith(v, "\t") | View'StartsWith(v, "\n") {
+  if View'StartsWith(v, " ") | View'StartsWith(v, "\t") | View'StartsWith(v, "\n") | View'StartsWith(v, "\r") {
     blank(View'Seek(v, 1))
   } else {
     v
diff --git a/packages/json/Encode.pen b/packages/json/Encode.pen
index d3e5577..340a94b 100644
--- a/packages/json/Encode.pen
+++ b/packages/json/Encode.pen
@@ -1,5 +1,7 @@
+import Core'Character
 import Core'Number
 import Core'String
+import Core'String'Byte
 import Core'String'Utf8
 
 import 'Value { Value }
@@ -36,7 +38,26 @@ string = \(s string) [string] {
   s = Utf8'Replace(s, "\\", "\\\\")
   s = Utf8'Replace(s, "\"", "\\\"")
 
-  [string "\"", s, "\""]
+  [string "\"", escapeControlCharacters(s, 31), "\""]
+}
+
+escapeControlCharacters = \(s string, n number) string {
+  if n < 0 {
+    s
+  } else {
+    escapeControlCharacters(
+      Utf8'Replace(
+        s,
+        Character'FromCodePoint(n),
+        "\\u00" + hexadecimalDigit(Number'Truncate(n / 16)) + hexadecimalDigit(Number'Remainder(n, 16)),
+      ),
+      n - 1,
+    )
+  }
+}
+
+hexadecimalDigit = \(n number) string {
+  Byte'Slice("0123456789abcdef", n + 1, n + 1)
 }
 
 array = \(vs [Value]) [string] {
-- 
2.43.0


From 9dd31eb17cdf72f2ce121c3128de21c13e5d3b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:56 +0000
Subject: [PATCH 37/50] fix: hash record fields of unions of one type

---
 .../src/transformation/hash_calculation/expression.rs  | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lib/hir-mir/src/transformation/hash_calculation/expression.rs b/lib/hir-mir/src/transformation/hash_calculation/expression.rs
index dd20057..8ceb8a0 100644
--- a/lib/hir-mir/src/transformation/hash_calculation/expression.rs
+++ b/lib/hir-mir/src/transformation/hash_calculation/expression.rs
@@ -6,7 +6,7 @@ use crate::{
 };
 use hir::{
     analysis::{
-        type_comparability_checker, type_resolver, union_type_member_calculator, AnalysisError,
+        type_canonicalizer, type_comparability_checker, union_type_member_calculator, AnalysisError,
     },
     ir::*,
     types::{self, Type},
@@ -26,6 +26,7 @@ pub fn transform(
     position: &Position,
 ) -> Result<Expression, CompileError> {
     let configuration = context.configuration()?;
+    let type_ = &type_canonicalizer::canonicalize(type_, context.types())?;
 
     Ok(match type_ {
         Type::Boolean(_) => If::new(
@@ -132,15 +133,10 @@ pub fn transform(
             )
             .into()
         }
-        Type::Reference(reference) => transform(
-            context,
-            value,
-            &type_resolver::resolve(reference, context.types())?,
-            position,
-        )?,
         Type::Any(_) | Type::Error(_) | Type::Function(_) => {
             return Err(AnalysisError::TypeNotComparable(position.clone(), type_.clone()).into())
         }
+        Type::Reference(_) => unreachable!(),
     })
 }
 
-- 
2.43.0


From 2fa65b5fee792b35cc69ff100483d6b65699a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:17 +0000
Subject: [PATCH 38/50] fix: report cyclic dependencies of external packages

---
 .../external_package_configuration_reader.rs  | 45 +++++++++++--------
 lib/app/src/package_initializer.rs            | 13 +++++-
 .../external_package_initializer.rs           | 11 ++++-
 3 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/lib/app/src/external_package_configuration_reader.rs b/lib/app/src/external_package_configuration_reader.rs
index c20546c..0830dd8 100644
--- a/lib/app/src/external_package_configuration_reader.rs
+++ b/lib/app/src/external_package_configuration_reader.rs
@@ -29,36 +29,43 @@ pub fn read_all(
     package_directory: &FilePath,
     output_directory: &FilePath,
 ) -> Result<BTreeMap<url::Url, PackageConfiguration>, Box<dyn Error>> {
+    let mut configurations = BTreeMap::new();
+
     read_dependencies(
         infrastructure,
         &infrastructure
             .package_configuration_reader
             .read(package_directory)?,
         output_directory,
-    )
+        &mut configurations,
+    )?;
+
+    Ok(configurations)
 }
 
 fn read_dependencies(
     infrastructure: &Infrastructure,
     configuration: &PackageConfiguration,
     output_directory: &FilePath,
-) -> Result<BTreeMap<url::Url, PackageConfiguration>, Box<dyn Error>> {
-    Ok(configuration
-        .dependencies()
-        .values()
-        .map(|url| -> Result<_, Box<dyn Error>> {
-            let configuration = infrastructure.package_configuration_reader.read(
-                &file_path_resolver::resolve_package_directory(output_directory, url),
-            )?;
-            let dependencies = read_dependencies(infrastructure, &configuration, output_directory)?;
+    configurations: &mut BTreeMap<url::Url, PackageConfiguration>,
+) -> Result<(), Box<dyn Error>> {
+    for url in configuration.dependencies().values() {
+        if configurations.contains_key(url) {
+            continue;
+        }
 
-            Ok([(url.clone(), configuration)]
-                .into_iter()
-                .chain(dependencies)
-                .collect::<Vec<_>>())
-        })
-        .collect::<Result<Vec<_>, _>>()?
-        .into_iter()
-        .flatten()
-        .collect())
+        let configuration = infrastructure.package_configuration_reader.read(
+            &file_path_resolver::resolve_package_directory(output_directory, url),
+        )?;
+
+        configurations.insert(url.clone(), configuration.clone());
+        read_dependencies(
+            infrastructure,
+            &configuration,
+            output_directory,
+            configurations,
+        )?;
+    }
+
+    Ok(())
 }
diff --git a/lib/app/src/package_initializer.rs b/lib/app/src/package_initializer.rs
index 34a7158..22ae49d 100644
--- a/lib/app/src/package_initializer.rs
+++ b/lib/app/src/package_initializer.rs
@@ -1,7 +1,7 @@
 mod external_package_initializer;
 
 use crate::infra::{FilePath, Infrastructure};
-use std::error::Error;
+use std::{collections::BTreeSet, error::Error};
 
 pub fn initialize(
     infrastructure: &Infrastructure,
@@ -15,12 +15,21 @@ pub fn initialize(
         prelude_package_url,
         output_directory,
     )?;
-    external_package_initializer::initialize(infrastructure, ffi_package_url, output_directory)?;
+
+    let mut initialized_urls = BTreeSet::new();
+
+    external_package_initializer::initialize(
+        infrastructure,
+        ffi_package_url,
+        output_directory,
+        &mut initialized_urls,
+    )?;
 
     external_package_initializer::initialize_dependencies(
         infrastructure,
         package_directory,
         output_directory,
+        &mut initialized_urls,
     )?;
 
     Ok(())
diff --git a/lib/app/src/package_initializer/external_package_initializer.rs b/lib/app/src/package_initializer/external_package_initializer.rs
index 81164f1..7cbb4a7 100644
--- a/lib/app/src/package_initializer/external_package_initializer.rs
+++ b/lib/app/src/package_initializer/external_package_initializer.rs
@@ -3,12 +3,13 @@ use crate::{
     infra::{FilePath, Infrastructure},
     package_build_script_compiler,
 };
-use std::error::Error;
+use std::{collections::BTreeSet, error::Error};
 
 pub fn initialize_dependencies(
     infrastructure: &Infrastructure,
     package_directory: &FilePath,
     output_directory: &FilePath,
+    initialized_urls: &mut BTreeSet<url::Url>,
 ) -> Result<(), Box<dyn Error>> {
     for url in infrastructure
         .package_configuration_reader
@@ -16,7 +17,7 @@ pub fn initialize_dependencies(
         .dependencies()
         .values()
     {
-        initialize(infrastructure, url, output_directory)?;
+        initialize(infrastructure, url, output_directory, initialized_urls)?;
     }
 
     Ok(())
@@ -26,7 +27,12 @@ pub fn initialize(
     infrastructure: &Infrastructure,
     package_url: &url::Url,
     output_directory: &FilePath,
+    initialized_urls: &mut BTreeSet<url::Url>,
 ) -> Result<(), Box<dyn Error>> {
+    if !initialized_urls.insert(package_url.clone()) {
+        return Ok(());
+    }
+
     let package_directory =
         file_path_resolver::resolve_package_directory(output_directory, package_url);
 
@@ -49,6 +55,7 @@ pub fn initialize(
         infrastructure,
         &file_path_resolver::resolve_package_directory(output_directory, package_url),
         output_directory,
+        initialized_urls,
     )?;
 
     Ok(())
-- 
2.43.0


From 577dd1298b432972a44adbc124216e660d5d2bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:39 +0000
Subject: [PATCH 39/50] fix: keep external packages of similar URLs apart

---
 lib/app/src/common/package_id_calculator.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/app/src/common/package_id_calculator.rs b/lib/app/src/common/package_id_calculator.rs
index 7243678..bf235cf 100644
--- a/lib/app/src/common/package_id_calculator.rs
+++ b/lib/app/src/common/package_id_calculator.rs
@@ -1,12 +1,23 @@
 use regex::Regex;
-use std::sync::LazyLock;
+use std::{
+    collections::hash_map::DefaultHasher,
+    hash::{Hash, Hasher},
+    sync::LazyLock,
+};
 
 const REPLACEMENT_STRING: &str = "_";
 
 static REPLACEMENT_REGEX: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"[.:/]+").unwrap());
 
 pub fn calculate(url: &url::Url) -> String {
-    REPLACEMENT_REGEX
-        .replace_all(&format!("{url}"), REPLACEMENT_STRING)
-        .into()
+    let mut hasher = DefaultHasher::new();
+
+    url.hash(&mut hasher);
+
+    // Different URLs can be the same after replacement.
+    format!(
+        "{}_{:x}",
+        REPLACEMENT_REGEX.replace_all(url.as_str(), REPLACEMENT_STRING),
+        hasher.finish()
+    )
 }
-- 
2.43.0


From 8cf274c467f4f3db16b07037e2e115548e204c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:58 +0000
Subject: [PATCH 40/50] fix: resolve relative URLs of dependencies of external
 packages

---
 lib/infra/src/external_package_initializer.rs | 39 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/lib/infra/src/external_package_initializer.rs b/lib/infra/src/external_package_initializer.rs
index df8a6ce..4b6129e 100644
--- a/lib/infra/src/external_package_initializer.rs
+++ b/lib/infra/src/external_package_initializer.rs
@@ -1,4 +1,7 @@
-use super::{command_runner, file_path_converter::FilePathConverter};
+use super::{
+    command_runner, file_path_converter::FilePathConverter,
+    json_package_configuration::JsonPackageConfiguration,
+};
 use crate::{environment_variable_reader, InfrastructureError};
 use std::{error::Error, path::PathBuf, process::Command, rc::Rc};
 
@@ -29,6 +32,38 @@ impl ExternalPackageInitializer {
             build_configuration_filename,
         }
     }
+
+    // Relative URLs of dependencies are relative to an original location of a
+    // package but not to its copy.
+    fn resolve_dependency_urls(
+        &self,
+        url: &url::Url,
+        package_directory: &app::infra::FilePath,
+    ) -> Result<(), Box<dyn Error>> {
+        let configuration_file = package_directory.join(&app::infra::FilePath::new([
+            self.build_configuration_filename
+        ]));
+        let configuration = serde_json::from_str::<JsonPackageConfiguration>(
+            &self.file_system.read_to_string(&configuration_file)?,
+        )?;
+
+        let mut base_url = url.clone();
+
+        if !base_url.path().ends_with('/') {
+            base_url.set_path(&(base_url.path().to_owned() + "/"));
+        }
+
+        let configuration = configuration.into_configuration(&base_url)?;
+
+        self.file_system.write(
+            &configuration_file,
+            (serde_json::to_string_pretty(&JsonPackageConfiguration::new(
+                configuration.type_(),
+                configuration.dependencies().clone(),
+            ))? + "\n")
+                .as_bytes(),
+        )
+    }
 }
 
 impl app::infra::ExternalPackageInitializer for ExternalPackageInitializer {
@@ -97,6 +132,6 @@ impl app::infra::ExternalPackageInitializer for ExternalPackageInitializer {
             }
         }
 
-        Ok(())
+        self.resolve_dependency_urls(url, package_directory)
     }
 }
-- 
2.43.0


From f7ea1d8822d25f29dbcb141016b7bf48a89cff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 41/50] fix: remove objects of deleted modules from archives

---
 lib/infra/src/ninja_build_script_compiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/infra/src/ninja_build_script_compiler.rs b/lib/infra/src/ninja_build_script_compiler.rs
index d4d3544..e9aa113 100644
--- a/lib/infra/src/ninja_build_script_compiler.rs
+++ b/lib/infra/src/ninja_build_script_compiler.rs
@@ -123,7 +123,7 @@ impl NinjaBuildScriptCompiler {
             "  command = $script_file -t $target $out",
             "  description = compiling FFI module $in_package_name",
             "rule ar",
-            &format!("  command = {} crs $out $in", ar.display()),
+            &format!("  command = rm -f $out && {} crs $out $in", ar.display()),
             AR_DESCRIPTION,
             "rule ar_ffi",
             &format!(
-- 
2.43.0


From 8764f056b812dcbc07655faad0925d935475f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:27 +0000
Subject: [PATCH 42/50] fix: resolve dependencies again on changes of package
 configuration

---
 cmd/pen/src/infrastructure.rs                | 1 +
 lib/infra/src/ninja_build_script_compiler.rs | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/pen/src/infrastructure.rs b/cmd/pen/src/infrastructure.rs
index e631164..cab4d88 100644
--- a/cmd/pen/src/infrastructure.rs
+++ b/cmd/pen/src/infrastructure.rs
@@ -19,6 +19,7 @@ pub fn create(
         NINJA_DYNAMIC_DEPENDENCY_FILE_EXTENSION,
         FFI_BUILD_SCRIPT_BASENAME,
         LINK_SCRIPT_BASENAME,
+        BUILD_CONFIGURATION_FILENAME,
     ));
 
     Ok(app::infra::Infrastructure {
diff --git a/lib/infra/src/ninja_build_script_compiler.rs b/lib/infra/src/ninja_build_script_compiler.rs
index e9aa113..9bfad03 100644
--- a/lib/infra/src/ninja_build_script_compiler.rs
+++ b/lib/infra/src/ninja_build_script_compiler.rs
@@ -21,6 +21,7 @@ pub struct NinjaBuildScriptCompiler {
     ninja_dynamic_dependency_file_extension: &'static str,
     ffi_build_script_basename: &'static str,
     link_script_basename: &'static str,
+    build_configuration_filename: &'static str,
 }
 
 impl NinjaBuildScriptCompiler {
@@ -31,6 +32,7 @@ impl NinjaBuildScriptCompiler {
         ninja_dynamic_dependency_file_extension: &'static str,
         ffi_build_script_basename: &'static str,
         link_script_basename: &'static str,
+        build_configuration_filename: &'static str,
     ) -> Self {
         Self {
             file_path_converter,
@@ -39,6 +41,7 @@ impl NinjaBuildScriptCompiler {
             ninja_dynamic_dependency_file_extension,
             ffi_build_script_basename,
             link_script_basename,
+            build_configuration_filename,
         }
     }
 
@@ -324,10 +327,13 @@ impl NinjaBuildScriptCompiler {
     ) -> Vec<String> {
         vec![
             format!(
-                "build {} {}: resolve_dependency {}",
+                "build {} {}: resolve_dependency {} | {}",
                 dependency_file.display(),
                 ninja_dependency_file.display(),
                 source_file.display(),
+                package_directory
+                    .join(self.build_configuration_filename)
+                    .display(),
             ),
             format!("  package_directory = {}", package_directory.display()),
             format!("  object_file = {}", bit_code_file.display()),
-- 
2.43.0


From cbec46d2be3dba073e602e508bc75f320b4a4754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:44 +0000
Subject: [PATCH 43/50] fix: create packages in the directory given

---
 cmd/pen/src/package_creator.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cmd/pen/src/package_creator.rs b/cmd/pen/src/package_creator.rs
index ba04da4..173c41b 100644
--- a/cmd/pen/src/package_creator.rs
+++ b/cmd/pen/src/package_creator.rs
@@ -3,16 +3,14 @@ use crate::{
     file_path_configuration::{DEFAULT_SYSTEM_PACKAGE_NAME, DEFAULT_SYSTEM_PACKAGE_URL},
     infrastructure,
 };
-use std::{path::PathBuf, rc::Rc};
+use std::rc::Rc;
 
 pub fn create(package_directory: &str, library: bool) -> Result<(), Box<dyn std::error::Error>> {
-    let file_path_converter = Rc::new(infra::FilePathConverter::new(
-        PathBuf::from(package_directory).parent().ok_or_else(|| {
-            std::io::Error::new(std::io::ErrorKind::NotFound, "parent directory not found")
-        })?,
-    ));
-    let infrastructure = infrastructure::create(file_path_converter.clone(), package_directory)?;
-    let package_directory = file_path_converter.convert_to_file_path(package_directory)?;
+    let infrastructure = infrastructure::create(
+        Rc::new(infra::FilePathConverter::new(package_directory)),
+        package_directory,
+    )?;
+    let package_directory = app::infra::FilePath::empty();
 
     if library {
         app::package_creator::create_library(
-- 
2.43.0


From b8003442f0ee3fd0c24a6022e50545acf315d76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:45 +0000
Subject: [PATCH 44/50] fix: leave no incomplete copies of external packages

---
 lib/infra/src/external_package_initializer.rs | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/lib/infra/src/external_package_initializer.rs b/lib/infra/src/external_package_initializer.rs
index 4b6129e..e8fab4f 100644
--- a/lib/infra/src/external_package_initializer.rs
+++ b/lib/infra/src/external_package_initializer.rs
@@ -5,6 +5,8 @@ use super::{
 use crate::{environment_variable_reader, InfrastructureError};
 use std::{error::Error, path::PathBuf, process::Command, rc::Rc};
 
+const TEMPORARY_DIRECTORY_SUFFIX: &str = ".tmp";
+
 pub struct ExternalPackageInitializer {
     file_system: Rc<dyn app::infra::FileSystem>,
     file_path_converter: Rc<FilePathConverter>,
@@ -85,11 +87,26 @@ impl app::infra::ExternalPackageInitializer for ExternalPackageInitializer {
             .file_path_converter
             .convert_to_os_path(package_directory);
 
+        // Prepare a package in a temporary directory so that packages are never
+        // left incomplete on interruption.
+        let temporary_package_directory =
+            package_directory
+                .parent()
+                .join(&app::infra::FilePath::new([format!(
+                    "{}{TEMPORARY_DIRECTORY_SUFFIX}",
+                    package_directory.components().last().unwrap_or_default(),
+                )]));
+        let temporary_directory = self
+            .file_path_converter
+            .convert_to_os_path(&temporary_package_directory);
+
         // Remove a stale directory left by cache restoration (e.g. cargo
         // cache restoring `**/target/` may recreate parent directories
         // without source files).
-        if directory.exists() {
-            std::fs::remove_dir_all(&directory)?;
+        for directory in [&directory, &temporary_directory] {
+            if directory.exists() {
+                std::fs::remove_dir_all(directory)?;
+            }
         }
 
         if let Some(directory) = directory.parent() {
@@ -99,7 +116,10 @@ impl app::infra::ExternalPackageInitializer for ExternalPackageInitializer {
         match url.scheme() {
             "file" => {
                 command_runner::run_command(
-                    Command::new("cp").arg("-r").arg(url.path()).arg(directory),
+                    Command::new("cp")
+                        .arg("-r")
+                        .arg(url.path())
+                        .arg(&temporary_directory),
                 )?;
             }
             "git" => {
@@ -107,7 +127,7 @@ impl app::infra::ExternalPackageInitializer for ExternalPackageInitializer {
                     Command::new("git")
                         .arg("clone")
                         .arg(url.as_str())
-                        .arg(directory),
+                        .arg(&temporary_directory),
                 )?;
             }
             _ => {
@@ -127,11 +147,15 @@ impl app::infra::ExternalPackageInitializer for ExternalPackageInitializer {
                             .join(self.packages_directory)
                             .join(url.path().strip_prefix('/').unwrap_or_default()),
                         )
-                        .arg(directory),
+                        .arg(&temporary_directory),
                 )?;
             }
         }
 
-        self.resolve_dependency_urls(url, package_directory)
+        self.resolve_dependency_urls(url, &temporary_package_directory)?;
+
+        std::fs::rename(temporary_directory, directory)?;
+
+        Ok(())
     }
 }
-- 
2.43.0


From 88cd12640199ff61ef6917fda9faf32becda1f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:14 +0000
Subject: [PATCH 45/50] fix: leave no incomplete copy of the crate of tests

---
 lib/infra/src/test_linker.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/infra/src/test_linker.rs b/lib/infra/src/test_linker.rs
index 9af5073..b2995b6 100644
--- a/lib/infra/src/test_linker.rs
+++ b/lib/infra/src/test_linker.rs
@@ -111,18 +111,26 @@ impl app::infra::TestLinker for TestLinker {
     ) -> Result<(), Box<dyn Error>> {
         let language_root_directory =
             environment_variable_reader::read(self.language_root_environment_variable)?;
-        let main_crate_directory = self
-            .file_path_converter
-            .convert_to_os_path(test_directory)
-            .join("main");
+        let test_directory = self.file_path_converter.convert_to_os_path(test_directory);
+        let main_crate_directory = test_directory.join("main");
 
         if !main_crate_directory.exists() {
+            // Prepare a crate in a temporary directory so that it is never left incomplete
+            // on interruption.
+            let temporary_directory = test_directory.join("main.tmp");
+
+            if temporary_directory.exists() {
+                fs::remove_dir_all(&temporary_directory)?;
+            }
+
             command_runner::run_command(
                 Command::new("cp")
                     .arg("-r")
                     .arg(Path::new(&language_root_directory).join("cmd/test"))
-                    .arg(&main_crate_directory),
+                    .arg(&temporary_directory),
             )?;
+
+            fs::rename(&temporary_directory, &main_crate_directory)?;
         }
 
         OpenOptions::new()
-- 
2.43.0


From 35951e12315854871dbf6579c9a361a8b34502ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:36 +0000
Subject: [PATCH 46/50] fix: report tests failing with empty error messages

---
 lib/hir-mir/src/test_function.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/lib/hir-mir/src/test_function.rs b/lib/hir-mir/src/test_function.rs
index 7c6dbb9..6bf03a4 100644
--- a/lib/hir-mir/src/test_function.rs
+++ b/lib/hir-mir/src/test_function.rs
@@ -8,6 +8,7 @@ use std::{
 const TEST_FUNCTION_WRAPPER_SUFFIX: &str = "__wrapper";
 const RESULT_VARIABLE_NAME: &str = "$result";
 const MESSAGE_VARIABLE_NAME: &str = "$message";
+const EMPTY_TEST_ERROR_MESSAGE: &str = "<empty test error>";
 const NON_STRING_TEST_ERROR_MESSAGE: &str = "<non-string test error>";
 
 pub fn compile(
@@ -75,8 +76,29 @@ pub fn compile(
                                                 ),
                                                 vec![IfTypeBranch::new(
                                                     types::ByteString::new(position.clone()),
-                                                    Variable::new(
-                                                        MESSAGE_VARIABLE_NAME,
+                                                    // An empty message stands for success.
+                                                    If::new(
+                                                        EqualityOperation::new(
+                                                            None,
+                                                            EqualityOperator::Equal,
+                                                            Variable::new(
+                                                                MESSAGE_VARIABLE_NAME,
+                                                                position.clone(),
+                                                            ),
+                                                            ByteString::new(
+                                                                vec![],
+                                                                position.clone(),
+                                                            ),
+                                                            position.clone(),
+                                                        ),
+                                                        ByteString::new(
+                                                            EMPTY_TEST_ERROR_MESSAGE,
+                                                            position.clone(),
+                                                        ),
+                                                        Variable::new(
+                                                            MESSAGE_VARIABLE_NAME,
+                                                            position.clone(),
+                                                        ),
                                                         position.clone(),
                                                     ),
                                                 )],
-- 
2.43.0


From b2da9b216b7391fcc9d35b15561aa30cd3842aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:37 +0000
Subject: [PATCH 47/50] Revert "fix: report tests failing with empty error
 messages"

This reverts commit 35951e12315854871dbf6579c9a361a8b34502ba.
---
 lib/hir-mir/src/test_function.rs | 26 ++------------------------
 1 file changed, 2 insertions(+), 24 deletions(-)

diff --git a/lib/hir-mir/src/test_function.rs b/lib/hir-mir/src/test_function.rs
index 6bf03a4..7c6dbb9 100644
--- a/lib/hir-mir/src/test_function.rs
+++ b/lib/hir-mir/src/test_function.rs
@@ -8,7 +8,6 @@ use std::{
 const TEST_FUNCTION_WRAPPER_SUFFIX: &str = "__wrapper";
 const RESULT_VARIABLE_NAME: &str = "$result";
 const MESSAGE_VARIABLE_NAME: &str = "$message";
-const EMPTY_TEST_ERROR_MESSAGE: &str = "<empty test error>";
 const NON_STRING_TEST_ERROR_MESSAGE: &str = "<non-string test error>";
 
 pub fn compile(
@@ -76,29 +75,8 @@ pub fn compile(
                                                 ),
                                                 vec![IfTypeBranch::new(
                                                     types::ByteString::new(position.clone()),
-                                                    // An empty message stands for success.
-                                                    If::new(
-                                                        EqualityOperation::new(
-                                                            None,
-                                                            EqualityOperator::Equal,
-                                                            Variable::new(
-                                                                MESSAGE_VARIABLE_NAME,
-                                                                position.clone(),
-                                                            ),
-                                                            ByteString::new(
-                                                                vec![],
-                                                                position.clone(),
-                                                            ),
-                                                            position.clone(),
-                                                        ),
-                                                        ByteString::new(
-                                                            EMPTY_TEST_ERROR_MESSAGE,
-                                                            position.clone(),
-                                                        ),
-                                                        Variable::new(
-                                                            MESSAGE_VARIABLE_NAME,
-                                                            position.clone(),
-                                                        ),
+                                                    Variable::new(
+                                                        MESSAGE_VARIABLE_NAME,
                                                         position.clone(),
                                                     ),
                                                 )],
-- 
2.43.0


From fe3b5755c411965edd29fe680b42ac48081dffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:37 +0000
Subject: [PATCH 48/50] Revert "fix: leave no incomplete copy of the crate of
 tests"

This reverts commit 88cd12640199ff61ef6917fda9faf32becda1f95.
---
 lib/infra/src/test_linker.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/lib/infra/src/test_linker.rs b/lib/infra/src/test_linker.rs
index b2995b6..9af5073 100644
--- a/lib/infra/src/test_linker.rs
+++ b/lib/infra/src/test_linker.rs
@@ -111,26 +111,18 @@ impl app::infra::TestLinker for TestLinker {
     ) -> Result<(), Box<dyn Error>> {
         let language_root_directory =
             environment_variable_reader::read(self.language_root_environment_variable)?;
-        let test_directory = self.file_path_converter.convert_to_os_path(test_directory);
-        let main_crate_directory = test_directory.join("main");
+        let main_crate_directory = self
+            .file_path_converter
+            .convert_to_os_path(test_directory)
+            .join("main");
 
         if !main_crate_directory.exists() {
-            // Prepare a crate in a temporary directory so that it is never left incomplete
-            // on interruption.
-            let temporary_directory = test_directory.join("main.tmp");
-
-            if temporary_directory.exists() {
-                fs::remove_dir_all(&temporary_directory)?;
-            }
-
             command_runner::run_command(
                 Command::new("cp")
                     .arg("-r")
                     .arg(Path::new(&language_root_directory).join("cmd/test"))
-                    .arg(&temporary_directory),
+                    .arg(&main_crate_directory),
             )?;
-
-            fs::rename(&temporary_directory, &main_crate_directory)?;
         }
 
         OpenOptions::new()
-- 
2.43.0


From 9a4b1e06eb3f8f138c7e3180bd204d4829642c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:04 +0000
Subject: [PATCH 49/50] fix: synchronize values of thunks shared among threads
 before publishing them

---
 lib/mir-fmm/src/entry_function.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/mir-fmm/src/entry_function.rs b/lib/mir-fmm/src/entry_function.rs
index 1ddf8bb..2685a86 100644
--- a/lib/mir-fmm/src/entry_function.rs
+++ b/lib/mir-fmm/src/entry_function.rs
@@ -216,6 +216,14 @@ fn compile_initial_thunk_entry(
             builder.if_(
                 synchronized,
                 |builder| -> Result<_, CompileError> {
+                    // Values of synchronized thunks are shared with other threads, too.
+                    reference_count::synchronize(
+                        context,
+                        &builder,
+                        &value,
+                        definition.result_type(),
+                    )?;
+
                     builder.atomic_store(
                         normal_entry_function.clone(),
                         entry_function_pointer.clone(),
-- 
2.43.0


From 25353ef712c1f0094bc32f8c06ef45cb335cf9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:40 +0000
Subject: [PATCH 50/50] fix: update thunks whose bodies return early

---
 lib/mir-fmm/src/entry_function.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/mir-fmm/src/entry_function.rs b/lib/mir-fmm/src/entry_function.rs
index 2685a86..81498f8 100644
--- a/lib/mir-fmm/src/entry_function.rs
+++ b/lib/mir-fmm/src/entry_function.rs
@@ -131,6 +131,9 @@ fn compile_initial_thunk_entry(
 ) -> Result<fmm::build::TypedExpression, CompileError> {
     let entry_function_name = context.module_builder().generate_name();
     let arguments = compile_arguments(context, definition);
+    // Bodies might return early. So we need to compile them as different functions
+    // to update thunks even in such cases.
+    let body_function = compile_non_thunk(context, definition, global, variables)?;
 
     context.module_builder().define_function(
         &entry_function_name,
@@ -184,7 +187,10 @@ fn compile_initial_thunk_entry(
                 &definition.type_().clone().into(),
             )?;
 
-            let value = compile_body(context, &builder, definition, global, variables)?;
+            let value = builder.call(
+                body_function.clone(),
+                compile_argument_variables(&arguments),
+            )?;
 
             let environment_pointer = compile_environment_pointer(context, definition)?;
 
-- 
2.43.0

