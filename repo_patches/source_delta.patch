From 22e1cebe4e75d7210a2f78837bf13a72017f4120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 01/14] fix: `x!!y` was parsed as a binary factorial and
 panicked when folded, evaluated or compared

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index dd92346..d9e3f57 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -164,8 +164,8 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
     ) -> Result<Element<'input>, ParseError> {
         let mut el = self.atom()?;
 
-        // Right-associative unary operators
-        if self.consume_if_eq(b'!') {
+        // Postfix unary operators (can be chained: `3!!` is `(3!)!`)
+        while self.consume_if_eq(b'!') {
             el = UnOp::new_element(Operator::Factorial, el);
         }
 
-- 
2.43.0


From 446c1e974dec55c35b8adfe6a78488055a3c8b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 02/14] fix: parsing an empty expression underflowed the error
 span

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index d9e3f57..f5cc113 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -566,7 +566,7 @@ impl ParseError {
             kind: ErrorKind::UnexpectedEndOfExpression,
             // - 1 because we want to point to the last character
             // (without it, we would point to a `None` value)
-            span: (parser.cursor - 1).into(),
+            span: parser.cursor.saturating_sub(1).into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
     }
-- 
2.43.0


From 20ce7a3d1c66e8ef83b9c8be8a507322c98b196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 03/14] fix: non-ASCII characters were reported as their first
 byte in parse errors

---
 src/parser.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f5cc113..3690402 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -437,6 +437,17 @@ impl ParserImpl<'_, '_> {
         }
     }
 
+    /// Returns the whole (possibly multi-byte) character under the cursor,
+    /// `tok` being its first byte.
+    #[cold]
+    fn char_at_cursor(&self, tok: u8) -> char {
+        self.input
+            .get(self.cursor..)
+            .and_then(|rest| str::from_utf8(rest).ok())
+            .and_then(|rest| rest.chars().next())
+            .unwrap_or_else(|| char::from(tok))
+    }
+
     /// Asserts that the next character is equal to the given one and consumes
     /// it if it is.
     fn assert_eq_consume(&mut self, tok: u8) -> Result<(), ParseError> {
@@ -575,7 +586,7 @@ impl ParseError {
     #[cold]
     fn new_unexpected_token(parser: &ParserImpl, tok: u8) -> Self {
         Self {
-            kind: ErrorKind::UnexpectedToken(char::from(tok)),
+            kind: ErrorKind::UnexpectedToken(parser.char_at_cursor(tok)),
             span: parser.cursor.into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
@@ -596,7 +607,7 @@ impl ParseError {
     #[cold]
     fn new_illegal_character(parser: &ParserImpl, tok: u8) -> Self {
         Self {
-            kind: ErrorKind::IllegalCharacter(char::from(tok)),
+            kind: ErrorKind::IllegalCharacter(parser.char_at_cursor(tok)),
             span: parser.cursor.into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
-- 
2.43.0


From 0fd4505c86a22102914cb8adf23668411a1d5de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 04/14] fix: an unexpected token inside a nested call was
 reported as a missing argument, with a span that could split a character

---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3690402..f9b6997 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -338,10 +338,11 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
         self.element(precedence::NO_PRECEDENCE).map_err(
             #[cold]
             |err| match err.kind {
-                ErrorKind::UnexpectedToken(_) => {
+                ErrorKind::UnexpectedToken(')') => {
                     ParseError::new_missing_argument(self)
                 },
-                ErrorKind::UnexpectedEndOfExpression
+                ErrorKind::UnexpectedToken(_)
+                | ErrorKind::UnexpectedEndOfExpression
                 | ErrorKind::ExpectedToken(_)
                 | ErrorKind::MalformedNumber(_)
                 | ErrorKind::IllegalCharacter(_)
-- 
2.43.0


From 8692a3fbdf03be487dfc195791a3c433cee5bc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 05/14] fix: implicit multiplication was refused in front of
 identifiers starting with an uppercase letter

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index f9b6997..ec2b739 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -428,7 +428,9 @@ impl ParserImpl<'_, '_> {
             _ if IMPLICIT_MULTIPLICATION_INFO.1 <= precedence => None,
             // if it's an identifier or an opening parenthesis
             // we can consider its an implicit multiplication
-            b'a'..=b'z' | b'(' => Some(IMPLICIT_MULTIPLICATION_INFO),
+            b'A'..=b'Z' | b'a'..=b'z' | b'(' => {
+                Some(IMPLICIT_MULTIPLICATION_INFO)
+            },
             // if it's a number implicit multiplication is
             // only possible if previous atom isn't a number
             b'0'..=b'9' if !matches!(*current_atom, Element::Number(_)) => {
-- 
2.43.0


From 57bb6a88d21c2fa0a2d81debb9a5532ea2ea7fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 06/14] fix: optimisations gave closed expressions, `0 ^ x` and
 `x % 1` another value than their evaluation

`-1/0` folded to +inf, `0 ^ -1` and `2.5 % 1` to 0, `0 * (1/0)` to 0 because
the algebraic rules were tried before plain computation. The rules
`0 ^ a => 0` (wrong for a = 0) and `a % 1 => 0` (wrong for any non integer)
are removed.
---
 src/element/simplify.rs | 44 +++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/element/simplify.rs b/src/element/simplify.rs
index 12c2151..00d0055 100644
--- a/src/element/simplify.rs
+++ b/src/element/simplify.rs
@@ -50,6 +50,26 @@ impl<'a> Simplify<'a> for BinOp<'a> {
         self.lhs = self.lhs.simplify();
         self.rhs = self.rhs.simplify();
         match self {
+            /////////////////////////// 2 Numbers ///////////////////////////
+            // must stay first: closed operations are simply computed, the rules
+            // below are only meant for operations containing unknowns
+            BinOp {
+                op,
+                rhs: Number(rhs),
+                lhs: Number(lhs),
+            } => {
+                #[allow(clippy::unreachable)]
+                let result = match op {
+                    Plus => lhs + rhs,
+                    Minus => lhs - rhs,
+                    Times => lhs * rhs,
+                    Divide => lhs / rhs,
+                    Power => lhs.powf(rhs),
+                    Modulo => lhs % rhs,
+                    Factorial => unreachable!(),
+                };
+                Number(result)
+            },
             /////////////////////////// Additions ///////////////////////////
             // 0 + a => a
             BinOp { op: Plus, lhs, rhs } if lhs == Number(0.0) => rhs,
@@ -180,8 +200,6 @@ impl<'a> Simplify<'a> for BinOp<'a> {
                 lhs,
                 rhs,
             } if lhs == Number(0.0) && rhs == Number(0.0) => Number(1.0),
-            // 0 ^ a => 0
-            BinOp { op: Power, lhs, .. } if lhs == Number(0.0) => Number(0.0),
             // a ^ 0 => 1
             BinOp {
                 op: Divide, rhs, ..
@@ -207,34 +225,12 @@ impl<'a> Simplify<'a> for BinOp<'a> {
             BinOp {
                 op: Modulo, rhs, ..
             } if rhs == Number(0.0) => Number(f64::NAN),
-            // a % 1 => 0
-            BinOp {
-                op: Modulo, rhs, ..
-            } if rhs == Number(1.0) => Number(0.0),
             // a % a => 0
             BinOp {
                 op: Modulo,
                 lhs,
                 rhs,
             } if lhs == rhs => Number(0.0),
-            /////////////////////////// 2 Numbers ///////////////////////////
-            BinOp {
-                op,
-                rhs: Number(rhs),
-                lhs: Number(lhs),
-            } => {
-                #[allow(clippy::unreachable)]
-                let result = match op {
-                    Plus => lhs + rhs,
-                    Minus => lhs - rhs,
-                    Times => lhs * rhs,
-                    Divide => lhs / rhs,
-                    Power => lhs.powf(rhs),
-                    Modulo => lhs % rhs,
-                    Factorial => unreachable!(),
-                };
-                Number(result)
-            },
             _ => self.into(),
         }
     }
-- 
2.43.0


From b95356b9fc1bbf7dab58d36dfffaf2fa99b33e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 07/14] fix: binding an expression with 256 missing variables
 overflowed their count

---
 src/xprs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index 3ef4b7f..c8df651 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -747,7 +747,7 @@ impl BindError {
         missing_vars: Difference<'_, &str, RandomState>,
     ) -> Option<Self> {
         let mut peekable = missing_vars.peekable();
-        let mut count: u8 = 0;
+        let mut count: usize = 0;
         let mut missing_vars_str = String::new();
         while let Some(missing_var) = peekable.next() {
             count += 1;
-- 
2.43.0


From ebfb0fae0db657bf6a1f42cd6f35e71489c1f450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 08/14] fix: simplification freed the expression twice when a
 user function panicked

---
 src/xprs.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index c8df651..52062a4 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -1,17 +1,14 @@
 /* Clippy Config */
 #![allow(clippy::std_instead_of_core)]
 /* Built-in imports */
-use core::{fmt, ptr};
+use core::{fmt, mem};
 use std::collections::{HashMap, HashSet};
 /* Crate imports */
 use crate::{
     element::Element,
     element::Simplify,
     token::Operator,
-    utils::{
-        factorial::factorial,
-        hidden_macros::{trust_me, yeet},
-    },
+    utils::{factorial::factorial, hidden_macros::yeet},
 };
 
 /// Represents a mathematical expression and its variables.
@@ -141,9 +138,9 @@ impl Xprs<'_> {
     /// ```
     #[inline]
     pub fn simplify_for_in_place(&mut self, var: (&str, f64)) {
-        let mut tmp = trust_me!(ptr::read(&self.root));
-        tmp = tmp.simplify_for(var);
-        trust_me!(ptr::write(&mut self.root, tmp););
+        // a placeholder is left behind: user functions may panic during the simplification
+        let root = mem::replace(&mut self.root, Element::Number(f64::NAN));
+        self.root = root.simplify_for(var);
         self.vars.remove(var.0);
     }
 
@@ -217,13 +214,13 @@ impl Xprs<'_> {
     /// ```
     #[inline]
     pub fn simplify_for_multiple_in_place(&mut self, vars: &[(&str, f64)]) {
-        // rewriting `simplify_for_in_place` to avoid dozens of `ptr::read` and `ptr::write`
-        let mut tmp = trust_me!(ptr::read(&self.root));
+        // a placeholder is left behind: user functions may panic during the simplification
+        let mut tmp = mem::replace(&mut self.root, Element::Number(f64::NAN));
         for &var in vars {
             tmp = tmp.simplify_for(var);
             self.vars.remove(var.0);
         }
-        trust_me!(ptr::write(&mut self.root, tmp););
+        self.root = tmp;
     }
 
     /// Simplifies the expression in-place for multiple variables and returns the expression.
-- 
2.43.0


From cb4cdac084516eaef2d35be684d135f0b482911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 09/14] fix: variables eliminated by a simplification were
 still listed as needed

---
 src/xprs.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index 52062a4..5c54829 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -141,7 +141,7 @@ impl Xprs<'_> {
         // a placeholder is left behind: user functions may panic during the simplification
         let root = mem::replace(&mut self.root, Element::Number(f64::NAN));
         self.root = root.simplify_for(var);
-        self.vars.remove(var.0);
+        self.refresh_vars();
     }
 
     /// Simple wrapper around [`Xprs::eval`] that doesn't require any variables.
@@ -218,9 +218,9 @@ impl Xprs<'_> {
         let mut tmp = mem::replace(&mut self.root, Element::Number(f64::NAN));
         for &var in vars {
             tmp = tmp.simplify_for(var);
-            self.vars.remove(var.0);
         }
         self.root = tmp;
+        self.refresh_vars();
     }
 
     /// Simplifies the expression in-place for multiple variables and returns the expression.
@@ -248,6 +248,13 @@ impl Xprs<'_> {
         self.simplify_for_multiple_in_place(vars);
         self
     }
+
+    /// Recomputes the set of variables, a simplification may have eliminated
+    /// more variables than the ones it was given a value for.
+    fn refresh_vars(&mut self) {
+        self.vars.clear();
+        self.root.find_variables(&mut self.vars);
+    }
 }
 
 /// An internal struct used for evaluating expressions.
-- 
2.43.0


From 1168f539dcacb7ab31aa36e5b8ea4e47c0eb648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 10/14] fix: a digit after a complete operand was dropped into
 the wrong operand or refused

`2+3 5` was 25, `2*3 5` was 30 and `x^2 5` was accepted since the check looked
at the tree built so far, while `(2)5` and `(3+4)5` were refused depending on
the optimisations. Only two adjacent number literals are refused now.
---
 src/parser.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ec2b739..455ddb6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -116,6 +116,8 @@ struct ParserImpl<'input, 'ctx> {
     input: &'input [u8],
     /// The current cursor position in the input expression.
     cursor: usize,
+    /// Where the last parsed number literal (and the whitespaces after it) ends.
+    number_end: usize,
     /// The context of the parser.
     ctx: &'ctx Context<'ctx>,
 }
@@ -126,6 +128,7 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
         Self {
             input: input.as_bytes(),
             cursor: 0,
+            number_end: 0,
             ctx,
         }
     }
@@ -171,7 +174,7 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
 
         // BinOp with higher precedence
         while let Some((op, op_precedence)) =
-            self.get_operator_infos(&el, precedence)
+            self.get_operator_infos(precedence)
         {
             let rhs = self.element(op_precedence)?;
             el = BinOp::new_element(op, el, rhs);
@@ -307,6 +310,9 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             |_err| ParseError::new_malformed_number(self, ident),
         )?;
 
+        self.next_trim();
+        self.number_end = self.cursor;
+
         Ok(Element::Number(num))
     }
 
@@ -406,7 +412,6 @@ impl ParserImpl<'_, '_> {
     /// Returns the operator and its precedence if it's a valid operator.
     fn get_operator_infos(
         &mut self,
-        current_atom: &Element<'_>,
         precedence: usize,
     ) -> Option<(Operator, usize)> {
         use precedence::IMPLICIT_MULTIPLICATION_INFO;
@@ -432,8 +437,8 @@ impl ParserImpl<'_, '_> {
                 Some(IMPLICIT_MULTIPLICATION_INFO)
             },
             // if it's a number implicit multiplication is
-            // only possible if previous atom isn't a number
-            b'0'..=b'9' if !matches!(*current_atom, Element::Number(_)) => {
+            // only possible if it doesn't directly follow a number literal
+            b'0'..=b'9' if self.cursor != self.number_end => {
                 Some(IMPLICIT_MULTIPLICATION_INFO)
             },
             _ => None,
-- 
2.43.0


From 8e47cf7cbea533f983dff3518a0d16ac21358bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 11/14] fix: functions could not be called without arguments

The documentation gives the values of `min()`, `max()`, `sum()` and `mean()`
and functions of 0 arguments can be declared.
---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 455ddb6..840916e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -246,8 +246,6 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             Identifier::Constant(val) => Element::Number(val),
             Identifier::Variable(var) => Element::Variable(var),
             Identifier::Function(func) if self.consume_if_eq(b'(') => {
-                // for now the minimum number of arguments is 1
-                // self.parse_arguments() will fail if no argument is found
                 let args = self.parse_arguments()?;
                 self.assert_eq_consume(b')')?;
                 if let Some(nb_args) = func.nb_args {
@@ -320,6 +318,11 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
     fn parse_arguments(&mut self) -> Result<Vec<Element<'input>>, ParseError> {
         let mut args = Vec::new();
 
+        // no arguments at all, the arity is checked by the caller
+        if self.next_trim() == Some(&b')') {
+            return Ok(args);
+        }
+
         loop {
             let arg = self.argument()?;
             args.push(arg);
-- 
2.43.0


From c86728dacad8292188999a31d07d803828eb8800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 12/14] fix: Display wrote factorials as a prefix and lost the
 sign of negative bases

`x!` was written `(!x)` and `(-3)^x` `(-3 ^ x)`, which is another expression
for this very parser.
---
 src/element/binop.rs |  6 +++++-
 src/element/mod.rs   | 20 ++++++++++++++++++++
 src/element/unop.rs  |  7 ++++++-
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/element/binop.rs b/src/element/binop.rs
index 16eda9a..b1cb7bb 100644
--- a/src/element/binop.rs
+++ b/src/element/binop.rs
@@ -32,7 +32,11 @@ impl<'a> BinOp<'a> {
 
 impl fmt::Display for BinOp<'_> {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "({} {} {})", self.lhs, self.op, self.rhs)
+        if self.op == Operator::Power {
+            write!(fmt, "({} {} {})", self.lhs.as_operand(), self.op, self.rhs)
+        } else {
+            write!(fmt, "({} {} {})", self.lhs, self.op, self.rhs)
+        }
     }
 }
 
diff --git a/src/element/mod.rs b/src/element/mod.rs
index 5ac64c3..6a89d56 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -44,6 +44,21 @@ impl fmt::Display for Element<'_> {
     }
 }
 
+/// Displays an element as the left operand of an operator which binds tighter
+/// than the sign of a number (`^` and `!`).
+pub(crate) struct TightOperand<'el, 'a>(&'el Element<'a>);
+
+impl fmt::Display for TightOperand<'_, '_> {
+    fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
+        match *self.0 {
+            Element::Number(num) if num.is_sign_negative() => {
+                write!(fmt, "({num})")
+            },
+            ref element => write!(fmt, "{element}"),
+        }
+    }
+}
+
 impl<T> From<T> for Element<'_>
 where
     T: Into<f64>,
@@ -72,6 +87,11 @@ impl<'a> From<FunctionCall<'a>> for Element<'a> {
 }
 
 impl<'a> Element<'a> {
+    /// Returns the element's representation as a tightly bound left operand.
+    pub(crate) const fn as_operand(&self) -> TightOperand<'_, 'a> {
+        TightOperand(self)
+    }
+
     /// Finds variables in the element and adds them to the provided set.
     pub(crate) fn find_variables(&self, vars: &mut HashSet<&'a str>) {
         match *self {
diff --git a/src/element/unop.rs b/src/element/unop.rs
index b2c7565..157abd3 100644
--- a/src/element/unop.rs
+++ b/src/element/unop.rs
@@ -29,6 +29,11 @@ impl<'a> UnOp<'a> {
 
 impl fmt::Display for UnOp<'_> {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "({}{})", self.op, self.operand)
+        if self.op == Operator::Factorial {
+            // the only postfix operator
+            write!(fmt, "({}{})", self.operand.as_operand(), self.op)
+        } else {
+            write!(fmt, "({}{})", self.op, self.operand)
+        }
     }
 }
-- 
2.43.0


From ac8350b611aeaa89137e1dd4a26ee3a70f052422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 13/14] fix: the REPL looped forever on the end of its input

---
 src/bin/repl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/repl.rs b/src/bin/repl.rs
index 55c4100..289f84f 100644
--- a/src/bin/repl.rs
+++ b/src/bin/repl.rs
@@ -24,7 +24,10 @@ fn main() -> Result<(), Box<dyn Error>> {
     loop {
         print!(">> ");
         io::stdout().lock().flush()?;
-        io::stdin().read_line(&mut input)?;
+        if io::stdin().read_line(&mut input)? == 0 {
+            // end of the input
+            break;
+        }
         match &input {
             line if line.trim() == "exit" => break,
             line => match parser.parse(line) {
-- 
2.43.0


From da88f1265e5d94c2426286d113a97b40387accb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 14/14] fix: `invert` was displayed as `recip`, which a context
 may define otherwise

---
 src/token/identifier.rs         | 3 ++-
 src/utils/built_in_functions.rs | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/token/identifier.rs b/src/token/identifier.rs
index 33a5678..69ce202 100644
--- a/src/token/identifier.rs
+++ b/src/token/identifier.rs
@@ -55,7 +55,8 @@ impl<'a> Identifier<'a> {
             "trunc" => built_in_functions::TRUNC.into(),
             "sum" => built_in_functions::SUM.into(),
             "mean" => built_in_functions::MEAN.into(),
-            "invert" | "recip" => built_in_functions::RECIP.into(),
+            "invert" => built_in_functions::INVERT.into(),
+            "recip" => built_in_functions::RECIP.into(),
             "min" => built_in_functions::MIN.into(),
             "max" => built_in_functions::MAX.into(),
             "hypot" => built_in_functions::HYPOT.into(),
diff --git a/src/utils/built_in_functions.rs b/src/utils/built_in_functions.rs
index 95bc026..ca6c038 100644
--- a/src/utils/built_in_functions.rs
+++ b/src/utils/built_in_functions.rs
@@ -86,6 +86,9 @@ pub const MEAN: Function = xprs_fn!("mean", |args| {
 /// Reciprocal builtin function.
 pub const RECIP: Function = xprs_fn!("recip", f64::recip, 1);
 
+/// Alias of [`RECIP`], displayed under the name it was called by.
+pub const INVERT: Function = xprs_fn!("invert", f64::recip, 1);
+
 /// Minimum value in a list of numbers.
 pub const MIN: Function = xprs_fn!("min", |args| {
     args.iter().fold(f64::INFINITY, |acc, &x| acc.min(x))
-- 
2.43.0

