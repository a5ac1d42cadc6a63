From 012084a9a3d8940ec9560b2b84b2cb7c1db7a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 01/31] fix: apply prefix operators to the group or function
 call they precede

-(2)-3 evaluated to 1 and - - 2 + 3 to -1: only one pending prefix operator
was applied to a number, and none to a group or a function call.
---
 prexel/src/evaluator.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 8c82f77..f85391e 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -487,10 +487,21 @@ mod shunting_yard {
         token: &Token<N>,
     ) {
         output.push(token.clone());
-        if let Some(Token::UnaryOperator(op)) = operators.last() {
-            if context.get_unary_function(op).is_some() {
-                output.push(operators.pop().unwrap());
+        push_prefix_operators(context, output, operators);
+    }
+
+    /// Moves to the output the prefix operators that are waiting for the operand just completed.
+    fn push_prefix_operators<'a, N: Clone + Debug>(
+        context: &impl Context<'a, N>,
+        output: &mut Vec<Token<N>>,
+        operators: &mut Vec<Token<N>>,
+    ) {
+        while let Some(Token::UnaryOperator(op)) = operators.last() {
+            if context.get_unary_function(op).is_none() {
+                break;
             }
+
+            output.push(operators.pop().unwrap());
         }
     }
 
@@ -607,6 +618,9 @@ mod shunting_yard {
                                     output.push(operators.pop().unwrap());
                                 }
                             }
+
+                            // -(2), -Max(1, 2)
+                            push_prefix_operators(context, output, operators);
                         }
                     }
 
-- 
2.43.0


From 139d28eaba7b5e3d4e06b9396eed3d0c90968628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 02/31] fix: call functions written without arguments with no
 arguments

2 + Random() failed, because an empty argument list was counted as 1 argument
and took the left operand of the addition.
---
 prexel/src/evaluator.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index f85391e..a02202c 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -236,10 +236,10 @@ where
                     match values.pop() {
                         Some(n) => args.push(n.clone()),
                         None => {
-                            Error::new(
+                            return Err(Error::new(
                                 ErrorKind::InvalidArgumentCount,
                                 format!("expected {} arguments but {} was get", n, args.len()),
-                            );
+                            ));
                         }
                     }
                 }
@@ -365,7 +365,15 @@ mod shunting_yard {
                     }
                 }
                 Token::GroupingClose(c) => {
-                    push_grouping_close(context, *c, &mut output, &mut operators, &mut arg_count)?;
+                    let is_empty = pos > 0 && tokens[pos - 1].is_grouping_open();
+                    push_grouping_close(
+                        context,
+                        *c,
+                        is_empty,
+                        &mut output,
+                        &mut operators,
+                        &mut arg_count,
+                    )?;
 
                     // Checking for empty grouping symbols: eg: `Random(())`, `()+2`
                     if pos > 1 {
@@ -594,6 +602,7 @@ mod shunting_yard {
     fn push_grouping_close<'a, N: Clone + Debug>(
         context: &impl Context<'a, N>,
         group_close: char,
+        is_empty: bool,
         output: &mut Vec<Token<N>>,
         operators: &mut Vec<Token<N>>,
         arg_count: &mut Vec<usize>,
@@ -613,7 +622,9 @@ mod shunting_yard {
                             // So we pop the argument count and function token into the output stack.
                             if !arg_count.is_empty() {
                                 if let Some(Token::Function(_)) = operators.last() {
-                                    let count = arg_count.pop().unwrap() + 1;
+                                    // Each comma adds 1 argument, `Random()` have 0 arguments
+                                    let commas = arg_count.pop().unwrap();
+                                    let count = if is_empty { 0 } else { commas + 1 };
                                     output.push(Token::ArgCount(count));
                                     output.push(operators.pop().unwrap());
                                 }
-- 
2.43.0


From 8f2db8efb26b834101750cedac715ca8c96a68b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 03/31] fix: reject expressions with misplaced operands,
 operators or groups

(2 3 +), ()5 and Max(2 3, 4 +) were evaluated: nothing checked that operands and
operators alternate. Unclosed groups are now rejected by infix_to_rpn itself.
---
 prexel/src/evaluator.rs | 69 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 67 insertions(+), 2 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index a02202c..1b1bb3f 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -324,8 +324,13 @@ mod shunting_yard {
         let mut arg_count: Vec<usize> = Vec::new();
         let mut grouping_count: Vec<usize> = Vec::new();
 
+        // Whether the next token must start an operand
+        let mut expect_operand = true;
+
         let mut token_iterator = tokens.iter().enumerate().peekable();
         while let Some((pos, token)) = token_iterator.next() {
+            expect_operand = check_position(context, tokens, pos, expect_operand)?;
+
             match token {
                 Token::Number(_) | Token::Variable(_) | Token::Constant(_) => {
                     push_number(context, &mut output, &mut operators, token)
@@ -424,6 +429,7 @@ mod shunting_yard {
                             | Token::Variable(_)
                             | Token::GroupingOpen(_) => {
                                 operators.push(BinaryOperator('*'.to_string()));
+                                expect_operand = true;
                             }
                             _ => {}
                         }
@@ -433,7 +439,10 @@ mod shunting_yard {
                     if let Some(next_token) = token_iterator.peek() {
                         match next_token.1 {
                             Number(_) | Variable(_) | Constant(_) | Function(_)
-                            | GroupingOpen(_) => operators.push(BinaryOperator('*'.to_string())),
+                            | GroupingOpen(_) => {
+                                operators.push(BinaryOperator('*'.to_string()));
+                                expect_operand = true;
+                            }
                             _ => {}
                         }
                     }
@@ -442,7 +451,7 @@ mod shunting_yard {
         }
 
         while let Some(t) = operators.pop() {
-            if t.is_grouping_close() || t.is_grouping_close() {
+            if t.is_grouping_open() || t.is_grouping_close() {
                 return Err(Error::new(
                     ErrorKind::InvalidExpression,
                     "Misplace parentheses",
@@ -452,9 +461,65 @@ mod shunting_yard {
             output.push(t)
         }
 
+        if expect_operand && !tokens.is_empty() {
+            return Err(Error::new(
+                ErrorKind::InvalidExpression,
+                "Expected an operand at the end of the expression",
+            ));
+        }
+
         Ok(output)
     }
 
+    /// Checks that the token at the given position starts an operand only if one is expected,
+    /// eg: `(2 3 +)`, `Max(2 3, 4 +)` and `()5` are invalid.
+    ///
+    /// Returns `true` if the token that follows must start an operand.
+    fn check_position<'a, N>(
+        context: &impl Context<'a, N>,
+        tokens: &[Token<N>],
+        pos: usize,
+        expect_operand: bool,
+    ) -> Result<bool> {
+        let (starts_operand, expect_next) = match &tokens[pos] {
+            Number(_) | Variable(_) | Constant(_) => (true, false),
+            GroupingOpen(_) => (true, true),
+            Function(_) => {
+                // A function must be followed by its arguments
+                if !tokens.get(pos + 1).map_or(false, |t| t.is_grouping_open()) {
+                    return Err(Error::new(
+                        ErrorKind::InvalidInput,
+                        "Function call without arguments",
+                    ));
+                }
+                (true, true)
+            }
+            UnaryOperator(name) => match context.get_unary_function(name) {
+                Some(op) if op.notation() == Notation::Postfix => (false, false),
+                _ => (true, true),
+            },
+            GroupingClose(_) => {
+                // Only the arguments of a function can be empty
+                let is_empty_call = pos > 1
+                    && tokens[pos - 1].is_grouping_open()
+                    && tokens[pos - 2].is_function();
+                (is_empty_call, false)
+            }
+            BinaryOperator(_) | Comma => (false, true),
+            // Rejected by the caller
+            ArgCount(_) | Unknown(_) => return Ok(expect_operand),
+        };
+
+        if starts_operand == expect_operand {
+            Ok(expect_next)
+        } else {
+            Err(Error::new(
+                ErrorKind::InvalidExpression,
+                "Misplaced operand or operator",
+            ))
+        }
+    }
+
     fn check_comma_position<N>(
         tokens: &[Token<N>],
         grouping_count: &[usize],
-- 
2.43.0


From d5b2c2684db33457d242f3b09271a7b56e695ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 04/31] fix: give implicit multiplications the precedence of
 explicit ones

2^(3)4 evaluated as 2^(3*4) and 6/2(3) as 6/(2*3), because the implied operator
was pushed without comparing its precedence with the pending operators.
---
 prexel/src/evaluator.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 1b1bb3f..3a9dc67 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -428,7 +428,7 @@ mod shunting_yard {
                             | Token::Constant(_)
                             | Token::Variable(_)
                             | Token::GroupingOpen(_) => {
-                                operators.push(BinaryOperator('*'.to_string()));
+                                push_implicit_mul(context, &mut output, &mut operators)?;
                                 expect_operand = true;
                             }
                             _ => {}
@@ -440,7 +440,7 @@ mod shunting_yard {
                         match next_token.1 {
                             Number(_) | Variable(_) | Constant(_) | Function(_)
                             | GroupingOpen(_) => {
-                                operators.push(BinaryOperator('*'.to_string()));
+                                push_implicit_mul(context, &mut output, &mut operators)?;
                                 expect_operand = true;
                             }
                             _ => {}
@@ -664,6 +664,16 @@ mod shunting_yard {
         Ok(())
     }
 
+    /// Pushes the `*` of an implicit multiplication, with the precedence of an explicit one.
+    fn push_implicit_mul<'a, N: Clone + Debug>(
+        context: &impl Context<'a, N>,
+        output: &mut Vec<Token<N>>,
+        operators: &mut Vec<Token<N>>,
+    ) -> Result<()> {
+        let token = BinaryOperator('*'.to_string());
+        push_binary_function(context, output, operators, &token, "*")
+    }
+
     fn push_grouping_close<'a, N: Clone + Debug>(
         context: &impl Context<'a, N>,
         group_close: char,
-- 
2.43.0


From f39a00b5dbfad9007c6d56641d6708b5f2649bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 05/31] fix: do not drop the second decimal point of a numeral

1.2. was evaluated as 1.2: the splitter consumed the second point and lost it.
---
 prexel/src/utils/splitter.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/prexel/src/utils/splitter.rs b/prexel/src/utils/splitter.rs
index 6ef73e2..3b08c9d 100644
--- a/prexel/src/utils/splitter.rs
+++ b/prexel/src/utils/splitter.rs
@@ -235,12 +235,10 @@ pub mod rules {
 
                     let mut has_decimal_point = false;
 
-                    while let Some(c) = rest.next_if(is_valid_char) {
+                    while let Some(c) =
+                        rest.next_if(|c| is_valid_char(c) && !(has_decimal_point && *c == '.'))
+                    {
                         if c == '.' {
-                            if has_decimal_point {
-                                break;
-                            }
-
                             has_decimal_point = true;
                         }
 
-- 
2.43.0


From 448848ba7bf6d8579b65365d8b583029eb6c955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 06/31] fix: separate the comma from the operator that follows
 it

Max(1,-2) failed because ',-' was taken as one unknown operator.
---
 prexel/src/utils/splitter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prexel/src/utils/splitter.rs b/prexel/src/utils/splitter.rs
index 3b08c9d..073a43a 100644
--- a/prexel/src/utils/splitter.rs
+++ b/prexel/src/utils/splitter.rs
@@ -282,11 +282,12 @@ pub mod rules {
                         | '>'
                         | '/'
                         | '='
-                        | ','
                 )
             }
 
             match c {
+                // An argument separator is never part of an operator: Max(1,-2)
+                ',' => Outcome::Data(c.to_string()),
                 _ if is_valid_char(&c) => {
                     let mut temp = String::new();
                     temp.push(c);
-- 
2.43.0


From 6c09f38ee07d085692c8b999fae5822e41253994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 07/31] fix: classify a prefix operator by the whole token
 before it
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The first byte of the previous token was looked up instead of the token, which
panicked on a multi-byte character (π-1), and made a prefix operator after
another prefix-only operator or a non-ASCII operator a binary one.
---
 prexel/src/tokenizer.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index dca715d..816f5bb 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -231,14 +231,17 @@ where
                     return false;
                 }
 
+                // 10 + -2, 10 mod -2
+                if context.is_binary_function(prev_str) {
+                    return true;
+                }
+
                 // 10! - 2
-                if context.is_unary_function(&prev_str[..1])
-                    && !context.is_binary_function(&prev_str[..1])
-                {
-                    return false;
+                if let Some(prev_op) = context.get_unary_function(prev_str) {
+                    return prev_op.notation() != Notation::Postfix;
                 }
 
-                // +-, (-, !+
+                // (-, @-
                 if prev_str.chars().count() == 1 {
                     let c = prev_str.chars().last().unwrap();
                     c.is_ascii_punctuation()
-- 
2.43.0


From 4c1c3b9ec143f7ab8973535fb9d3de70849744ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 08/31] fix: recognise a postfix operator after another postfix
 operator

10! ! was an error: only a number, a name or a group could precede one.
---
 prexel/src/tokenizer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index 816f5bb..fe5469c 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -204,6 +204,11 @@ where
                         }
                     }
 
+                    // 10! !
+                    if let Some(prev_op) = context.get_unary_function(s) {
+                        return prev_op.notation() == Notation::Postfix;
+                    }
+
                     // 10! , PI!, x!
                     N::from_str(s).is_ok() || context.is_constant(s) || context.is_variable(s)
                 }
-- 
2.43.0


From 23bfcd954daf335ed3fa5d61b3a56b6ec4f3243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 09/31] fix: hash case-insensitive names consistently with
 their equality
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Names that differ only in the case of a non-ASCII letter are equal but had
different hashes, so a function named Σ was not found as σ.
---
 prexel/src/utils/ignore_case_str.rs    | 5 +++--
 prexel/src/utils/ignore_case_string.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/prexel/src/utils/ignore_case_str.rs b/prexel/src/utils/ignore_case_str.rs
index 2a89f6d..8a5cb75 100644
--- a/prexel/src/utils/ignore_case_str.rs
+++ b/prexel/src/utils/ignore_case_str.rs
@@ -84,8 +84,9 @@ impl<'a> PartialOrd for IgnoreCaseStr<'a> {
 
 impl<'a> Hash for IgnoreCaseStr<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for c in self.0.as_bytes() {
-            c.to_ascii_lowercase().hash(state);
+        // Must agree with `Eq`, which compares the lowercase of each `char`
+        for c in self.0.chars().flat_map(char::to_lowercase) {
+            c.hash(state);
         }
     }
 }
diff --git a/prexel/src/utils/ignore_case_string.rs b/prexel/src/utils/ignore_case_string.rs
index e6246cc..0e3822f 100644
--- a/prexel/src/utils/ignore_case_string.rs
+++ b/prexel/src/utils/ignore_case_string.rs
@@ -92,8 +92,9 @@ impl PartialOrd for IgnoreCaseString {
 impl Hash for IgnoreCaseString {
     #[inline]
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for c in self.0.bytes() {
-            c.to_ascii_lowercase().hash(state);
+        // Must agree with `Eq`, which compares the lowercase of each `char`
+        for c in self.0.chars().flat_map(char::to_lowercase) {
+            c.hash(state);
         }
     }
 }
-- 
2.43.0


From 5ed4c55b039a7ca5c101a713787c51a8823608f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 10/31] fix: report the overflow of a factorial instead of
 panicking or looping

---
 prexel/src/ops/checked.rs |  26 +++++++++-
 prexel/src/ops/mod.rs     | 102 +++++++++++++++++++++++---------------
 2 files changed, 87 insertions(+), 41 deletions(-)

diff --git a/prexel/src/ops/checked.rs b/prexel/src/ops/checked.rs
index 6f6675c..7ee2bac 100644
--- a/prexel/src/ops/checked.rs
+++ b/prexel/src/ops/checked.rs
@@ -1,9 +1,10 @@
-use num_traits::{FromPrimitive, Zero};
+use num_traits::{FromPrimitive, One, ToPrimitive, Zero};
 use crate::error::*;
 use crate::function::{
     Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction,
 };
 use crate::num::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedSub};
+use crate::ops::factorial_with;
 use crate::Result;
 
 #[cfg(feature = "docs")]
@@ -162,6 +163,29 @@ impl<N: CheckedNeg> UnaryFunction<N> for UnaryMinus {
     }
 }
 
+pub struct Factorial;
+impl<N> UnaryFunction<N> for Factorial
+where
+    N: CheckedMul + CheckedSub + Clone + Zero + One + PartialOrd + ToPrimitive + FromPrimitive,
+{
+    fn name(&self) -> &str {
+        "!"
+    }
+
+    fn notation(&self) -> Notation {
+        Notation::Postfix
+    }
+
+    fn call(&self, value: N) -> Result<N> {
+        factorial_with(value, |x, y| x.checked_mul(y))
+    }
+
+    #[cfg(feature="docs")]
+    fn description(&self) -> Option<&str> {
+        Some(Description::Factorial.into())
+    }
+}
+
 pub struct AbsFunction;
 impl<N: Zero + PartialOrd + CheckedNeg + Clone> Function<N> for AbsFunction {
     fn name(&self) -> &str {
diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 52da326..314a5cf 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -292,6 +292,66 @@ pub(crate) fn try_to_float<N: num_traits::ToPrimitive>(n: &N) -> crate::Result<f
     }
 }
 
+/// Computes the factorial of `value` using `mul` to multiply, which returns `None` on overflow.
+pub(crate) fn factorial_with<N, F>(value: N, mul: F) -> crate::Result<N>
+where
+    N: Clone
+        + num_traits::Zero
+        + num_traits::One
+        + std::ops::Sub<N, Output = N>
+        + PartialOrd
+        + num_traits::ToPrimitive
+        + num_traits::FromPrimitive,
+    F: Fn(&N, &N) -> Option<N>,
+{
+    use crate::utils::gamma::gamma;
+
+    if value < N::zero() {
+        return Err(Error::from(ErrorKind::NegativeValue));
+    }
+
+    // 0! = 1 and 1! = 1
+    if value.is_zero() || value.is_one() {
+        return Ok(N::one());
+    }
+
+    // Quick path for: `x < 1`
+    if value < N::one() {
+        return if let Some(n) = value.to_f64() {
+            let result = gamma(n + 1f64);
+            N::from_f64(result).ok_or_else(|| Error::from(ErrorKind::Overflow))
+        } else {
+            Err(Error::from(ErrorKind::Overflow))
+        };
+    }
+
+    let mut total = value;
+    let mut next = total.clone() - N::one();
+
+    while next >= N::one() {
+        total = mul(&total, &next).ok_or_else(|| Error::from(ErrorKind::Overflow))?;
+
+        // Floats overflow to infinity
+        if total.to_f64().map_or(false, f64::is_infinite) {
+            return Err(Error::from(ErrorKind::Overflow));
+        }
+
+        next = next.clone() - N::one();
+    }
+
+    // If next value is non-zero, apply `Gamma function`.
+    if !next.is_zero() {
+        if let (Some(mut total_f64), Some(n)) = (total.to_f64(), next.to_f64()) {
+            total_f64 *= gamma(n + 1f64);
+            N::from_f64(total_f64).ok_or_else(|| Error::from(ErrorKind::Overflow))
+        } else {
+            Err(Error::from(ErrorKind::Overflow))
+        }
+    } else {
+        Ok(total)
+    }
+}
+
 /// For reduce errors as: `0.1 + 0.2 ≠ 0.3`.
 impl crate::utils::approx::Approx for f64{
     #[inline]
@@ -326,8 +386,7 @@ mod math_ops {
     use crate::error::*;
     pub use crate::function::{BinaryFunction, Function, UnaryFunction};
     use crate::function::{Associativity, Notation, Precedence};
-    use crate::ops::try_to_float;
-    use crate::utils::gamma::gamma;
+    use crate::ops::{factorial_with, try_to_float};
     use crate::Result;
     use crate::utils::approx::Approx;
 
@@ -376,44 +435,7 @@ mod math_ops {
         }
 
         fn call(&self, value: N) -> Result<N> {
-            if value < N::zero() {
-                return Err(Error::from(ErrorKind::NegativeValue));
-            }
-
-            // 0! = 1 and 1! = 1
-            if value.is_zero() || value.is_one() {
-                return Ok(N::one());
-            }
-
-            // Quick path for: `x < 1`
-            if value < N::one() {
-                return if let Some(n) = value.to_f64() {
-                    let result = gamma(n + 1f64);
-                    N::from_f64(result).ok_or_else(|| Error::from(ErrorKind::Overflow))
-                } else {
-                    Err(Error::from(ErrorKind::Overflow))
-                };
-            }
-
-            let mut total = value;
-            let mut next = total.clone() - N::one();
-
-            while next >= N::one() {
-                total = total.clone() * next.clone();
-                next = next.clone() - N::one();
-            }
-
-            // If next value is non-zero, apply `Gamma function`.
-            if !next.is_zero() {
-                if let (Some(mut total_f64), Some(n)) = (total.to_f64(), next.to_f64()) {
-                    total_f64 *= gamma(n + 1f64);
-                    N::from_f64(total_f64).ok_or_else(|| Error::from(ErrorKind::Overflow))
-                } else {
-                    Err(Error::from(ErrorKind::Overflow))
-                }
-            } else {
-                Ok(total)
-            }
+            factorial_with(value, |x, y| Some(x.clone() * y.clone()))
         }
 
         #[cfg(feature = "docs")]
-- 
2.43.0


From a1bbef9ed50ddcd2fd80833bab6f932eaa34da4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:38 +0000
Subject: [PATCH 11/31] fix: report an average of more values than the type can
 count as an overflow

---
 prexel/src/ops/checked.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/checked.rs b/prexel/src/ops/checked.rs
index 7ee2bac..f8d6a64 100644
--- a/prexel/src/ops/checked.rs
+++ b/prexel/src/ops/checked.rs
@@ -287,8 +287,8 @@ impl<N: CheckedAdd + CheckedDiv + FromPrimitive + Clone> Function<N> for AvgFunc
 
         match sum {
             Some(n) => {
-                let result = n
-                    .checked_div(&N::from_usize(args.len()).unwrap())
+                let result = N::from_usize(args.len())
+                    .and_then(|count| n.checked_div(&count))
                     .ok_or_else(|| Error::from(ErrorKind::Overflow))?;
 
                 Ok(result)
-- 
2.43.0


From 1372ff02feaaac9de10df5428f41e5f413722f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:09 +0000
Subject: [PATCH 12/31] fix: report a result that is not a finite number as an
 error in all the functions

---
 prexel/src/ops/mod.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 314a5cf..b9230f3 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -26,8 +26,7 @@ macro_rules! forward_func_impl {
                             .map(|n| n.approx())?
                             .$method_name();
 
-                        N::from_f64(result)
-                            .ok_or_else(|| Error::from(ErrorKind::Overflow))
+                        from_float(result)
                     }
                 }
             }
@@ -55,8 +54,7 @@ macro_rules! forward_func_inv_impl {
                             .$method_name()
                             .inv();
 
-                        N::from_f64(result)
-                            .ok_or(Error::from(ErrorKind::Overflow))
+                        from_float(result)
                     }
                 }
             }
@@ -83,8 +81,7 @@ macro_rules! forward_func_impl {
                             .map(|n| n.approx())?
                             .$method_name();
 
-                        N::from_f64(result)
-                            .ok_or_else(|| Error::from(ErrorKind::Overflow))
+                        from_float(result)
                     }
                 }
 
@@ -116,8 +113,7 @@ macro_rules! forward_func_inv_impl {
                             .$method_name()
                             .inv();
 
-                        N::from_f64(result)
-                            .ok_or(Error::from(ErrorKind::Overflow))
+                        from_float(result)
                     }
                 }
 
@@ -292,6 +288,16 @@ pub(crate) fn try_to_float<N: num_traits::ToPrimitive>(n: &N) -> crate::Result<f
     }
 }
 
+/// Converts the result of a floating point computation, which is an error if is not a finite number.
+#[inline(always)]
+pub(crate) fn from_float<N: num_traits::FromPrimitive>(n: f64) -> crate::Result<N> {
+    if n.is_nan() || n.is_infinite() {
+        Err(Error::from(ErrorKind::NAN))
+    } else {
+        N::from_f64(n).ok_or_else(|| Error::from(ErrorKind::Overflow))
+    }
+}
+
 /// Computes the factorial of `value` using `mul` to multiply, which returns `None` on overflow.
 pub(crate) fn factorial_with<N, F>(value: N, mul: F) -> crate::Result<N>
 where
@@ -319,7 +325,7 @@ where
     if value < N::one() {
         return if let Some(n) = value.to_f64() {
             let result = gamma(n + 1f64);
-            N::from_f64(result).ok_or_else(|| Error::from(ErrorKind::Overflow))
+            from_float(result)
         } else {
             Err(Error::from(ErrorKind::Overflow))
         };
@@ -343,7 +349,7 @@ where
     if !next.is_zero() {
         if let (Some(mut total_f64), Some(n)) = (total.to_f64(), next.to_f64()) {
             total_f64 *= gamma(n + 1f64);
-            N::from_f64(total_f64).ok_or_else(|| Error::from(ErrorKind::Overflow))
+            from_float(total_f64)
         } else {
             Err(Error::from(ErrorKind::Overflow))
         }
@@ -386,7 +392,7 @@ mod math_ops {
     use crate::error::*;
     pub use crate::function::{BinaryFunction, Function, UnaryFunction};
     use crate::function::{Associativity, Notation, Precedence};
-    use crate::ops::{factorial_with, try_to_float};
+    use crate::ops::{factorial_with, from_float, try_to_float};
     use crate::Result;
     use crate::utils::approx::Approx;
 
@@ -460,7 +466,7 @@ mod math_ops {
 
         fn call(&self, left: N, right: N) -> Result<N> {
             if let (Some(base), Some(exp)) = (left.to_f64(), right.to_f64()) {
-                N::from_f64(f64::powf(base, exp)).ok_or_else(|| Error::from(ErrorKind::Overflow))
+                from_float(f64::powf(base, exp))
             } else {
                 Err(Error::from(ErrorKind::Overflow))
             }
@@ -699,7 +705,7 @@ mod trig_ops {
     use num_traits::{FromPrimitive, Inv, ToPrimitive, Zero};
     use crate::error::*;
     pub use crate::function::{BinaryFunction, Function, UnaryFunction};
-    use crate::ops::try_to_float;
+    use crate::ops::{from_float, try_to_float};
     use crate::Result;
     use crate::utils::approx::Approx;
 
-- 
2.43.0


From 6a7e6d682ab7c69ab02cd8d842b90904268b4d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:25 +0000
Subject: [PATCH 13/31] fix: raise integers exactly in checked contexts

---
 prexel/src/ops/checked.rs | 56 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/prexel/src/ops/checked.rs b/prexel/src/ops/checked.rs
index f8d6a64..69a4547 100644
--- a/prexel/src/ops/checked.rs
+++ b/prexel/src/ops/checked.rs
@@ -4,12 +4,31 @@ use crate::function::{
     Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction,
 };
 use crate::num::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedSub};
-use crate::ops::factorial_with;
+use crate::ops::{factorial_with, math};
 use crate::Result;
 
 #[cfg(feature = "docs")]
 use crate::descriptions::Description;
 
+/// Raises `base` to `exp` by squaring, returns `None` on overflow.
+fn checked_pow<N: CheckedMul + Clone + One>(mut base: N, mut exp: u64) -> Option<N> {
+    let mut result = N::one();
+
+    while exp > 0 {
+        if exp % 2 == 1 {
+            result = result.checked_mul(&base)?;
+        }
+
+        exp /= 2;
+
+        if exp > 0 {
+            base = base.checked_mul(&base)?;
+        }
+    }
+
+    Some(result)
+}
+
 pub struct AddOperator;
 impl<N: CheckedAdd> BinaryFunction<N> for AddOperator {
     fn name(&self) -> &str {
@@ -114,6 +133,41 @@ impl<N: CheckedDiv + Zero> BinaryFunction<N> for DivOperator {
     }
 }
 
+pub struct PowOperator;
+impl<N> BinaryFunction<N> for PowOperator
+where
+    N: CheckedMul + Clone + Zero + One + PartialEq + ToPrimitive + FromPrimitive,
+{
+    fn name(&self) -> &str {
+        "^"
+    }
+
+    fn precedence(&self) -> Precedence {
+        Precedence::HIGH
+    }
+
+    fn associativity(&self) -> Associativity {
+        Associativity::Right
+    }
+
+    fn call(&self, left: N, right: N) -> Result<N> {
+        // Integers are raised exactly, `f64` would lose digits of the result
+        let is_integer = N::from_f64(0.5).map_or(true, |n| n.is_zero());
+
+        match right.to_u64() {
+            Some(exp) if is_integer => {
+                checked_pow(left, exp).ok_or_else(|| Error::from(ErrorKind::Overflow))
+            }
+            _ => math::PowOperator.call(left, right),
+        }
+    }
+
+    #[cfg(feature="docs")]
+    fn description(&self) -> Option<&str> {
+        Some(Description::Pow.into())
+    }
+}
+
 pub struct ModOperator;
 impl<N: CheckedRem + Zero> BinaryFunction<N> for ModOperator {
     fn name(&self) -> &str {
-- 
2.43.0


From 630badb9a76b24f6c0960af10a1af58c8bfd3e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:25 +0000
Subject: [PATCH 14/31] fix: subtract in the subtraction of wrapped numbers

---
 prexel/src/numeric_traits/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/numeric_traits/mod.rs b/prexel/src/numeric_traits/mod.rs
index 2542ae8..08858a4 100644
--- a/prexel/src/numeric_traits/mod.rs
+++ b/prexel/src/numeric_traits/mod.rs
@@ -22,7 +22,7 @@ macro_rules! impl_unchecked_num_traits_with_field {
             fn sub(self, other: Self) -> Self {
                 let x = self.$field;
                 let y = other.$field;
-                Self::from(x + y)
+                Self::from(x - y)
             }
         }
 
-- 
2.43.0


From b0f647e52eb1a069cda9fc0fe0b4d56bfe2e4c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 15/31] fix: name the truncate and sign functions alike with
 and without docs

---
 prexel/src/ops/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index b9230f3..1f02564 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -563,7 +563,7 @@ mod math_ops {
     forward_func_impl!(TruncateFunction, trunc, truncate);
 
     #[cfg(feature = "docs")]
-    forward_func_impl!(TruncateFunction, trunc, Description::Truncate);
+    forward_func_impl!(TruncateFunction, trunc, truncate, Description::Truncate);
 
     pub struct RoundFunction;
     #[cfg(not(feature = "docs"))]
@@ -577,7 +577,7 @@ mod math_ops {
     forward_func_impl!(SignFunction, signum, sign);
 
     #[cfg(feature = "docs")]
-    forward_func_impl!(SignFunction, signum, Description::Sign);
+    forward_func_impl!(SignFunction, signum, sign, Description::Sign);
 
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
-- 
2.43.0


From 985a2a003866709fcd6ed8b954bba7470d27dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 16/31] fix: the sign of zero is zero

---
 prexel/src/ops/mod.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 1f02564..a60a537 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -572,12 +572,27 @@ mod math_ops {
     #[cfg(feature = "docs")]
     forward_func_impl!(RoundFunction, round, Description::Round);
 
+    trait Sign {
+        fn sign(self) -> Self;
+    }
+
+    impl Sign for f64 {
+        /// Unlike `signum`, the sign of zero is zero.
+        fn sign(self) -> f64 {
+            if self.is_zero() {
+                0.0
+            } else {
+                self.signum()
+            }
+        }
+    }
+
     pub struct SignFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_impl!(SignFunction, signum, sign);
+    forward_func_impl!(SignFunction, sign);
 
     #[cfg(feature = "docs")]
-    forward_func_impl!(SignFunction, signum, sign, Description::Sign);
+    forward_func_impl!(SignFunction, sign, Description::Sign);
 
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
-- 
2.43.0


From 565198edf1ebaeb0b278558860694ea553a80aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 17/31] fix: keep random numbers within bounds whose difference
 overflows

---
 prexel/src/ops/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index a60a537..a68ec93 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -688,7 +688,9 @@ mod math_ops {
                         )
                     }
 
-                    let value = min + ((max - min) * random::<f64>());
+                    // The difference of the bounds may overflow, and rounding may exceed them
+                    let t = random::<f64>();
+                    let value = (min * (1.0 - t) + max * t).max(min).min(max);
                     N::from_f64(value).ok_or_else(|| Error::from(ErrorKind::Overflow))
                 }
                 _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
-- 
2.43.0


From 3010b06f527bd5352ba909dfc22e675f05710934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:09 +0000
Subject: [PATCH 18/31] fix: report an alias that is already taken as an error
 instead of panicking halfway

---
 prexel/src/context.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/prexel/src/context.rs b/prexel/src/context.rs
index 4147e26..33539d6 100644
--- a/prexel/src/context.rs
+++ b/prexel/src/context.rs
@@ -189,9 +189,11 @@ impl<'a, N> DefaultContext<'a, N> {
             if let Some(aliases) = func.aliases() {
                 for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     if self.functions.contains_key(&alias) {
-                        panic!("A function named '{}' already exists", alias);
+                        return Err(Error::new(ErrorKind::Unknown, format!("A function named '{}' already exists", alias)));
                     }
+                }
 
+                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     self.functions.insert(alias, func.clone());
                 }
             }
@@ -218,9 +220,11 @@ impl<'a, N> DefaultContext<'a, N> {
             if let Some(aliases) = func.aliases() {
                 for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     if self.unary_functions.contains_key(&alias) {
-                        panic!("An unary function named '{}' already exists", alias);
+                        return Err(Error::new(ErrorKind::Unknown, format!("An unary function named '{}' already exists", alias)));
                     }
+                }
 
+                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     self.unary_functions.insert(alias, func.clone());
                 }
             }
@@ -258,9 +262,11 @@ impl<'a, N> DefaultContext<'a, N> {
             if let Some(aliases) = func.aliases() {
                 for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     if self.binary_functions.contains_key(&alias) {
-                        panic!("A binary function named '{}' already exists", alias);
+                        return Err(Error::new(ErrorKind::Unknown, format!("A binary function named '{}' already exists", alias)));
                     }
+                }
 
+                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     self.binary_functions.insert(alias, func.clone());
                 }
             }
-- 
2.43.0


From 59127eae1bb505dd8004879edbfc153e101bb90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:59 +0000
Subject: [PATCH 19/31] fix: report a shift by more bits than there are as an
 overflow instead of panicking

---
 prexel/src/binary/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/prexel/src/binary/mod.rs b/prexel/src/binary/mod.rs
index ddecd6a..ba83ee3 100644
--- a/prexel/src/binary/mod.rs
+++ b/prexel/src/binary/mod.rs
@@ -102,6 +102,8 @@ pub fn binary_number_splitter<'a>() -> DefaultSplitter<'a> {
 
 pub mod math {
     use crate::binary::Binary;
+    use crate::error::{Error, ErrorKind};
+    use std::convert::TryFrom;
     use crate::function::{Associativity, BinaryFunction, Notation, Precedence, UnaryFunction};
 
     pub struct NotFunction;
@@ -395,7 +397,11 @@ pub mod math {
         }
 
         fn call(&self, left: Binary, right: Binary) -> crate::Result<Binary> {
-            Ok(Binary(left.0 >> right.0))
+            u32::try_from(right.0)
+                .ok()
+                .and_then(|n| left.0.checked_shr(n))
+                .map(Binary)
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
         fn description(&self) -> Option<&str> {
@@ -422,7 +428,11 @@ pub mod math {
         }
 
         fn call(&self, left: Binary, right: Binary) -> crate::Result<Binary> {
-            Ok(Binary(left.0 << right.0))
+            u32::try_from(right.0)
+                .ok()
+                .and_then(|n| left.0.checked_shl(n))
+                .map(Binary)
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
         fn description(&self) -> Option<&str> {
-- 
2.43.0


From ba3a0ecbfd63367e66a40c840a811325b456cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:17 +0000
Subject: [PATCH 20/31] fix: let the operators of the binary context bind as
 their C counterparts do

---
 prexel/src/binary/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/prexel/src/binary/mod.rs b/prexel/src/binary/mod.rs
index ba83ee3..1b17887 100644
--- a/prexel/src/binary/mod.rs
+++ b/prexel/src/binary/mod.rs
@@ -140,7 +140,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(11)
+            Precedence(9)
         }
 
         fn associativity(&self) -> Associativity {
@@ -167,7 +167,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(13)
+            Precedence(7)
         }
 
         fn associativity(&self) -> Associativity {
@@ -194,7 +194,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(12)
+            Precedence(8)
         }
 
         fn associativity(&self) -> Associativity {
@@ -277,7 +277,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(9)
+            Precedence(11)
         }
 
         fn associativity(&self) -> Associativity {
@@ -305,7 +305,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(9)
+            Precedence(11)
         }
 
         fn associativity(&self) -> Associativity {
@@ -333,7 +333,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(9)
+            Precedence(11)
         }
 
         fn associativity(&self) -> Associativity {
@@ -361,7 +361,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(9)
+            Precedence(11)
         }
 
         fn associativity(&self) -> Associativity {
@@ -389,7 +389,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(7)
+            Precedence(13)
         }
 
         fn associativity(&self) -> Associativity {
@@ -420,7 +420,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(7)
+            Precedence(13)
         }
 
         fn associativity(&self) -> Associativity {
-- 
2.43.0


From 21009444c28bcde6dc3cbde170672731929c3c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:39 +0000
Subject: [PATCH 21/31] fix: report the overflow of decimal aggregates as an
 error instead of panicking

---
 prexel/src/decimal/mod.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index be3abc7..2cec53f 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -538,8 +538,8 @@ mod math_ops {
             for cur in args {
                 match result {
                     None => result = Some(*cur),
-                    Some(ref n) => {
-                        result = Some(*n + *cur);
+                    Some(n) => {
+                        result = Some(Decimal::checked_add(n, *cur).ok_or_else(|| Error::from(ErrorKind::Overflow))?);
                     }
                 }
             }
@@ -565,8 +565,8 @@ mod math_ops {
             for cur in args {
                 match result {
                     None => result = Some(*cur),
-                    Some(ref n) => {
-                        result = Some(n * cur);
+                    Some(n) => {
+                        result = Some(Decimal::checked_mul(n, *cur).ok_or_else(|| Error::from(ErrorKind::Overflow))?);
                     }
                 }
             }
@@ -592,14 +592,16 @@ mod math_ops {
             for cur in args {
                 match sum {
                     None => sum = Some(*cur),
-                    Some(ref n) => {
-                        sum = Some(*n + *cur);
+                    Some(n) => {
+                        sum = Some(Decimal::checked_add(n, *cur).ok_or_else(|| Error::from(ErrorKind::Overflow))?);
                     }
                 }
             }
 
             match sum {
-                Some(n) => Ok(n / Decimal::from_usize(args.len()).unwrap()),
+                Some(n) => Decimal::from_usize(args.len())
+                    .and_then(|count| Decimal::checked_div(n, count))
+                    .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                 None => Err(Error::from(ErrorKind::InvalidArgumentCount)),
             }
         }
-- 
2.43.0


From 4b23d8b4dbedb19ff1fba5b8c4227c0e10a1abd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:41 +0000
Subject: [PATCH 22/31] fix: report a decimal division by zero as such

---
 prexel/src/decimal/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 2cec53f..bcb5393 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -410,6 +410,10 @@ mod math_ops {
 
         #[inline]
         fn call(&self, left: Decimal, right: Decimal) -> Result<Decimal> {
+            if right.is_zero() {
+                return Err(Error::from(ErrorKind::DivisionByZero));
+            }
+
             left.checked_div(right)
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
@@ -439,6 +443,10 @@ mod math_ops {
 
         #[inline]
         fn call(&self, left: Decimal, right: Decimal) -> Result<Decimal> {
+            if right.is_zero() {
+                return Err(Error::from(ErrorKind::DivisionByZero));
+            }
+
             left.checked_rem(right)
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
-- 
2.43.0


From dd8b177375d42b0f09fe807d66936abec4762ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 23/31] fix: raise decimals to integers without panics or
 overflows of unused squares

---
 prexel/src/decimal/decimal_ext.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 4147b1f..01a3101 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -67,7 +67,7 @@ impl DecimalExt for Decimal {
 
     fn checked_powd(self, exponent: Decimal) -> Option<Decimal> {
         if exponent.is_integer() {
-            return self.checked_powi(exponent.to_i64().unwrap());
+            return self.checked_powi(exponent.to_i64()?);
         }
 
         if self.is_zero() {
@@ -99,7 +99,7 @@ impl DecimalExt for Decimal {
         }
 
         if exponent < 0 {
-            return Self::checked_powi(Decimal::one() / self, -exponent);
+            return Self::checked_powi(Decimal::one().checked_div(self)?, exponent.checked_neg()?);
         }
 
         let mut result = Decimal::one();
@@ -112,8 +112,12 @@ impl DecimalExt for Decimal {
                 exponent -= 1
             }
 
-            base = base.checked_mul(base)?;
             exponent >>= 1;
+
+            // The last square is not used, so its overflow does not matter
+            if exponent > 0 {
+                base = base.checked_mul(base)?;
+            }
         }
 
         Some(result)
-- 
2.43.0


From 664bd37a57afaaa1e988f4c58d671146d794d333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:46 +0000
Subject: [PATCH 24/31] fix: the factorial of two is two for decimals

---
 prexel/src/decimal/decimal_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 01a3101..aba3ebe 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -271,7 +271,7 @@ impl DecimalExt for Decimal {
             return None;
         }
 
-        if self == consts::TWO || self == consts::ONE || self == consts::ZERO {
+        if self == consts::ONE || self == consts::ZERO {
             return Some(Decimal::one());
         }
 
@@ -288,7 +288,7 @@ impl DecimalExt for Decimal {
         }
 
         if !n.is_zero() {
-            result *= gamma(n + consts::ONE)?;
+            result = result.checked_mul(gamma(n + consts::ONE)?)?;
         }
 
         Some(result.round_dp(MAX_DECIMAL_PLACES))
-- 
2.43.0


From 76d92968a4dde324bd74391a964801bd1d0f43bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:25 +0000
Subject: [PATCH 25/31] fix: take the logarithm of complex numbers to real
 bases instead of to any others

---
 prexel/src/complex/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index d5f4286..1cc4b59 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -51,7 +51,7 @@ pub mod ops {
                    Ok(args[0].log(base))
                 },
                 2 => match args[1].im {
-                    n if !n.is_zero() => {
+                    n if n.is_zero() => {
                         Ok(args[0].log(args[1].re))
                     },
                     _ => Err(Error::new(ErrorKind::InvalidInput, "Expected decimal base")),
-- 
2.43.0


From ac11de48928bbd65ee363dbeefce5dc7ac77fb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:26 +0000
Subject: [PATCH 26/31] fix: accept negative bounds of complex random numbers
 and reject those out of order

---
 prexel/src/complex/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 1cc4b59..836abf3 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -110,15 +110,17 @@ pub mod ops {
                 2 => {
                     let min = try_get_real(&args[0])?;
                     let max = try_get_real(&args[1])?;
-                    if min.is_sign_negative() || max.is_sign_negative(){
+                    if min > max {
                         return Err(Error::new(
                             ErrorKind::InvalidInput,
                             format!("Invalid `Random` arguments: `min > max`, {} > {}", min, max)
                         ));
                     }
 
-                    let re = min + ((max - min) * random_t::<T>()?);
-                    let im = min + ((max - min) * random_t::<T>()?);
+                    // The difference of the bounds may overflow, and rounding may exceed them
+                    let lerp = |t: T| (min * (T::one() - t) + max * t).max(min).min(max);
+                    let re = lerp(random_t::<T>()?);
+                    let im = lerp(random_t::<T>()?);
                     Ok(Complex::new(re, im))
                 }
                 _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
-- 
2.43.0


From 80ac5fd0ab2985de22c1a1923edac3037a22aff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:27 +0000
Subject: [PATCH 27/31] fix: the inverse reciprocal functions of a complex
 number take its reciprocal

---
 prexel/src/complex/mod.rs | 72 ++++++++++++++++++++++++++++++++-------
 1 file changed, 60 insertions(+), 12 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 836abf3..4ddd1f5 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -177,6 +177,28 @@ pub mod ops {
         };
     }
 
+#[cfg(not(feature = "docs"))]
+    macro_rules! forward_impl_func_of_inv {
+        ($t:ty, $method_name:ident) => {
+            forward_impl_func_of_inv!($t, $method_name, $method_name);
+        };
+
+        ($t:ty, $method_name:ident, $name:ident) => {
+            impl<T> Function<Complex<T>> for $t where T: Float {
+                fn name(&self) -> &str {
+                    stringify!($name)
+                }
+
+                fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
+                    match args.len() {
+                        1 => Ok(args[0].inv().$method_name()),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+            }
+        };
+    }
+
     #[cfg(feature = "docs")]
     macro_rules! forward_impl_func {
         ($t:ty, $method_name:ident, $description:expr) => {
@@ -229,6 +251,32 @@ pub mod ops {
         };
     }
 
+#[cfg(feature = "docs")]
+    macro_rules! forward_impl_func_of_inv {
+        ($t:ty, $method_name:ident, $description:expr) => {
+            forward_impl_func_of_inv!($t, $method_name, $method_name);
+        };
+
+        ($t:ty, $method_name:ident, $name:ident, $description:expr) => {
+            impl<T> Function<Complex<T>> for $t where T: Float {
+                fn name(&self) -> &str {
+                    stringify!($name)
+                }
+
+                fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
+                    match args.len() {
+                        1 => Ok(args[0].inv().$method_name()),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+
+                fn description(&self) -> Option<&str> {
+                    Some($description.into())
+                }
+            }
+        };
+    }
+
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
     forward_impl_func!(SqrtFunction, sqrt);
@@ -307,21 +355,21 @@ pub mod ops {
 
     pub struct ACscFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACscFunction, asin, acsc);
+    forward_impl_func_of_inv!(ACscFunction, asin, acsc);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACscFunction, asin, acsc, Description::ACsc);
+    forward_impl_func_of_inv!(ACscFunction, asin, acsc, Description::ACsc);
 
     pub struct ASecFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ASecFunction, acos, asec);
+    forward_impl_func_of_inv!(ASecFunction, acos, asec);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ASecFunction, acos, asec, Description::ASec);
+    forward_impl_func_of_inv!(ASecFunction, acos, asec, Description::ASec);
 
     pub struct ACotFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACotFunction, atan, acot);
+    forward_impl_func_of_inv!(ACotFunction, atan, acot);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACotFunction, atan, acot, Description::ACot);
+    forward_impl_func_of_inv!(ACotFunction, atan, acot, Description::ACot);
 
     //////////////////// Hyperbolic Trigonometric ////////////////////
 
@@ -383,21 +431,21 @@ pub mod ops {
 
     pub struct ACschFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACschFunction, asinh, acsch);
+    forward_impl_func_of_inv!(ACschFunction, asinh, acsch);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACschFunction, asinh, acsch, Description::ACsch);
+    forward_impl_func_of_inv!(ACschFunction, asinh, acsch, Description::ACsch);
 
     pub struct ASechFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ASechFunction, acosh, asech);
+    forward_impl_func_of_inv!(ASechFunction, acosh, asech);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ASechFunction, acosh, asech, Description::ASech);
+    forward_impl_func_of_inv!(ASechFunction, acosh, asech, Description::ASech);
 
     pub struct ACothFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACothFunction, atanh, acoth);
+    forward_impl_func_of_inv!(ACothFunction, atanh, acoth);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACothFunction, atanh, acoth, Description::ACoth);
+    forward_impl_func_of_inv!(ACothFunction, atanh, acoth, Description::ACoth);
 }
 
 pub mod context {
-- 
2.43.0


From dcf5ab279fb807218739cebdc4ece3d68eb66d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:22 +0000
Subject: [PATCH 28/31] fix: let the binary module compile without the docs
 feature

---
 prexel/src/binary/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/prexel/src/binary/mod.rs b/prexel/src/binary/mod.rs
index 1b17887..28a0047 100644
--- a/prexel/src/binary/mod.rs
+++ b/prexel/src/binary/mod.rs
@@ -124,6 +124,7 @@ pub mod math {
             Ok(Binary(!value.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise NOT of the given value.")
         }
@@ -151,6 +152,7 @@ pub mod math {
             Ok(Binary(left.0 & right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise AND of the given values.")
         }
@@ -178,6 +180,7 @@ pub mod math {
             Ok(Binary(left.0 | right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise OR of the given values.")
         }
@@ -205,6 +208,7 @@ pub mod math {
             Ok(Binary(left.0 ^ right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise XOR of the given values.")
         }
@@ -233,6 +237,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the given values are equal, 0 otherwise.")
         }
@@ -261,6 +266,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the given values are not equal, 0 otherwise.")
         }
@@ -289,6 +295,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is greater than the right value, 0 otherwise.")
         }
@@ -317,6 +324,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is less than the right value, 0 otherwise.")
         }
@@ -345,6 +353,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is greater than or equal to the right value, 0 otherwise.")
         }
@@ -373,6 +382,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is less than or equal to the right value, 0 otherwise.")
         }
@@ -404,6 +414,7 @@ pub mod math {
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the left value bits shifted right by the right value.")
         }
@@ -435,6 +446,7 @@ pub mod math {
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the left value bits shifted left by the right value.")
         }
-- 
2.43.0


From cb81d469f765aff78b5af6140de7d34ed857aa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:22 +0000
Subject: [PATCH 29/31] fix: offer abs, floor, ceil, truncate, round and sign
 in unchecked contexts too

---
 prexel/src/context.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prexel/src/context.rs b/prexel/src/context.rs
index 33539d6..2f8ad2e 100644
--- a/prexel/src/context.rs
+++ b/prexel/src/context.rs
@@ -476,9 +476,15 @@ impl<'a, N: UncheckedNum> DefaultContext<'a, N> {
         context.add_function(ProdFunction).unwrap();
         context.add_function(MaxFunction).unwrap();
         context.add_function(MinFunction).unwrap();
+        context.add_function(AbsFunction).unwrap();
         context.add_function(SqrtFunction).unwrap();
         context.add_function(LnFunction).unwrap();
         context.add_function(LogFunction).unwrap();
+        context.add_function(FloorFunction).unwrap();
+        context.add_function(CeilFunction).unwrap();
+        context.add_function(TruncateFunction).unwrap();
+        context.add_function(RoundFunction).unwrap();
+        context.add_function(SignFunction).unwrap();
         context.add_function(RandFunction).unwrap();
         context.add_function(ToRadiansFunction).unwrap();
         context.add_function(ToDegreesFunction).unwrap();
-- 
2.43.0


From 9e5f368716de7c53b2a7a3341753cad00b5b95ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:12 +0000
Subject: [PATCH 30/31] fix: keep an empty history instead of panicking when
 its size is 0

---
 eval/src/collections/carray.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eval/src/collections/carray.rs b/eval/src/collections/carray.rs
index aab30bc..209a564 100644
--- a/eval/src/collections/carray.rs
+++ b/eval/src/collections/carray.rs
@@ -18,6 +18,11 @@ impl<T> CircularArray<T> {
     }
 
     pub fn push(&mut self, item: T) {
+        // There is no room for any item
+        if self.cap == 0 {
+            return;
+        }
+
         if self.data.len() == self.cap {
             self.data.remove(0);
         }
-- 
2.43.0


From 79c5b189ec9e4e276b397546e819748bb5d2a9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:34 +0000
Subject: [PATCH 31/31] fix: evaluate the comparisons of binary numbers in the
 REPL instead of taking them for assignments

---
 eval/src/repl/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/eval/src/repl/mod.rs b/eval/src/repl/mod.rs
index 1bfde3f..5ff964c 100644
--- a/eval/src/repl/mod.rs
+++ b/eval/src/repl/mod.rs
@@ -88,7 +88,7 @@ fn eval_loop<'a, N, F>(config: ReplConfig, factory: F)
             }
 
             // Assign a variable
-            _ if expression.contains('=') => {
+            _ if is_assignment(expression) => {
                 let parts = expression
                     .split('=')
                     .map(|s| s.trim().to_owned())
@@ -130,6 +130,17 @@ fn eval_loop<'a, N, F>(config: ReplConfig, factory: F)
     });
 }
 
+/// Returns `true` if the expression contains a `=` that is not part of an operator as `==`, `<=` or `>=`.
+fn is_assignment(expression: &str) -> bool {
+    let bytes = expression.as_bytes();
+
+    bytes.iter().enumerate().any(|(pos, b)| {
+        let prev = if pos == 0 { None } else { bytes.get(pos - 1) };
+        let next = bytes.get(pos + 1);
+        *b == b'=' && !matches!(prev, Some(b'=' | b'<' | b'>' | b'!')) && next != Some(&b'=')
+    })
+}
+
 fn repl_tokenizer<'a, N>(is_binary: bool) -> Tokenizer<'a, N>
     where
         N: FromStr + Clone + Display + Debug + 'a,
-- 
2.43.0

