From 953951d1d05861362c2c52873f41b62655f91362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 01/34] fix: report missing function arguments instead of
 ignoring them

The error built when a call has fewer values than arguments was dropped, and
an empty argument list was counted as one argument, so `5 + Random()` took
the 5 as an argument and `Max(1, +)` was evaluated with whatever was left.
---
 prexel/src/evaluator.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 8c82f77..1318f8f 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -236,10 +236,10 @@ where
                     match values.pop() {
                         Some(n) => args.push(n.clone()),
                         None => {
-                            Error::new(
+                            return Err(Error::new(
                                 ErrorKind::InvalidArgumentCount,
                                 format!("expected {} arguments but {} was get", n, args.len()),
-                            );
+                            ));
                         }
                     }
                 }
@@ -365,7 +365,16 @@ mod shunting_yard {
                     }
                 }
                 Token::GroupingClose(c) => {
-                    push_grouping_close(context, *c, &mut output, &mut operators, &mut arg_count)?;
+                    // An empty argument list, eg: `Random()`
+                    let is_empty = pos > 0 && tokens[pos - 1].is_grouping_open();
+                    push_grouping_close(
+                        context,
+                        *c,
+                        is_empty,
+                        &mut output,
+                        &mut operators,
+                        &mut arg_count,
+                    )?;
 
                     // Checking for empty grouping symbols: eg: `Random(())`, `()+2`
                     if pos > 1 {
@@ -583,6 +592,7 @@ mod shunting_yard {
     fn push_grouping_close<'a, N: Clone + Debug>(
         context: &impl Context<'a, N>,
         group_close: char,
+        is_empty: bool,
         output: &mut Vec<Token<N>>,
         operators: &mut Vec<Token<N>>,
         arg_count: &mut Vec<usize>,
@@ -602,7 +612,8 @@ mod shunting_yard {
                             // So we pop the argument count and function token into the output stack.
                             if !arg_count.is_empty() {
                                 if let Some(Token::Function(_)) = operators.last() {
-                                    let count = arg_count.pop().unwrap() + 1;
+                                    let commas = arg_count.pop().unwrap();
+                                    let count = if is_empty { 0 } else { commas + 1 };
                                     output.push(Token::ArgCount(count));
                                     output.push(operators.pop().unwrap());
                                 }
-- 
2.43.0


From 27b74628b6b3c65b7e696b0baee257f0235a63d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 02/34] fix: reject expressions with an unclosed grouping
 symbol in infix_to_rpn

---
 prexel/src/evaluator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 1318f8f..178923a 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -443,7 +443,7 @@ mod shunting_yard {
         }
 
         while let Some(t) = operators.pop() {
-            if t.is_grouping_close() || t.is_grouping_close() {
+            if t.is_grouping_open() || t.is_grouping_close() {
                 return Err(Error::new(
                     ErrorKind::InvalidExpression,
                     "Misplace parentheses",
-- 
2.43.0


From 25cb17f015adb82b4f693be1be72c05675935b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 03/34] fix: apply a pending prefix operator before the next
 binary operator

`-(2) + 3` was evaluated as `-(2 + 3)`.
---
 prexel/src/evaluator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 178923a..a2bd0d9 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -562,6 +562,11 @@ mod shunting_yard {
             } else {
                 let top_operator = match t {
                     Token::BinaryOperator(op) => context.get_binary_function(op),
+                    Token::UnaryOperator(_) => {
+                        // A pending prefix operator, eg: `-(2) + 3`
+                        output.push(operators.pop().unwrap());
+                        continue;
+                    }
                     _ => {
                         break;
                     }
-- 
2.43.0


From 7a5519a80be021ee3661f3f0163c7a8f00777420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 04/34] fix: reject an empty pair of grouping symbols at the
 start of an expression

`()5` was evaluated as 5.
---
 prexel/src/evaluator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index a2bd0d9..6a12cde 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -377,13 +377,13 @@ mod shunting_yard {
                     )?;
 
                     // Checking for empty grouping symbols: eg: `Random(())`, `()+2`
-                    if pos > 1 {
+                    if pos > 0 {
                         if let Token::GroupingOpen(s) = tokens[pos - 1] {
                             if context
                                 .config()
                                 .get_group_open_for(*c)
                                 .map_or(false, |v| v == s)
-                                && !tokens[pos - 2].is_function()
+                                && !(pos > 1 && tokens[pos - 2].is_function())
                             {
                                 return Err(Error::new(
                                     ErrorKind::InvalidInput,
-- 
2.43.0


From df3b5689e0e114c7f0afac63660cd23e7be0a978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 05/34] fix: do not slice a token inside a character
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Tokenizing an operator after a token that starts with a multi-byte character,
eg: `λ(2) ∋ - 2`, panicked.
---
 prexel/src/tokenizer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index dca715d..4b0cc19 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -232,8 +232,10 @@ where
                 }
 
                 // 10! - 2
-                if context.is_unary_function(&prev_str[..1])
-                    && !context.is_binary_function(&prev_str[..1])
+                if context
+                    .get_unary_function(prev_str)
+                    .map_or(false, |f| f.notation() == Notation::Postfix)
+                    && !context.is_binary_function(prev_str)
                 {
                     return false;
                 }
-- 
2.43.0


From 42e882fad33a7157f34f50ebf2ecfc136c82b32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 06/34] fix: reject operands and operators that do not
 alternate

`(2 3 +)` and `Max(1 2 *, 3)` were evaluated as if written in postfix order.
---
 prexel/src/evaluator.rs | 52 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 6a12cde..fa0fedf 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -326,6 +326,8 @@ mod shunting_yard {
 
         let mut token_iterator = tokens.iter().enumerate().peekable();
         while let Some((pos, token)) = token_iterator.next() {
+            check_token_position(context, tokens, pos)?;
+
             match token {
                 Token::Number(_) | Token::Variable(_) | Token::Constant(_) => {
                     push_number(context, &mut output, &mut operators, token)
@@ -456,6 +458,56 @@ mod shunting_yard {
         Ok(output)
     }
 
+    /// Checks that operands and operators alternate, so expressions as `(2 3 +)` or `Max(1 2 *, 3)`
+    /// are rejected.
+    fn check_token_position<'a, N>(
+        context: &impl Context<'a, N>,
+        tokens: &[Token<N>],
+        pos: usize,
+    ) -> Result<()> {
+        let is_postfix = |name: &str| {
+            context
+                .get_unary_function(name)
+                .map_or(false, |f| f.notation() == Notation::Postfix)
+        };
+
+        let prev = if pos == 0 { None } else { tokens.get(pos - 1) };
+        let after_operand = match prev {
+            Some(Number(_)) | Some(Variable(_)) | Some(Constant(_)) | Some(GroupingClose(_)) => true,
+            Some(UnaryOperator(name)) => is_postfix(name),
+            _ => false,
+        };
+
+        let is_misplaced = match &tokens[pos] {
+            Number(_) => {
+                // (2)2
+                let implicit_mul =
+                    context.config().implicit_mul && matches!(prev, Some(GroupingClose(_)));
+                after_operand && !implicit_mul
+            }
+            Variable(_) | Constant(_) | Function(_) | GroupingOpen(_) => {
+                // 2x, 2(4), (2)PI
+                let implicit_mul = context.config().implicit_mul
+                    && matches!(prev, Some(Number(_)) | Some(GroupingClose(_)));
+                after_operand && !implicit_mul
+            }
+            UnaryOperator(name) => is_postfix(name) != after_operand,
+            BinaryOperator(_) | Comma => !after_operand,
+            // `Random()` have no operand
+            GroupingClose(_) => !after_operand && !matches!(prev, Some(GroupingOpen(_))),
+            _ => false,
+        };
+
+        if is_misplaced {
+            Err(Error::new(
+                ErrorKind::InvalidExpression,
+                "Misplaced operand or operator",
+            ))
+        } else {
+            Ok(())
+        }
+    }
+
     fn check_comma_position<N>(
         tokens: &[Token<N>],
         grouping_count: &[usize],
-- 
2.43.0


From 3d0a5b1f4b96642ac2e43d676ea84ae8dc0552a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 07/34] fix: keep the function names truncate and sign when the
 docs feature is on

---
 prexel/src/ops/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 52da326..23aea95 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -535,7 +535,7 @@ mod math_ops {
     forward_func_impl!(TruncateFunction, trunc, truncate);
 
     #[cfg(feature = "docs")]
-    forward_func_impl!(TruncateFunction, trunc, Description::Truncate);
+    forward_func_impl!(TruncateFunction, trunc, truncate, Description::Truncate);
 
     pub struct RoundFunction;
     #[cfg(not(feature = "docs"))]
@@ -549,7 +549,7 @@ mod math_ops {
     forward_func_impl!(SignFunction, signum, sign);
 
     #[cfg(feature = "docs")]
-    forward_func_impl!(SignFunction, signum, Description::Sign);
+    forward_func_impl!(SignFunction, signum, sign, Description::Sign);
 
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
-- 
2.43.0


From 9eec12389f07436a4156d21a317aab8debde4297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 08/34] fix: complex log takes a real base and complex random
 checks its range

---
 prexel/src/complex/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index d5f4286..3a7a928 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -51,7 +51,7 @@ pub mod ops {
                    Ok(args[0].log(base))
                 },
                 2 => match args[1].im {
-                    n if !n.is_zero() => {
+                    n if n.is_zero() => {
                         Ok(args[0].log(args[1].re))
                     },
                     _ => Err(Error::new(ErrorKind::InvalidInput, "Expected decimal base")),
@@ -110,7 +110,7 @@ pub mod ops {
                 2 => {
                     let min = try_get_real(&args[0])?;
                     let max = try_get_real(&args[1])?;
-                    if min.is_sign_negative() || max.is_sign_negative(){
+                    if min > max {
                         return Err(Error::new(
                             ErrorKind::InvalidInput,
                             format!("Invalid `Random` arguments: `min > max`, {} > {}", min, max)
-- 
2.43.0


From 4c6fba293c6abc374db0527942d1d35a8519eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 09/34] fix: factorial reports an overflow instead of wrapping,
 panicking or looping

---
 prexel/src/ops/checked.rs | 75 ++++++++++++++++++++++++++++++++++++++-
 prexel/src/ops/mod.rs     |  9 ++++-
 2 files changed, 82 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/checked.rs b/prexel/src/ops/checked.rs
index 6f6675c..8dbbce1 100644
--- a/prexel/src/ops/checked.rs
+++ b/prexel/src/ops/checked.rs
@@ -1,9 +1,10 @@
-use num_traits::{FromPrimitive, Zero};
+use num_traits::{FromPrimitive, One, ToPrimitive, Zero};
 use crate::error::*;
 use crate::function::{
     Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction,
 };
 use crate::num::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedSub};
+use crate::utils::gamma::gamma;
 use crate::Result;
 
 #[cfg(feature = "docs")]
@@ -162,6 +163,78 @@ impl<N: CheckedNeg> UnaryFunction<N> for UnaryMinus {
     }
 }
 
+pub struct Factorial;
+impl<N> UnaryFunction<N> for Factorial
+where
+    N: CheckedSub + CheckedMul + Zero + One + PartialOrd + ToPrimitive + FromPrimitive + Clone,
+{
+    fn name(&self) -> &str {
+        "!"
+    }
+
+    fn notation(&self) -> Notation {
+        Notation::Postfix
+    }
+
+    fn call(&self, value: N) -> Result<N> {
+        if value < N::zero() {
+            return Err(Error::from(ErrorKind::NegativeValue));
+        }
+
+        // 0! = 1 and 1! = 1
+        if value.is_zero() || value.is_one() {
+            return Ok(N::one());
+        }
+
+        // Quick path for: `x < 1`
+        if value < N::one() {
+            let n = value
+                .to_f64()
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))?;
+
+            return N::from_f64(gamma(n + 1f64)).ok_or_else(|| Error::from(ErrorKind::Overflow));
+        }
+
+        let mut total = value;
+        let mut next = total
+            .checked_sub(&N::one())
+            .ok_or_else(|| Error::from(ErrorKind::Overflow))?;
+
+        while next >= N::one() {
+            let product = total
+                .checked_mul(&next)
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))?;
+
+            // The total can no longer grow, so it saturated
+            if product == total && !next.is_one() {
+                return Err(Error::from(ErrorKind::Overflow));
+            }
+
+            total = product;
+            next = next
+                .checked_sub(&N::one())
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))?;
+        }
+
+        // If next value is non-zero, apply `Gamma function`.
+        if !next.is_zero() {
+            if let (Some(total), Some(n)) = (total.to_f64(), next.to_f64()) {
+                N::from_f64(total * gamma(n + 1f64))
+                    .ok_or_else(|| Error::from(ErrorKind::Overflow))
+            } else {
+                Err(Error::from(ErrorKind::Overflow))
+            }
+        } else {
+            Ok(total)
+        }
+    }
+
+    #[cfg(feature="docs")]
+    fn description(&self) -> Option<&str> {
+        Some(Description::Factorial.into())
+    }
+}
+
 pub struct AbsFunction;
 impl<N: Zero + PartialOrd + CheckedNeg + Clone> Function<N> for AbsFunction {
     fn name(&self) -> &str {
diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 23aea95..a85b8a0 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -399,7 +399,14 @@ mod math_ops {
             let mut next = total.clone() - N::one();
 
             while next >= N::one() {
-                total = total.clone() * next.clone();
+                let product = total.clone() * next.clone();
+
+                // The total can no longer grow, so it saturated
+                if product == total && !next.is_one() {
+                    return Err(Error::from(ErrorKind::Overflow));
+                }
+
+                total = product;
                 next = next.clone() - N::one();
             }
 
-- 
2.43.0


From 8b8185c1d6515dcfb9acc72e4e8339e1a1613290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 10/34] fix: decimal sum, product and avg report an overflow
 instead of panicking

---
 prexel/src/decimal/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index be3abc7..47db909 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -539,7 +539,8 @@ mod math_ops {
                 match result {
                     None => result = Some(*cur),
                     Some(ref n) => {
-                        result = Some(*n + *cur);
+                        result = Some(n.checked_add(*cur)
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow))?);
                     }
                 }
             }
@@ -566,7 +567,8 @@ mod math_ops {
                 match result {
                     None => result = Some(*cur),
                     Some(ref n) => {
-                        result = Some(n * cur);
+                        result = Some(n.checked_mul(*cur)
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow))?);
                     }
                 }
             }
@@ -593,13 +595,16 @@ mod math_ops {
                 match sum {
                     None => sum = Some(*cur),
                     Some(ref n) => {
-                        sum = Some(*n + *cur);
+                        sum = Some(n.checked_add(*cur)
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow))?);
                     }
                 }
             }
 
             match sum {
-                Some(n) => Ok(n / Decimal::from_usize(args.len()).unwrap()),
+                Some(n) => Decimal::from_usize(args.len())
+                    .and_then(|count| n.checked_div(count))
+                    .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                 None => Err(Error::from(ErrorKind::InvalidArgumentCount)),
             }
         }
-- 
2.43.0


From c74f02c18d33432d2334363999a736774af0145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 11/34] fix: decimal division and remainder by zero are
 reported as such

---
 prexel/src/decimal/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 47db909..53c9c36 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -410,6 +410,10 @@ mod math_ops {
 
         #[inline]
         fn call(&self, left: Decimal, right: Decimal) -> Result<Decimal> {
+            if right.is_zero() {
+                return Err(Error::from(ErrorKind::DivisionByZero));
+            }
+
             left.checked_div(right)
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
@@ -439,6 +443,10 @@ mod math_ops {
 
         #[inline]
         fn call(&self, left: Decimal, right: Decimal) -> Result<Decimal> {
+            if right.is_zero() {
+                return Err(Error::from(ErrorKind::DivisionByZero));
+            }
+
             left.checked_rem(right)
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
-- 
2.43.0


From 4f1207b0c2b0b2ab97a41c01d335862f73e51da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 12/34] fix: decimal powers report an overflow instead of
 panicking

---
 prexel/src/decimal/decimal_ext.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 4147b1f..5dee818 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -67,11 +67,16 @@ impl DecimalExt for Decimal {
 
     fn checked_powd(self, exponent: Decimal) -> Option<Decimal> {
         if exponent.is_integer() {
-            return self.checked_powi(exponent.to_i64().unwrap());
+            return self.checked_powi(exponent.to_i64()?);
         }
 
         if self.is_zero() {
-            return Some(Decimal::one());
+            // 0 ^ -n is a division by zero
+            return if exponent.is_sign_negative() {
+                None
+            } else {
+                Some(Decimal::zero())
+            };
         }
 
         if self.is_one() {
@@ -99,7 +104,8 @@ impl DecimalExt for Decimal {
         }
 
         if exponent < 0 {
-            return Self::checked_powi(Decimal::one() / self, -exponent);
+            let base = Decimal::one().checked_div(self)?;
+            return Self::checked_powi(base, exponent.checked_neg()?);
         }
 
         let mut result = Decimal::one();
@@ -112,8 +118,12 @@ impl DecimalExt for Decimal {
                 exponent -= 1
             }
 
-            base = base.checked_mul(base)?;
             exponent >>= 1;
+
+            // The next square is only needed if there are bits left
+            if exponent > 0 {
+                base = base.checked_mul(base)?;
+            }
         }
 
         Some(result)
-- 
2.43.0


From eee91a5368fade95c54818d27356ce496bedc622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 13/34] fix: decimal factorial of two is two

---
 prexel/src/decimal/decimal_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 5dee818..f68ac8a 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -277,7 +277,7 @@ impl DecimalExt for Decimal {
             return None;
         }
 
-        if self == consts::TWO || self == consts::ONE || self == consts::ZERO {
+        if self == consts::ONE || self == consts::ZERO {
             return Some(Decimal::one());
         }
 
-- 
2.43.0


From c7f790c06f75495f9ff2dbb0c25a40d812c5b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 14/34] fix: complex inverse secant, cosecant and cotangent
 invert their argument

---
 prexel/src/complex/mod.rs | 64 +++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 3a7a928..8b42f82 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -227,6 +227,46 @@ pub mod ops {
         };
     }
 
+    #[cfg(not(feature = "docs"))]
+    macro_rules! forward_impl_arc_func_inv {
+        ($t:ty, $method_name:ident, $name:ident) => {
+            impl<T> Function<Complex<T>> for $t where T: Float {
+                fn name(&self) -> &str {
+                    stringify!($name)
+                }
+
+                fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
+                    match args.len() {
+                        1 => Ok(args[0].inv().$method_name()),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+            }
+        };
+    }
+
+    #[cfg(feature = "docs")]
+    macro_rules! forward_impl_arc_func_inv {
+        ($t:ty, $method_name:ident, $name:ident, $description:expr) => {
+            impl<T> Function<Complex<T>> for $t where T: Float {
+                fn name(&self) -> &str {
+                    stringify!($name)
+                }
+
+                fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
+                    match args.len() {
+                        1 => Ok(args[0].inv().$method_name()),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+
+                fn description(&self) -> Option<&str> {
+                    Some($description.into())
+                }
+            }
+        };
+    }
+
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
     forward_impl_func!(SqrtFunction, sqrt);
@@ -305,21 +345,21 @@ pub mod ops {
 
     pub struct ACscFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACscFunction, asin, acsc);
+    forward_impl_arc_func_inv!(ACscFunction, asin, acsc);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACscFunction, asin, acsc, Description::ACsc);
+    forward_impl_arc_func_inv!(ACscFunction, asin, acsc, Description::ACsc);
 
     pub struct ASecFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ASecFunction, acos, asec);
+    forward_impl_arc_func_inv!(ASecFunction, acos, asec);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ASecFunction, acos, asec, Description::ASec);
+    forward_impl_arc_func_inv!(ASecFunction, acos, asec, Description::ASec);
 
     pub struct ACotFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACotFunction, atan, acot);
+    forward_impl_arc_func_inv!(ACotFunction, atan, acot);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACotFunction, atan, acot, Description::ACot);
+    forward_impl_arc_func_inv!(ACotFunction, atan, acot, Description::ACot);
 
     //////////////////// Hyperbolic Trigonometric ////////////////////
 
@@ -381,21 +421,21 @@ pub mod ops {
 
     pub struct ACschFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACschFunction, asinh, acsch);
+    forward_impl_arc_func_inv!(ACschFunction, asinh, acsch);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACschFunction, asinh, acsch, Description::ACsch);
+    forward_impl_arc_func_inv!(ACschFunction, asinh, acsch, Description::ACsch);
 
     pub struct ASechFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ASechFunction, acosh, asech);
+    forward_impl_arc_func_inv!(ASechFunction, acosh, asech);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ASechFunction, acosh, asech, Description::ASech);
+    forward_impl_arc_func_inv!(ASechFunction, acosh, asech, Description::ASech);
 
     pub struct ACothFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACothFunction, atanh, acoth);
+    forward_impl_arc_func_inv!(ACothFunction, atanh, acoth);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACothFunction, atanh, acoth, Description::ACoth);
+    forward_impl_arc_func_inv!(ACothFunction, atanh, acoth, Description::ACoth);
 }
 
 pub mod context {
-- 
2.43.0


From 560aa65b4ec14f29d86e7497607272a19c7df2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 15/34] fix: decimal reciprocal and inverse trigonometric
 functions invert the right value

---
 prexel/src/decimal/decimal_ext.rs |  2 +-
 prexel/src/decimal/mod.rs         | 94 ++++++++-----------------------
 2 files changed, 25 insertions(+), 71 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index f68ac8a..1f257bf 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -155,7 +155,7 @@ impl DecimalExt for Decimal {
     }
 
     fn checked_cbrt(self) -> Option<Decimal> {
-        if self.is_one() {
+        if self.is_zero() || self.is_one() {
             return Some(self);
         }
 
diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 53c9c36..ed75e49 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -142,30 +142,6 @@ macro_rules! forward_func_impl {
     };
 }
 
-#[cfg(not(feature = "docs"))]
-macro_rules! forward_func_inv_impl {
-    ($struct_name:ident, $method_name:ident, $name:ident) => {
-        impl Function<Decimal> for $struct_name {
-            #[inline]
-            fn name(&self) -> &str {
-                stringify!($name)
-            }
-
-            #[inline]
-            fn call(&self, args: &[Decimal]) -> Result<Decimal> {
-                match args.len() {
-                    1 => Ok(args[0].$method_name().inv()),
-                    _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
-                }
-            }
-        }
-    };
-
-    ($struct_name:ident, $method_name:ident) => {
-        forward_func_inv_impl!($struct_name, $method_name, $method_name);
-    };
-}
-
 #[cfg(feature = "docs")]
 macro_rules! forward_checked_func_impl {
     ($struct_name:ident, $method_name:ident, $name:ident, $description:expr) => {
@@ -256,34 +232,6 @@ macro_rules! forward_func_impl {
     };
 }
 
-#[cfg(feature = "docs")]
-macro_rules! forward_func_inv_impl {
-    ($struct_name:ident, $method_name:ident, $name:ident, $description:expr) => {
-        impl Function<Decimal> for $struct_name {
-            #[inline]
-            fn name(&self) -> &str {
-                stringify!($name)
-            }
-
-            #[inline]
-            fn call(&self, args: &[Decimal]) -> Result<Decimal> {
-                match args.len() {
-                    1 => Ok(args[0].$method_name().inv()),
-                    _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
-                }
-            }
-
-            fn description(&self) -> Option<&str> {
-                Some($description.into())
-            }
-        }
-    };
-
-    ($struct_name:ident, $method_name:ident, $description:expr) => {
-        forward_func_inv_impl!($struct_name, $method_name, $method_name, $description);
-    };
-}
-
 pub mod ops {
     pub use super::math_ops::*;
     pub use super::trig_ops::*;
@@ -760,7 +708,7 @@ mod trig_ops {
                         1 => args[0]
                             .to_radians()
                             .$method_name()
-                            //.map(Decimal::checked_inv)
+                            .and_then(Decimal::checked_inv)
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -867,7 +815,7 @@ mod trig_ops {
                         1 => args[0]
                             .to_radians()
                             .$method_name()
-                            //.map(Decimal::checked_inv)
+                            .and_then(Decimal::checked_inv)
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -933,7 +881,10 @@ mod trig_ops {
                 #[inline]
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
-                        1 => Ok(args[0].$method_name()),
+                        1 => args[0]
+                            .checked_inv()
+                            .map(Decimal::$method_name)
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
                 }
@@ -958,8 +909,8 @@ mod trig_ops {
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
                         1 => args[0]
-                            .inv()
-                            .$method_name()
+                            .checked_inv()
+                            .and_then(Decimal::$method_name)
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -984,7 +935,10 @@ mod trig_ops {
                 #[inline]
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
-                        1 => Ok(args[0].$method_name()),
+                        1 => args[0]
+                            .checked_inv()
+                            .map(Decimal::$method_name)
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
                 }
@@ -1013,8 +967,8 @@ mod trig_ops {
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
                         1 => args[0]
-                            .inv()
-                            .$method_name()
+                            .checked_inv()
+                            .and_then(Decimal::$method_name)
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -1033,15 +987,15 @@ mod trig_ops {
 
     pub struct ASinFunction;
     #[cfg(not(feature = "docs"))]
-    impl_checked_trig!(ASinFunction, asin);
+    forward_checked_func_impl!(ASinFunction, asin);
     #[cfg(feature = "docs")]
-    impl_checked_trig!(ASinFunction, asin, Description::ASin);
+    forward_checked_func_impl!(ASinFunction, asin, Description::ASin);
 
     pub struct ACosFunction;
     #[cfg(not(feature = "docs"))]
-    impl_checked_trig!(ACosFunction, acos);
+    forward_checked_func_impl!(ACosFunction, acos);
     #[cfg(feature = "docs")]
-    impl_checked_trig!(ACosFunction, acos, Description::ACos);
+    forward_checked_func_impl!(ACosFunction, acos, Description::ACos);
 
     pub struct ATanFunction;
     impl Function<Decimal> for ATanFunction {
@@ -1141,21 +1095,21 @@ mod trig_ops {
 
     pub struct ACschFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_inv_impl!(ACschFunction, asinh, acsch);
+    impl_arc_trig_rec!(ACschFunction, asinh, acsch);
     #[cfg(feature = "docs")]
-    forward_func_inv_impl!(ACschFunction, asinh, acsch, Description::ACsch);
+    impl_arc_trig_rec!(ACschFunction, asinh, acsch, Description::ACsch);
 
     pub struct ASechFunction;
     #[cfg(not(feature = "docs"))]
-    forward_checked_func_inv_impl!(ASechFunction, acosh, asech);
+    impl_checked_arc_trig_rec!(ASechFunction, acosh, asech);
     #[cfg(feature = "docs")]
-    forward_checked_func_inv_impl!(ASechFunction, acosh, asech, Description::ASech);
+    impl_checked_arc_trig_rec!(ASechFunction, acosh, asech, Description::ASech);
 
     pub struct ACothFunction;
     #[cfg(not(feature = "docs"))]
-    forward_checked_func_inv_impl!(ACothFunction, atanh, acoth);
+    impl_checked_arc_trig_rec!(ACothFunction, atanh, acoth);
     #[cfg(feature = "docs")]
-    forward_checked_func_inv_impl!(ACothFunction, atanh, acoth, Description::ACoth);
+    impl_checked_arc_trig_rec!(ACothFunction, atanh, acoth, Description::ACoth);
 }
 
 pub mod context {
-- 
2.43.0


From d0a9debd17dde879da15ffd7a56a70eab4241539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 16/34] fix: decimal functions report an overflow instead of
 panicking

---
 prexel/src/decimal/decimal_ext.rs | 61 ++++++++++++++++++++-----------
 prexel/src/decimal/mod.rs         | 16 ++++----
 2 files changed, 48 insertions(+), 29 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 1f257bf..7432b45 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -10,6 +10,7 @@ pub trait DecimalExt {
     fn is_integer(&self) -> bool;
     fn to_radians(&self) -> Decimal;
     fn to_degrees(&self) -> Decimal;
+    fn checked_to_degrees(&self) -> Option<Decimal>;
     fn inv(self) -> Decimal;
     fn checked_inv(self) -> Option<Decimal>;
     fn checked_powd(self, exponent: Decimal) -> Option<Decimal>;
@@ -27,10 +28,12 @@ pub trait DecimalExt {
     fn acos(self) -> Option<Decimal>;
     fn atan(self) -> Decimal;
     fn atan2(self, other: Decimal) -> Decimal;
+    fn checked_atan2(self, other: Decimal) -> Option<Decimal>;
     fn sinh(self) -> Option<Decimal>;
     fn cosh(self) -> Option<Decimal>;
     fn tanh(self) -> Option<Decimal>;
     fn asinh(self) -> Decimal;
+    fn checked_asinh(self) -> Option<Decimal>;
     fn acosh(self) -> Option<Decimal>;
     fn atanh(self) -> Option<Decimal>;
 }
@@ -51,6 +54,11 @@ impl DecimalExt for Decimal {
         (self * (dec!(180) / consts::PI)).approx()
     }
 
+    #[inline]
+    fn checked_to_degrees(&self) -> Option<Decimal> {
+        self.checked_mul(dec!(180) / consts::PI).map(|d| d.approx())
+    }
+
     #[inline]
     fn inv(self) -> Decimal {
         consts::ONE / self
@@ -294,7 +302,7 @@ impl DecimalExt for Decimal {
         }
 
         if !n.is_zero() {
-            result *= gamma(n + consts::ONE)?;
+            result = result.checked_mul(gamma(n + consts::ONE)?)?;
         }
 
         Some(result.round_dp(MAX_DECIMAL_PLACES))
@@ -365,7 +373,7 @@ impl DecimalExt for Decimal {
         if cos.is_zero() {
             None
         } else {
-            let result = self.checked_sin()? / cos;
+            let result = self.checked_sin()?.checked_div(cos)?;
             Some(result.approx())
         }
     }
@@ -458,55 +466,61 @@ impl DecimalExt for Decimal {
     }
 
     fn atan2(self, x: Decimal) -> Decimal {
+        self.checked_atan2(x).unwrap()
+    }
+
+    fn checked_atan2(self, x: Decimal) -> Option<Decimal> {
         if self.is_zero() && x.is_zero() {
-            return Decimal::zero();
+            return Some(Decimal::zero());
         }
 
         if x.is_zero() {
-            return if self > consts::ZERO {
-                consts::PI_2
+            return Some(if self > consts::ZERO {
+                consts::PI_FRACT_2
             } else {
-                consts::PI_2_MINUS
-            };
+                -consts::PI_FRACT_2
+            });
         }
 
         // Θ = arctan(y / x)
-        let atan2 = Decimal::atan(self / x);
+        let atan2 = Decimal::atan(self.checked_div(x)?);
 
-        if x > consts::ZERO {
+        Some(if x > consts::ZERO {
             atan2
         } else if self >= consts::ZERO {
             atan2 + consts::PI
         } else {
             atan2 - consts::PI
-        }
+        })
     }
 
     fn sinh(self) -> Option<Decimal> {
         // formula: sinh(x) = (e^x - e^-x)/2
         let e0 = self.checked_exp()?;
         let e1 = self.neg().checked_exp()?;
-        let result = (e0 - e1) / consts::TWO;
-        Some(result)
+        e0.checked_sub(e1)?.checked_div(consts::TWO)
     }
 
     fn cosh(self) -> Option<Decimal> {
         // formula: cosh(x) = (e^x + e^-x)/2
         let e0 = self.checked_exp()?;
         let e1 = self.neg().checked_exp()?;
-        let result = (e0 + e1) / consts::TWO;
-        Some(result)
+        e0.checked_add(e1)?.checked_div(consts::TWO)
     }
 
     fn tanh(self) -> Option<Decimal> {
-        let result = self.sinh()? / self.cosh()?;
-        Some(result)
+        self.sinh()?.checked_div(self.cosh()?)
     }
 
     fn asinh(self) -> Decimal {
+        self.checked_asinh().unwrap()
+    }
+
+    fn checked_asinh(self) -> Option<Decimal> {
         // formula: asinh(x) = ln(x + sqrt(x^2 + 1))
-        let x2 = self * self;
-        Decimal::checked_ln(self + Decimal::checked_sqrt(x2 + consts::ONE).unwrap()).unwrap()
+        let x2 = self.checked_mul(self)?;
+        let sqrt = Decimal::checked_sqrt(x2.checked_add(consts::ONE)?)?;
+        Decimal::checked_ln(self.checked_add(sqrt)?)
     }
 
     fn acosh(self) -> Option<Decimal> {
@@ -515,8 +529,9 @@ impl DecimalExt for Decimal {
         }
 
         // formula: acosh(x) = ln(x + sqrt(x^2 - 1))
-        let x2 = self * self;
-        Decimal::checked_ln(self + Decimal::checked_sqrt(x2 - consts::ONE)?)
+        let x2 = self.checked_mul(self)?;
+        let sqrt = Decimal::checked_sqrt(x2.checked_sub(consts::ONE)?)?;
+        Decimal::checked_ln(self.checked_add(sqrt)?)
     }
 
     fn atanh(self) -> Option<Decimal> {
@@ -527,7 +542,7 @@ impl DecimalExt for Decimal {
         // formula: atanh(x) = 0.5 * ln((1 + x)/(1 - x))
         let x0 = consts::ONE + self;
         let x1 = consts::ONE - self;
-        Decimal::checked_ln(x0 / x1)?.checked_mul(consts::HALF)
+        Decimal::checked_ln(x0.checked_div(x1)?)?.checked_mul(consts::HALF)
     }
 }
 
@@ -579,7 +594,9 @@ fn gamma(mut x: Decimal) -> Option<Decimal> {
     // ~10^-13 precision
     // See: https://en.wikipedia.org/wiki/Lanczos_approximation
     if x < consts::HALF {
-        Some(consts::PI / Decimal::checked_sin(consts::PI * x)? * gamma(Decimal::one() - x)?)
+        consts::PI
+            .checked_div(Decimal::checked_sin(consts::PI * x)?)?
+            .checked_mul(gamma(Decimal::one() - x)?)
     } else {
         // Lanczos solve gamma for (x + 1)
         x -= Decimal::one();
diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index ed75e49..2e85a05 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -651,9 +651,9 @@ mod math_ops {
 
     pub struct ToDegreesFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_impl!(ToDegreesFunction, to_degrees, to_degrees);
+    forward_checked_func_impl!(ToDegreesFunction, checked_to_degrees, to_degrees);
     #[cfg(feature = "docs")]
-    forward_func_impl!(ToDegreesFunction, to_degrees, to_degrees, Description::ToDegrees);
+    forward_checked_func_impl!(ToDegreesFunction, checked_to_degrees, to_degrees, Description::ToDegrees);
 }
 
 mod trig_ops {
@@ -1008,7 +1008,9 @@ mod trig_ops {
         fn call(&self, args: &[Decimal]) -> Result<Decimal> {
             match args.len() {
                 1 => Ok(args[0].atan()),
-                2 => Ok(args[0].atan2(args[1])),
+                2 => args[0]
+                    .checked_atan2(args[1])
+                    .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                 _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
             }
         }
@@ -1077,9 +1079,9 @@ mod trig_ops {
     //////////////////// Inverse Hyperbolic Trigonometric ////////////////////
     pub struct ASinhFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_impl!(ASinhFunction, asinh);
+    forward_checked_func_impl!(ASinhFunction, checked_asinh, asinh);
     #[cfg(feature = "docs")]
-    forward_func_impl!(ASinhFunction, asinh, Description::ASinh);
+    forward_checked_func_impl!(ASinhFunction, checked_asinh, asinh, Description::ASinh);
 
     pub struct ACoshFunction;
     #[cfg(not(feature = "docs"))]
@@ -1095,9 +1097,9 @@ mod trig_ops {
 
     pub struct ACschFunction;
     #[cfg(not(feature = "docs"))]
-    impl_arc_trig_rec!(ACschFunction, asinh, acsch);
+    impl_checked_arc_trig_rec!(ACschFunction, checked_asinh, acsch);
     #[cfg(feature = "docs")]
-    impl_arc_trig_rec!(ACschFunction, asinh, acsch, Description::ACsch);
+    impl_checked_arc_trig_rec!(ACschFunction, checked_asinh, acsch, Description::ACsch);
 
     pub struct ASechFunction;
     #[cfg(not(feature = "docs"))]
-- 
2.43.0


From a496a86b6af472148d7564ecb996e81bd2cb557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 17/34] fix: the binary feature builds without the docs feature

---
 prexel/src/binary/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/prexel/src/binary/mod.rs b/prexel/src/binary/mod.rs
index ddecd6a..d13405c 100644
--- a/prexel/src/binary/mod.rs
+++ b/prexel/src/binary/mod.rs
@@ -122,6 +122,7 @@ pub mod math {
             Ok(Binary(!value.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise NOT of the given value.")
         }
@@ -149,6 +150,7 @@ pub mod math {
             Ok(Binary(left.0 & right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise AND of the given values.")
         }
@@ -176,6 +178,7 @@ pub mod math {
             Ok(Binary(left.0 | right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise OR of the given values.")
         }
@@ -203,6 +206,7 @@ pub mod math {
             Ok(Binary(left.0 ^ right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise XOR of the given values.")
         }
@@ -231,6 +235,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the given values are equal, 0 otherwise.")
         }
@@ -259,6 +264,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the given values are not equal, 0 otherwise.")
         }
@@ -287,6 +293,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is greater than the right value, 0 otherwise.")
         }
@@ -315,6 +322,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is less than the right value, 0 otherwise.")
         }
@@ -343,6 +351,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is greater than or equal to the right value, 0 otherwise.")
         }
@@ -371,6 +380,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is less than or equal to the right value, 0 otherwise.")
         }
@@ -398,6 +408,7 @@ pub mod math {
             Ok(Binary(left.0 >> right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the left value bits shifted right by the right value.")
         }
@@ -425,6 +436,7 @@ pub mod math {
             Ok(Binary(left.0 << right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the left value bits shifted left by the right value.")
         }
-- 
2.43.0


From 3d32aa8993d75caeabeff9bde2267d4826f52368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 18/34] fix: a binary shift by an amount out of range is
 reported instead of panicking

---
 prexel/src/binary/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/prexel/src/binary/mod.rs b/prexel/src/binary/mod.rs
index d13405c..0f43201 100644
--- a/prexel/src/binary/mod.rs
+++ b/prexel/src/binary/mod.rs
@@ -102,7 +102,9 @@ pub fn binary_number_splitter<'a>() -> DefaultSplitter<'a> {
 
 pub mod math {
     use crate::binary::Binary;
+    use crate::error::{Error, ErrorKind};
     use crate::function::{Associativity, BinaryFunction, Notation, Precedence, UnaryFunction};
+    use std::convert::TryFrom;
 
     pub struct NotFunction;
     impl UnaryFunction<Binary> for NotFunction {
@@ -405,7 +407,11 @@ pub mod math {
         }
 
         fn call(&self, left: Binary, right: Binary) -> crate::Result<Binary> {
-            Ok(Binary(left.0 >> right.0))
+            u32::try_from(right.0)
+                .ok()
+                .and_then(|n| left.0.checked_shr(n))
+                .map(Binary)
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
         #[cfg(feature = "docs")]
@@ -433,7 +439,11 @@ pub mod math {
         }
 
         fn call(&self, left: Binary, right: Binary) -> crate::Result<Binary> {
-            Ok(Binary(left.0 << right.0))
+            u32::try_from(right.0)
+                .ok()
+                .and_then(|n| left.0.checked_shl(n))
+                .map(Binary)
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
         #[cfg(feature = "docs")]
-- 
2.43.0


From de3c53468f910bfc5da5733440175a35f5d969fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 19/34] fix: binary comparisons and shifts bind tighter than
 and, xor and or

---
 prexel/src/binary/mod.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/prexel/src/binary/mod.rs b/prexel/src/binary/mod.rs
index 0f43201..e5012f7 100644
--- a/prexel/src/binary/mod.rs
+++ b/prexel/src/binary/mod.rs
@@ -141,7 +141,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(11)
+            Precedence(5)
         }
 
         fn associativity(&self) -> Associativity {
@@ -169,7 +169,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(13)
+            Precedence(3)
         }
 
         fn associativity(&self) -> Associativity {
@@ -197,7 +197,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(12)
+            Precedence(4)
         }
 
         fn associativity(&self) -> Associativity {
@@ -225,7 +225,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(10)
+            Precedence(6)
         }
 
         fn associativity(&self) -> Associativity {
@@ -254,7 +254,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(10)
+            Precedence(6)
         }
 
         fn associativity(&self) -> Associativity {
@@ -283,7 +283,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(9)
+            Precedence(7)
         }
 
         fn associativity(&self) -> Associativity {
@@ -312,7 +312,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(9)
+            Precedence(7)
         }
 
         fn associativity(&self) -> Associativity {
@@ -341,7 +341,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(9)
+            Precedence(7)
         }
 
         fn associativity(&self) -> Associativity {
@@ -370,7 +370,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(9)
+            Precedence(7)
         }
 
         fn associativity(&self) -> Associativity {
@@ -399,7 +399,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(7)
+            Precedence(9)
         }
 
         fn associativity(&self) -> Associativity {
@@ -431,7 +431,7 @@ pub mod math {
         }
 
         fn precedence(&self) -> Precedence {
-            Precedence(7)
+            Precedence(9)
         }
 
         fn associativity(&self) -> Associativity {
-- 
2.43.0


From a0eb2004824b2487fa968f4ac1c48d9def952348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 20/34] fix: a repl without history does not panic on the first
 line

---
 eval/src/collections/carray.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eval/src/collections/carray.rs b/eval/src/collections/carray.rs
index aab30bc..f5d7139 100644
--- a/eval/src/collections/carray.rs
+++ b/eval/src/collections/carray.rs
@@ -18,6 +18,10 @@ impl<T> CircularArray<T> {
     }
 
     pub fn push(&mut self, item: T) {
+        if self.cap == 0 {
+            return;
+        }
+
         if self.data.len() == self.cap {
             self.data.remove(0);
         }
-- 
2.43.0


From 6b1d505c303069d87da21eb5d442145944b7b339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 21/34] fix: subtraction of a wrapped number subtracts

---
 prexel/src/numeric_traits/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/numeric_traits/mod.rs b/prexel/src/numeric_traits/mod.rs
index 2542ae8..08858a4 100644
--- a/prexel/src/numeric_traits/mod.rs
+++ b/prexel/src/numeric_traits/mod.rs
@@ -22,7 +22,7 @@ macro_rules! impl_unchecked_num_traits_with_field {
             fn sub(self, other: Self) -> Self {
                 let x = self.$field;
                 let y = other.$field;
-                Self::from(x + y)
+                Self::from(x - y)
             }
         }
 
-- 
2.43.0


From 43c24f0f698139aa807d783d9cb1b70c7baec40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 22/34] fix: avg of more values than the type can count reports
 an overflow

---
 prexel/src/ops/checked.rs   | 5 ++++-
 prexel/src/ops/unchecked.rs | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/checked.rs b/prexel/src/ops/checked.rs
index 8dbbce1..226f0a2 100644
--- a/prexel/src/ops/checked.rs
+++ b/prexel/src/ops/checked.rs
@@ -336,8 +336,11 @@ impl<N: CheckedAdd + CheckedDiv + FromPrimitive + Clone> Function<N> for AvgFunc
 
         match sum {
             Some(n) => {
+                let count = N::from_usize(args.len())
+                    .ok_or_else(|| Error::from(ErrorKind::Overflow))?;
+
                 let result = n
-                    .checked_div(&N::from_usize(args.len()).unwrap())
+                    .checked_div(&count)
                     .ok_or_else(|| Error::from(ErrorKind::Overflow))?;
 
                 Ok(result)
diff --git a/prexel/src/ops/unchecked.rs b/prexel/src/ops/unchecked.rs
index edbabd6..f28aa41 100644
--- a/prexel/src/ops/unchecked.rs
+++ b/prexel/src/ops/unchecked.rs
@@ -256,7 +256,9 @@ impl<N: Add<N, Output = N> + Div<N, Output = N> + FromPrimitive + Clone> Functio
         }
 
         match sum {
-            Some(n) => Ok(n / N::from_usize(args.len()).unwrap()),
+            Some(n) => N::from_usize(args.len())
+                .map(|count| n / count)
+                .ok_or_else(|| Error::from(ErrorKind::Overflow)),
             None => Err(Error::from(ErrorKind::InvalidArgumentCount)),
         }
     }
-- 
2.43.0


From 41cf4ecba4a786483ca2463cbc89391a4f9170bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 23/34] fix: a function whose alias is taken is rejected
 instead of panicking

---
 prexel/src/context.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/prexel/src/context.rs b/prexel/src/context.rs
index 4147e26..f6e0065 100644
--- a/prexel/src/context.rs
+++ b/prexel/src/context.rs
@@ -187,11 +187,13 @@ impl<'a, N> DefaultContext<'a, N> {
             let func = Rc::new(func);
 
             if let Some(aliases) = func.aliases() {
-                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
-                    if self.functions.contains_key(&alias) {
-                        panic!("A function named '{}' already exists", alias);
-                    }
+                let aliases = aliases.iter().map(|s| IgnoreCaseString::from(*s)).collect::<Vec<_>>();
 
+                if let Some(alias) = aliases.iter().find(|alias| self.functions.contains_key(*alias)) {
+                    return Err(Error::new(ErrorKind::Unknown, format!("A function named '{}' already exists", alias)));
+                }
+
+                for alias in aliases {
                     self.functions.insert(alias, func.clone());
                 }
             }
@@ -216,11 +218,13 @@ impl<'a, N> DefaultContext<'a, N> {
             let func = Rc::new(func);
 
             if let Some(aliases) = func.aliases() {
-                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
-                    if self.unary_functions.contains_key(&alias) {
-                        panic!("An unary function named '{}' already exists", alias);
-                    }
+                let aliases = aliases.iter().map(|s| IgnoreCaseString::from(*s)).collect::<Vec<_>>();
+
+                if let Some(alias) = aliases.iter().find(|alias| self.unary_functions.contains_key(*alias)) {
+                    return Err(Error::new(ErrorKind::Unknown, format!("An unary function named '{}' already exists", alias)));
+                }
 
+                for alias in aliases {
                     self.unary_functions.insert(alias, func.clone());
                 }
             }
@@ -256,11 +260,13 @@ impl<'a, N> DefaultContext<'a, N> {
             let func = Rc::new(func);
 
             if let Some(aliases) = func.aliases() {
-                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
-                    if self.binary_functions.contains_key(&alias) {
-                        panic!("A binary function named '{}' already exists", alias);
-                    }
+                let aliases = aliases.iter().map(|s| IgnoreCaseString::from(*s)).collect::<Vec<_>>();
+
+                if let Some(alias) = aliases.iter().find(|alias| self.binary_functions.contains_key(*alias)) {
+                    return Err(Error::new(ErrorKind::Unknown, format!("A binary function named '{}' already exists", alias)));
+                }
 
+                for alias in aliases {
                     self.binary_functions.insert(alias, func.clone());
                 }
             }
-- 
2.43.0


From 26049da9e4cf02fe89fba6512e3596f999524f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 24/34] fix: names that differ in the case of a non-ASCII
 letter hash alike

---
 prexel/src/utils/ignore_case_str.rs    | 4 ++--
 prexel/src/utils/ignore_case_string.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/prexel/src/utils/ignore_case_str.rs b/prexel/src/utils/ignore_case_str.rs
index 2a89f6d..27b614c 100644
--- a/prexel/src/utils/ignore_case_str.rs
+++ b/prexel/src/utils/ignore_case_str.rs
@@ -84,8 +84,8 @@ impl<'a> PartialOrd for IgnoreCaseStr<'a> {
 
 impl<'a> Hash for IgnoreCaseStr<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for c in self.0.as_bytes() {
-            c.to_ascii_lowercase().hash(state);
+        for c in self.0.chars().flat_map(char::to_lowercase) {
+            c.hash(state);
         }
     }
 }
diff --git a/prexel/src/utils/ignore_case_string.rs b/prexel/src/utils/ignore_case_string.rs
index e6246cc..ade8082 100644
--- a/prexel/src/utils/ignore_case_string.rs
+++ b/prexel/src/utils/ignore_case_string.rs
@@ -92,8 +92,8 @@ impl PartialOrd for IgnoreCaseString {
 impl Hash for IgnoreCaseString {
     #[inline]
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for c in self.0.bytes() {
-            c.to_ascii_lowercase().hash(state);
+        for c in self.0.chars().flat_map(char::to_lowercase) {
+            c.hash(state);
         }
     }
 }
-- 
2.43.0


From 5e4537a41ee30580de66911a7705c2b62d2ee85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 25/34] fix: the server lists the operators, constants and
 functions of the float type

---
 prexel-server/src/endpoints/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prexel-server/src/endpoints/mod.rs b/prexel-server/src/endpoints/mod.rs
index aac1cb1..046f4ed 100644
--- a/prexel-server/src/endpoints/mod.rs
+++ b/prexel-server/src/endpoints/mod.rs
@@ -66,7 +66,7 @@ pub async fn get_operators(req: HttpRequest) -> Result<impl Responder> {
             Ok(HttpResponse::Ok().json(operators))
         }
         NumberType::Float => {
-            let context = DefaultContext::new_decimal();
+            let context = DefaultContext::<f64>::new_checked();
             let operators = services::get_operators(&context);
             Ok(HttpResponse::Ok().json(operators))
         }
@@ -100,7 +100,7 @@ pub async fn get_constants(req: HttpRequest) -> Result<impl Responder> {
             Ok(HttpResponse::Ok().json(constants))
         }
         NumberType::Float => {
-            let context = DefaultContext::new_decimal();
+            let context = DefaultContext::<f64>::new_checked();
             let constants = services::get_constants(&context);
             Ok(HttpResponse::Ok().json(constants))
         }
@@ -134,7 +134,7 @@ pub async fn get_functions(req: HttpRequest) -> Result<impl Responder> {
             Ok(HttpResponse::Ok().json(functions))
         }
         NumberType::Float => {
-            let context = DefaultContext::new_decimal();
+            let context = DefaultContext::<f64>::new_checked();
             let functions = services::get_functions(&context);
             Ok(HttpResponse::Ok().json(functions))
         }
-- 
2.43.0


From ccacfc4a1c58d38232ae600dc7520eca147e226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 26/34] fix: the rate limit counts the requests of all the
 server workers

---
 prexel-server/src/main.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/prexel-server/src/main.rs b/prexel-server/src/main.rs
index 9f64cab..2f70cbb 100644
--- a/prexel-server/src/main.rs
+++ b/prexel-server/src/main.rs
@@ -30,11 +30,14 @@ async fn main() -> std::io::Result<()> {
         .flatten()
         .unwrap_or(8000);
 
+    // The store is shared between all the workers
+    let store = MemoryStore::new();
+
     HttpServer::new(move || {
         App::new()
             .wrap(Logger::default())
             .wrap(NormalizePath::new(TrailingSlash::Trim))
-            .wrap(get_rate_limit_middleware())
+            .wrap(get_rate_limit_middleware(store.clone()))
             .wrap_fn(|mut req, srv| {
                 let has_id = get_rate_limit_identifier(&req).is_some();
                 let mut cookie: Option<Cookie> = None;
@@ -87,12 +90,10 @@ async fn main() -> std::io::Result<()> {
     .await
 }
 
-fn get_rate_limit_middleware() -> RateLimiter<MemoryStoreActor> {
+fn get_rate_limit_middleware(store: MemoryStore) -> RateLimiter<MemoryStoreActor> {
     const MAX_REQUESTS: usize = 100;
     const TIME_BETWEEN_REQUESTS: Duration = Duration::from_secs(60);
 
-    let store = MemoryStore::new();
-
     RateLimiter::new(MemoryStoreActor::from(store).start())
         .with_interval(TIME_BETWEEN_REQUESTS)
         .with_max_requests(MAX_REQUESTS)
-- 
2.43.0


From 758463318f69d1077f0e742943a8ff06d85f5978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 27/34] fix: the binary repl evaluates comparisons instead of
 rejecting them as assignments

---
 eval/src/repl/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/eval/src/repl/mod.rs b/eval/src/repl/mod.rs
index 1bfde3f..5a53291 100644
--- a/eval/src/repl/mod.rs
+++ b/eval/src/repl/mod.rs
@@ -88,7 +88,7 @@ fn eval_loop<'a, N, F>(config: ReplConfig, factory: F)
             }
 
             // Assign a variable
-            _ if expression.contains('=') => {
+            _ if is_assignment(expression, is_binary) => {
                 let parts = expression
                     .split('=')
                     .map(|s| s.trim().to_owned())
@@ -130,6 +130,16 @@ fn eval_loop<'a, N, F>(config: ReplConfig, factory: F)
     });
 }
 
+fn is_assignment(expression: &str, is_binary: bool) -> bool {
+    // The binary operators: `==`, `!=`, `>=` and `<=` are not an assignment
+    let is_comparison = is_binary
+        && ["==", "!=", ">=", "<="]
+            .iter()
+            .any(|op| expression.contains(op));
+
+    expression.contains('=') && !is_comparison
+}
+
 fn repl_tokenizer<'a, N>(is_binary: bool) -> Tokenizer<'a, N>
     where
         N: FromStr + Clone + Display + Debug + 'a,
-- 
2.43.0


From 0f21f4419cded13e5c1a8053f06f743b252961e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 28/34] fix: decimal gamma divides by gamma(1 - x) in the
 reflection formula

gamma(x) = pi / (sin(pi * x) * gamma(1 - x)); it multiplied, so in the decimal
context 1.2! was 1.4934 instead of 1.1018.
---
 prexel/src/decimal/decimal_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 7432b45..96ed511 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -596,7 +596,7 @@ fn gamma(mut x: Decimal) -> Option<Decimal> {
     if x < consts::HALF {
         consts::PI
             .checked_div(Decimal::checked_sin(consts::PI * x)?)?
-            .checked_mul(gamma(Decimal::one() - x)?)
+            .checked_div(gamma(Decimal::one() - x)?)
     } else {
         // Lanczos solve gamma for (x + 1)
         x -= Decimal::one();
-- 
2.43.0


From c6f172f64d4a718cd90816f19789fb723dd48d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:14 +0000
Subject: [PATCH 29/34] fix: decimal cube root starts from an approximation of
 the root

Starting at one, the iteration divided by zero for -2 and overflowed for
operands of 1e15 and more, so those cube roots were reported as overflow.
---
 prexel/src/decimal/decimal_ext.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 96ed511..be4dccc 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -167,7 +167,8 @@ impl DecimalExt for Decimal {
             return Some(self);
         }
 
-        let mut x = Decimal::one();
+        // Initial approximation
+        let mut x = Decimal::from_f64(self.to_f64()?.cbrt())?;
 
         // Using Newton's Method
         // See: https://en.wikipedia.org/wiki/Cube_root#Numerical_methods
-- 
2.43.0


From 0ebaab641454658d3cd5d6dd448aa1df6b7e7221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 30/34] fix: the splitter drops no second decimal point

---
 prexel/src/utils/splitter.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/prexel/src/utils/splitter.rs b/prexel/src/utils/splitter.rs
index 6ef73e2..fc7d153 100644
--- a/prexel/src/utils/splitter.rs
+++ b/prexel/src/utils/splitter.rs
@@ -223,11 +223,6 @@ pub mod rules {
     pub struct SplitNumeric;
     impl SplitRule for SplitNumeric {
         fn split(&self, c: char, rest: &mut Peekable<Chars>) -> Outcome {
-            #[inline]
-            fn is_valid_char(c: &char) -> bool {
-                matches!(c, '0'..='9' | '.')
-            }
-
             match c {
                 '0'..='9' => {
                     let mut temp = String::new();
@@ -235,12 +230,9 @@ pub mod rules {
 
                     let mut has_decimal_point = false;
 
-                    while let Some(c) = rest.next_if(is_valid_char) {
+                    // A second decimal point is left for the next token
+                    while let Some(c) = rest.next_if(|c| matches!(c, '0'..='9') || (*c == '.' && !has_decimal_point)) {
                         if c == '.' {
-                            if has_decimal_point {
-                                break;
-                            }
-
                             has_decimal_point = true;
                         }
 
-- 
2.43.0


From 03a9b497b0ed5391071825891642755ff400bb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:28 +0000
Subject: [PATCH 31/34] fix: an argument separator is never read as part of an
 operator

---
 prexel/src/utils/splitter.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/prexel/src/utils/splitter.rs b/prexel/src/utils/splitter.rs
index fc7d153..d25a9f0 100644
--- a/prexel/src/utils/splitter.rs
+++ b/prexel/src/utils/splitter.rs
@@ -276,7 +276,6 @@ pub mod rules {
                         | '>'
                         | '/'
                         | '='
-                        | ','
                 )
             }
 
@@ -303,7 +302,7 @@ pub mod rules {
         pub fn new() -> Self {
             let operators = HashSet::from([
                 '~', '`', '!', '@', '#', '$', '%', '^', '&', '*', '-', '+', '_', ':', ';', '"',
-                '\'', '|', '\\', '?', '.', '<', '>', '/', '=', ',',
+                '\'', '|', '\\', '?', '.', '<', '>', '/', '=',
             ]);
 
             SplitWithOperatorsBuilder { operators }
-- 
2.43.0


From 8928428a8e472d81eb60d1b2d687e20b86ca9d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:58 +0000
Subject: [PATCH 32/34] fix: kept whitespace does not change how an operator is
 read

---
 prexel/src/tokenizer.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index 4b0cc19..607023c 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -122,16 +122,15 @@ where
             } else if context.is_function(string) {
                 tokens.push(Token::Function(string.clone()));
             } else if context.is_binary_function(string) || context.is_unary_function(string) {
-                let prev = if pos == 0 {
-                    None
-                } else {
-                    Some(raw_tokens[pos - 1].as_str())
-                };
-                let next = if pos == raw_tokens.len() - 1 {
-                    None
-                } else {
-                    Some(raw_tokens[pos].as_str())
-                };
+                // The splitter may keep the whitespaces
+                let prev = raw_tokens[..pos]
+                    .iter()
+                    .map(String::as_str)
+                    .rfind(|s| *s != WHITESPACE);
+                let next = raw_tokens[pos + 1..]
+                    .iter()
+                    .map(String::as_str)
+                    .find(|s| *s != WHITESPACE);
 
                 if is_unary(prev, string, next, context) {
                     let operator = string.clone();
-- 
2.43.0


From a05c0824b1daf0b5db8616c0e0c1c58781d03651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:42 +0000
Subject: [PATCH 33/34] fix: a sign after a one-letter operator is not read as
 a binary operator

---
 prexel/src/tokenizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index 607023c..1b9b3e9 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -243,6 +243,8 @@ where
                 if prev_str.chars().count() == 1 {
                     let c = prev_str.chars().last().unwrap();
                     c.is_ascii_punctuation()
+                        || context.is_binary_function(prev_str)
+                        || context.is_unary_function(prev_str)
                 } else {
                     true
                 }
-- 
2.43.0


From e05a3c67e25fa4b788f42bbc3471700f36253a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:33 +0000
Subject: [PATCH 34/34] fix: a large size of the history must not abort the
 interactive tool

---
 eval/src/collections/carray.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eval/src/collections/carray.rs b/eval/src/collections/carray.rs
index f5d7139..4adc2ed 100644
--- a/eval/src/collections/carray.rs
+++ b/eval/src/collections/carray.rs
@@ -12,7 +12,8 @@ pub struct CircularArray<T> {
 impl<T> CircularArray<T> {
     pub fn new(capacity: usize) -> CircularArray<T> {
         CircularArray {
-            data: Vec::with_capacity(capacity),
+            // The room is taken as it is needed, `capacity` is only a limit
+            data: Vec::new(),
             cap: capacity
         }
     }
-- 
2.43.0

