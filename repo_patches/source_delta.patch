From 0522212297b8a752e0458cbfd9905bd1d705ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 01/13] fix: dividing by the real constant one returns the
 dividend

x / 1.0 returned the divisor, so every quotient by 1.0 was 1.0.
---
 src/arithmetics/division.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetics/division.rs b/src/arithmetics/division.rs
index d89d13f..de9dc52 100644
--- a/src/arithmetics/division.rs
+++ b/src/arithmetics/division.rs
@@ -71,7 +71,7 @@ impl Expression {
             }
             Expression::Real(real_divisor) => {
                 if real_divisor == &Symbol::real(1.0) {
-                    return divisor;
+                    return dividend;
                 }
                 if real_divisor == &Symbol::real(-1.0) {
                     return Expression::multiplication(vec![dividend, Symbol::real(-1.0).expr()]);
-- 
2.43.0


From 93b7ca999a9dd91fc5747356efa7eba047965b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 02/13] fix: dividing the integer zero by the integer zero does
 not panic

The greatest common divisor of 0 and 0 is 0, and the reduction divided by it.
---
 src/arithmetics/division.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arithmetics/division.rs b/src/arithmetics/division.rs
index de9dc52..771b947 100644
--- a/src/arithmetics/division.rs
+++ b/src/arithmetics/division.rs
@@ -13,7 +13,9 @@ impl Expression {
                 }
 
                 match &dividend {
-                    Expression::Integer(integer_dividend) => {
+                    Expression::Integer(integer_dividend)
+                        if integer_divisor != &Symbol::integer(0) =>
+                    {
                         let gcd = &Symbol::gcd(integer_divisor, integer_dividend);
                         if integer_divisor == gcd {
                             return (integer_dividend / gcd).expr();
-- 
2.43.0


From 0135f37d36b48218a4ec6c7790c56a2974913a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 03/13] fix: an integer to a negative multiple terminates

2 ^ (-1 * x) became (2 ^ -1) ^ x, which the power of power rule turned back
into 2 ^ (-1 * x), until the stack overflowed.
---
 src/exponential/power.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index 10623f0..de2dd5b 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -155,7 +155,8 @@ impl Expression {
                         }
                         if let Some(integer_exponent_factor) =
                             exponent_factors.get_one(&|factor| match factor {
-                                Expression::Integer(_) => true,
+                                /* A negative exponent builds a power, whose power leads back here */
+                                Expression::Integer(n) => !n.is_negative(),
                                 _ => false,
                             })
                         {
-- 
2.43.0


From b74c4dafb0cd99483af9a0d4aef2583c982041b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 04/13] fix: integers beyond the machine word combine with real
 constants

Multiplying, or raising, an integer that does not fit isize with a real
constant panicked (as did negating isize::MIN).
---
 src/arithmetics/multiplication.rs | 4 ++--
 src/exponential/power.rs          | 4 ++--
 src/symbols/integer.rs            | 4 ++++
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/arithmetics/multiplication.rs b/src/arithmetics/multiplication.rs
index 92d11cb..5bf03b6 100644
--- a/src/arithmetics/multiplication.rs
+++ b/src/arithmetics/multiplication.rs
@@ -60,8 +60,8 @@ impl Expression {
 
         if integer < Symbol::integer(-1) && real != Symbol::real(1.0) {
             let real_value = real.value().unwrap();
-            let integer_value = integer.value().unwrap();
-            real = Symbol::real(real_value * (integer_value * -1) as f64);
+            let integer_value = integer.opposite().to_real();
+            real = Symbol::real(real_value * integer_value);
             integer = Symbol::integer(-1);
         }
 
diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index de2dd5b..d5fa0b6 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -132,7 +132,7 @@ impl Expression {
                     }
                     /* Simplification (Integer to Real) */
                     Expression::Real(real_exponent) => {
-                        let base_value: f64 = integer_base.value().unwrap() as f64;
+                        let base_value: f64 = integer_base.to_real();
                         let exp_value: f64 = real_exponent.value().unwrap();
                         return Symbol::real(base_value.powf(exp_value)).expr();
                     }
@@ -189,7 +189,7 @@ impl Expression {
                     /* Simplification (Real to Integer) */
                     Expression::Integer(integer_exponent) => {
                         let base_value: f64 = real_base.value().unwrap();
-                        let exp_value: f64 = integer_exponent.value().unwrap() as f64;
+                        let exp_value: f64 = integer_exponent.to_real();
                         return Symbol::real(base_value.powf(exp_value)).expr();
                     }
                     /* Simplification (Real to multiplication with Integer or Real) */
diff --git a/src/symbols/integer.rs b/src/symbols/integer.rs
index 8d787b1..e7d043f 100644
--- a/src/symbols/integer.rs
+++ b/src/symbols/integer.rs
@@ -13,6 +13,10 @@ impl Symbol<BigInt> {
     pub fn value(&self) -> Option<isize> {
         num::traits::ToPrimitive::to_isize(&self.data)
     }
+    pub fn to_real(&self) -> f64 {
+        /* integers beyond the range of f64 convert to infinity */
+        num::traits::ToPrimitive::to_f64(&self.data).unwrap()
+    }
     pub fn label(&self) -> String {
         format!("{}", self.data)
     }
-- 
2.43.0


From 4d6e813fb02082986a187862be0e5f06adeee496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 05/13] fix: the logarithm of integers is an integer only when
 exact

The rounded logarithm of a large integer, such as 2^52 - 1 in base 2, was
taken for an exact one, and integers that do not fit isize panicked.
---
 src/exponential/logarithm.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/exponential/logarithm.rs b/src/exponential/logarithm.rs
index c228335..4120445 100644
--- a/src/exponential/logarithm.rs
+++ b/src/exponential/logarithm.rs
@@ -12,10 +12,13 @@ impl Expression {
             }
             Expression::Integer(integer_argument) => match &base {
                 Expression::Integer(integer_base) => {
-                    let log_result: f64 =
-                        (integer_argument.value().unwrap() as f64).log(integer_base.value().unwrap() as f64);
+                    let log_result: f64 = integer_argument.to_real().log(integer_base.to_real());
                     if (log_result as isize) as f64 == log_result {
-                        return Symbol::integer(log_result as isize).expr();
+                        /* log_result is rounded: keep it only if it is exact */
+                        let exponent = Symbol::integer(log_result as isize);
+                        if integer_base.pow(&exponent).as_ref() == Some(integer_argument) {
+                            return exponent.expr();
+                        }
                     }
                 }
                 _ => {}
-- 
2.43.0


From 2411e362850d880a5356b86248d0fcdb475b3e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 06/13] fix: collecting equal addends keeps coefficients of any
 size

Coefficients went through isize: larger ones panicked, and their sums
overflowed.
---
 .../factoring/additive_common_addend.rs         | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
index 1c54e1e..0f2a403 100644
--- a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
+++ b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
@@ -2,6 +2,7 @@ use crate::base::expression::Expression;
 use crate::base::symbol::Symbol;
 use crate::manipulation::simplification_rules::rule::Rule;
 
+use num::bigint::BigInt;
 use std::collections::HashMap;
 
 pub struct AdditiveCommonAddend {}
@@ -9,12 +10,12 @@ impl Rule for AdditiveCommonAddend {
     fn apply(expression: &Expression) -> Expression {
         match expression {
             Expression::Addition(addends) => {
-                let mut addend_count_list: HashMap<Expression, isize> = HashMap::new();
+                let mut addend_count_list: HashMap<Expression, Symbol<BigInt>> = HashMap::new();
 
                 fn update_addend_list(
-                    mapping: &mut HashMap<Expression, isize>,
+                    mapping: &mut HashMap<Expression, Symbol<BigInt>>,
                     addend: &Expression,
-                    counter: isize,
+                    counter: Symbol<BigInt>,
                 ) {
                     let opposite = &-addend;
 
@@ -45,26 +46,26 @@ impl Rule for AdditiveCommonAddend {
                                     update_addend_list(
                                         &mut addend_count_list,
                                         &Expression::multiplication(remaining_factors),
-                                        integer.value().unwrap(),
+                                        integer,
                                     );
                                 }
 
                                 /* No Integer factor in multiplication */
                                 _ => {
-                                    update_addend_list(&mut addend_count_list, addend, 1);
+                                    update_addend_list(&mut addend_count_list, addend, Symbol::integer(1));
                                 }
                             };
                         }
                         /* Not multiplication */
                         _ => {
-                            update_addend_list(&mut addend_count_list, addend, 1);
+                            update_addend_list(&mut addend_count_list, addend, Symbol::integer(1));
                         }
                     }
                 }
                 let addends: Vec<Expression> = addend_count_list
                     .iter()
-                    .filter(|&(_, counter)| counter != &0)
-                    .map(|(expression, counter)| Symbol::integer(*counter).expr() * expression)
+                    .filter(|&(_, counter)| counter != &Symbol::integer(0))
+                    .map(|(expression, counter)| counter.clone().expr() * expression)
                     .collect();
 
                 return Expression::addition(addends);
-- 
2.43.0


From ba57e9a909a584d9f11da6f7fc23783cda693255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 07/13] fix: expanding a sum to an exponent beyond the machine
 word does not panic

Such a power cannot be written out as a product and is kept as it is.
---
 .../expansion_rules/power_distributive_addition.rs          | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/manipulation/expansion_rules/power_distributive_addition.rs b/src/manipulation/expansion_rules/power_distributive_addition.rs
index 4513cff..4e3e68f 100644
--- a/src/manipulation/expansion_rules/power_distributive_addition.rs
+++ b/src/manipulation/expansion_rules/power_distributive_addition.rs
@@ -15,7 +15,11 @@ impl Rule for PowerDistributiveAddition {
                 Expression::Addition(_) => match power.modifier() {
                     /* Single Integer exponent */
                     Expression::Integer(integer_exponent) => {
-                        let exponent = integer_exponent.value().unwrap();
+                        let exponent = match integer_exponent.value() {
+                            Some(exponent) if exponent > isize::MIN => exponent,
+                            /* too large to be written out */
+                            _ => return expression.clone(),
+                        };
                         let mut factors: Vec<Expression> = Vec::new();
 
                         for _ in 0..exponent.abs() {
-- 
2.43.0


From 526a018d8d43e4d0f31a267235e945fac6303594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 08/13] fix: infinite real constants compare in the right order

partial_cmp placed infinity below every number and minus infinity above, and
did not agree with the equality of two equal infinities.
---
 src/symbols/real.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/symbols/real.rs b/src/symbols/real.rs
index 1a90303..440fcb4 100644
--- a/src/symbols/real.rs
+++ b/src/symbols/real.rs
@@ -50,9 +50,7 @@ impl Ord for Symbol<f64> {
 }
 impl PartialOrd for Symbol<f64> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        let both_nan = self.data == std::f64::NAN || other.data == std::f64::NAN;
-        let both_ninf = self.data == std::f64::NEG_INFINITY && other.data == std::f64::NEG_INFINITY;
-        let both_inf = self.data == std::f64::INFINITY && other.data == std::f64::INFINITY;
+        let any_nan = self.data.is_nan() || other.data.is_nan();
 
         let first_ninf =
             self.data == std::f64::NEG_INFINITY && other.data != std::f64::NEG_INFINITY;
@@ -62,7 +60,7 @@ impl PartialOrd for Symbol<f64> {
         let first_inf = self.data == std::f64::INFINITY && other.data != std::f64::INFINITY;
         let second_inf = other.data == std::f64::INFINITY && self.data != std::f64::INFINITY;
 
-        if both_nan || both_inf || both_ninf {
+        if any_nan {
             return None;
         }
 
@@ -71,7 +69,7 @@ impl PartialOrd for Symbol<f64> {
         }
 
         if first_inf || second_ninf {
-            return Some(std::cmp::Ordering::Less);
+            return Some(std::cmp::Ordering::Greater);
         }
 
         Some(self.cmp(other))
-- 
2.43.0


From 8120e664ed0d2aa2c95dbe700ddd35cc6a8a3ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 09/13] fix: the two real zeros hash equally

0.0 and -0.0 are equal, but their hashes differed by the sign.
---
 src/symbols/real.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/symbols/real.rs b/src/symbols/real.rs
index 440fcb4..8ca16bc 100644
--- a/src/symbols/real.rs
+++ b/src/symbols/real.rs
@@ -21,7 +21,9 @@ impl Symbol<f64> {
 use std::hash::{Hash, Hasher};
 impl Hash for Symbol<f64> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        let (m, e, s) = num::Float::integer_decode(self.data);
+        /* both zeros are equal, and must hash equally */
+        let data = if self.data == 0.0 { 0.0 } else { self.data };
+        let (m, e, s) = num::Float::integer_decode(data);
         m.hash(state);
         e.hash(state);
         s.hash(state);
-- 
2.43.0


From e4e439363c4638d35281bd55f8c1fb8dda8155ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 10/13] fix: merging reciprocals with compound exponents keeps
 their value

c * b ^ (-3 * x) became c * (b ^ 3 * x) ^ -1: only the integer was taken as
the exponent and x was left as a factor.
---
 .../factoring/single_algebraic_denominator.rs       | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs b/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
index 2aea09d..bfa3dc5 100644
--- a/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
+++ b/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
@@ -30,17 +30,8 @@ impl Rule for SingleAlgebraicDenominator {
                             Expression::Integer(n) => {
                                 return power.argument().pow((n * Symbol::integer(-1)).expr())
                             }
-                            Expression::Multiplication(power_factors) => {
-                                return Expression::multiplication(power_factors.map(&|factor| {
-                                    match factor {
-                                        Expression::Integer(n) => {
-                                            return power
-                                                .argument()
-                                                .pow((n * Symbol::integer(-1)).expr())
-                                        }
-                                        _ => return factor.clone(),
-                                    }
-                                }))
+                            Expression::Multiplication(_) => {
+                                return power.argument().pow(-power.modifier())
                             }
                             _ => return denominator.clone(),
                         },
-- 
2.43.0


From 62379cb03235f770815a98e8887f0ae88c92c3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 11/13] fix: a sum with the real constant minus one keeps a
 single integer

---
 src/arithmetics/addition.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arithmetics/addition.rs b/src/arithmetics/addition.rs
index 62e070b..325b9d1 100644
--- a/src/arithmetics/addition.rs
+++ b/src/arithmetics/addition.rs
@@ -45,6 +45,12 @@ impl Expression {
             }
         }
 
+        /* the opposite of the real one is written as an integer: keep a single integer */
+        if real == Symbol::real(-1.0) {
+            integer = integer - Symbol::integer(1);
+            real = Symbol::real(0.0);
+        }
+
         if integer < Symbol::integer(0) {
             items_vec.push(Expression::multiplication(vec![
                 Symbol::integer(-1).expr(),
-- 
2.43.0


From 23897b3b1fb191777bd814251a8cf3deeedbf8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 12/13] fix: real factors whose product vanishes give zero, not
 a product with the constant zero

---
 src/arithmetics/multiplication.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arithmetics/multiplication.rs b/src/arithmetics/multiplication.rs
index 5bf03b6..c0c567f 100644
--- a/src/arithmetics/multiplication.rs
+++ b/src/arithmetics/multiplication.rs
@@ -58,6 +58,11 @@ impl Expression {
             }
         }
 
+        /* real factors too small to be told from zero together */
+        if real == Symbol::real(0.0) {
+            return Symbol::integer(0).expr();
+        }
+
         if integer < Symbol::integer(-1) && real != Symbol::real(1.0) {
             let real_value = real.value().unwrap();
             let integer_value = integer.opposite().to_real();
-- 
2.43.0


From cbd85da2b9280d101f50a72bc6e454a56bed2520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:09 +0000
Subject: [PATCH 13/13] fix: equal real constants are shown alike (the zero
 without its sign)

---
 src/symbols/real.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/symbols/real.rs b/src/symbols/real.rs
index 8ca16bc..54d07ac 100644
--- a/src/symbols/real.rs
+++ b/src/symbols/real.rs
@@ -11,7 +11,9 @@ impl Symbol<f64> {
         Some(self.data)
     }
     pub fn label(&self) -> String {
-        format!("{}", self.data)
+        /* both zeros are equal, and must be shown alike */
+        let data = if self.data == 0.0 { 0.0 } else { self.data };
+        format!("{}", data)
     }
     pub fn expr(self) -> Expression {
         Expression::Real(self)
-- 
2.43.0

