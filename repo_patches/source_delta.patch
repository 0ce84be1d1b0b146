From 2140aafeae7512597b1f2984adf12454a4582ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:07 +0000
Subject: [PATCH 01/40] fix: power_iu returns 1 for a zero exponent and the
 base for exponent one

The zero-exponent case shared the branch of a zero base and answered 0, and
the exponent-one case answered the exponent instead of the base.
---
 projects/sm-algorithm/src/basic/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 4f12eab..74364d9 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -3,7 +3,6 @@ use crate::{
     Result,
 };
 use num::{
-    bigint::Sign,
     integer::{gcd, ExtendedGcd},
     traits::Pow,
     BigInt, BigUint, Integer, One, ToPrimitive, Zero,
@@ -13,14 +12,14 @@ pub fn power_iu(a: &BigInt, b: &BigUint) -> Result<BigInt> {
     if a.is_zero() && b.is_zero() {
         return Err(Indeterminate);
     }
-    else if a.is_zero() || b.is_zero() {
+    else if a.is_zero() {
         return Ok(BigInt::zero());
     }
-    else if a.is_one() {
+    else if a.is_one() || b.is_zero() {
         return Ok(BigInt::one());
     }
     else if b.is_one() {
-        return Ok(BigInt::from_biguint(Sign::Plus, b.clone()));
+        return Ok(a.clone());
     }
     match b.to_u32() {
         None => Err(OverFlow),
-- 
2.43.0


From ebf4f4ab5c58d738ad0b728e8a6c396b6862bf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:07 +0000
Subject: [PATCH 02/40] fix: modulo_division uses the Bezout coefficient of the
 divisor

It multiplied by the coefficient of the modulus, so 42/32 mod 98 gave 21
although 32*21 is 84 mod 98.
---
 projects/sm-algorithm/src/basic/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 74364d9..7001b95 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -69,8 +69,8 @@ fn test_modulo_inverse() {
 /// division in modulo
 /// $bx \equiv a \pmod{m}$
 pub fn modulo_division(a: &BigInt, b: &BigInt, m: &BigInt) -> Option<BigInt> {
-    let ExtendedGcd { gcd, x: _, y, .. } = b.extended_gcd(m);
-    if (a % &gcd).is_zero() { Some(a / &gcd * y) } else { None }
+    let ExtendedGcd { gcd, x, .. } = b.extended_gcd(m);
+    if (a % &gcd).is_zero() { Some(a / &gcd * x) } else { None }
 }
 
 #[test]
-- 
2.43.0


From 95e4738306e8e67547b981d1c2b5678fc8fda1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:07 +0000
Subject: [PATCH 03/40] fix: chinese_remainder accepts an empty system

Popping from the empty digit list panicked.
---
 projects/sm-algorithm/src/basic/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 7001b95..19abe9d 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -95,7 +95,7 @@ pub fn chinese_remainder(u: &[BigInt], m: &[BigInt]) -> Option<BigInt> {
         let t = v.iter().zip(m.iter()).rev().fold(BigInt::zero(), |t, (v_j, m_j)| m_j * t + v_j % m_i);
         v.push((u_i - t) * c_i % m_i);
     }
-    let mut ret = v.pop().unwrap();
+    let mut ret = v.pop().unwrap_or_else(BigInt::zero);
     for (v_i, m_i) in v.iter().zip(m.iter()).rev() {
         ret = ret * m_i + v_i;
     }
-- 
2.43.0


From 25a01f9e13c39041b6ed14118ae166e01dce4aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:07 +0000
Subject: [PATCH 04/40] fix: fibonacci_i handles negative indices

A negative index was reinterpreted as a huge unsigned one, and the sign was
applied to the unsigned value, whose negation panics.
---
 projects/sm-algorithm/src/linear/fibonacci.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-algorithm/src/linear/fibonacci.rs b/projects/sm-algorithm/src/linear/fibonacci.rs
index 84d6206..e38c806 100644
--- a/projects/sm-algorithm/src/linear/fibonacci.rs
+++ b/projects/sm-algorithm/src/linear/fibonacci.rs
@@ -5,8 +5,8 @@ use std::collections::BTreeMap;
 pub fn fibonacci_i(n: &BigInt) -> Result<BigInt> {
     match n.to_isize() {
         Some(s) => {
-            let u = fibonacci_fast_u(s as usize);
-            if s < 0 && s.is_even() { Ok(BigInt::from(-u)) } else { Ok(BigInt::from(u)) }
+            let u = fibonacci_fast_u(s.unsigned_abs());
+            if s < 0 && s.is_even() { Ok(-BigInt::from(u)) } else { Ok(BigInt::from(u)) }
         }
         None => Err(OverFlow),
     }
-- 
2.43.0


From 1402c06121b7e1eab93ab367219dca1a2e603a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:07 +0000
Subject: [PATCH 05/40] fix: prime_sum_u64(0) is 0 instead of a panic

---
 projects/sm-algorithm/src/prime/prime_sum.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/sm-algorithm/src/prime/prime_sum.rs b/projects/sm-algorithm/src/prime/prime_sum.rs
index 28cf76a..a05ba0b 100644
--- a/projects/sm-algorithm/src/prime/prime_sum.rs
+++ b/projects/sm-algorithm/src/prime/prime_sum.rs
@@ -12,6 +12,7 @@ use std::{collections::BTreeMap, str::FromStr};
 
 #[rustfmt::skip]
 pub fn prime_sum_u64(n: u64) -> u64 {
+    if n == 0 { return 0; }
     let r = n.sqrt() as u64;
     assert!(r * r <= n && (r + 1).pow(2) > n);
     let mut v = (1..=r).map(|i| n / i).collect_vec();
-- 
2.43.0


From 5dd278aeb409d87db8726743c0cdbf2cf0e7a6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:07 +0000
Subject: [PATCH 06/40] fix: prime sums no longer overflow above about 6e9

The partial sums of all integers were kept in u64: from n = 6074001000 on
that panicked (debug) or gave a wrong sum (release), and prime_sum_i could
not represent sums above u64::MAX at all.
---
 projects/sm-algorithm/src/prime/prime_sum.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/projects/sm-algorithm/src/prime/prime_sum.rs b/projects/sm-algorithm/src/prime/prime_sum.rs
index a05ba0b..62bb9b0 100644
--- a/projects/sm-algorithm/src/prime/prime_sum.rs
+++ b/projects/sm-algorithm/src/prime/prime_sum.rs
@@ -12,12 +12,19 @@ use std::{collections::BTreeMap, str::FromStr};
 
 #[rustfmt::skip]
 pub fn prime_sum_u64(n: u64) -> u64 {
+    prime_sum_u128(n).to_u64().expect("the sum of the primes overflows u64")
+}
+
+#[rustfmt::skip]
+pub fn prime_sum_u128(n: u64) -> u128 {
     if n == 0 { return 0; }
-    let r = n.sqrt() as u64;
+    // the sums of integers below overflow u64 long before the sum of primes does
+    let n = n as u128;
+    let r = n.sqrt() as u128;
     assert!(r * r <= n && (r + 1).pow(2) > n);
     let mut v = (1..=r).map(|i| n / i).collect_vec();
     v.extend((0..*v.last().unwrap()).rev());
-    let mut s: BTreeMap<u64, u64> = v.iter().copied().map(|i| (i, ((i + 1) * i / 2).wrapping_sub(1))).collect();
+    let mut s: BTreeMap<u128, u128> = v.iter().copied().map(|i| (i, ((i + 1) * i / 2).wrapping_sub(1))).collect();
     for p in 2..=r {
         if s[&p] > s[&(p - 1)] {
             // p is prime
@@ -79,7 +86,7 @@ pub fn prime_sum_i(n: &BigInt) -> Result<BigInt> {
     }
     return match n.to_u64() {
         None => Err(Unimplemented),
-        Some(s) => Ok(BigInt::from(prime_sum_u64(s))),
+        Some(s) => Ok(BigInt::from(prime_sum_u128(s))),
     };
 }
 
-- 
2.43.0


From 8369b77666b6e7228d2f82f326e07af4594f1ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:55 +0000
Subject: [PATCH 07/40] fix: an exponent out of range is an overflow, not the
 base

2^99999999999999999999 evaluated to 2.
---
 projects/sm-ast/src/evaluate/forward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 0d508b1..930728c 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -94,7 +94,7 @@ fn evaluate_multiplicative(vec: &[AST], _: &mut Context) -> S {
 fn evaluate_power(vec: &[AST], _: &mut Context) -> S {
     let out = match vec {
         [AST::Integer(lhs), AST::Integer(rhs)] => match rhs.to_u64() {
-            None => AST::Integer(lhs.clone()),
+            None => return Err(SMError::Overflow),
             Some(s) => AST::Integer(lhs.pow(s)),
         },
         _ => {
-- 
2.43.0


From e865c460c392236a3f37b01d8b995c523e18c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:55 +0000
Subject: [PATCH 08/40] fix: evaluate the infix sum

The parser names the infix operator add, the evaluator only knew plus, so
1+1 was reported as unimplemented.
---
 projects/sm-ast/src/evaluate/forward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 930728c..493c83f 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -61,7 +61,7 @@ fn evaluate_function(f: &Symbol, p: Parameter, ctx: &mut Context) -> S {
         "length" => internal::length(&args[0])?,
         "factorial" => internal::factorial(&args[0])?,
         "fibonacci" => internal::fibonacci(&args[0])?,
-        "plus" => evaluate_additive(&args, ctx)?,
+        "plus" | "add" => evaluate_additive(&args, ctx)?,
         "times" => evaluate_multiplicative(&args, ctx)?,
         "power" => evaluate_power(&args, ctx)?,
         _ => {
-- 
2.43.0


From 8170e377145f7e66e14203d108be57de1430e9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:55 +0000
Subject: [PATCH 09/40] fix: Runner::last reports a missing output instead of
 panicking

It panicked before the first input and after every input that failed; in the
playground that poisoned the session.
---
 projects/sm-ast/src/evaluate/traits.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/sm-ast/src/evaluate/traits.rs b/projects/sm-ast/src/evaluate/traits.rs
index e50dba7..5296119 100644
--- a/projects/sm-ast/src/evaluate/traits.rs
+++ b/projects/sm-ast/src/evaluate/traits.rs
@@ -1,4 +1,4 @@
-use crate::{parser::ParserSettings, Runner, SMResult, AST};
+use crate::{parser::ParserSettings, Runner, SMError, SMResult, AST};
 
 impl Default for Runner {
     fn default() -> Self {
@@ -29,7 +29,9 @@ impl Runner {
     }
 
     pub fn last(&self) -> SMResult<AST> {
-        let o = self.ctx.outputs.get(&self.ctx.index).unwrap();
-        Ok(o.clone())
+        match self.ctx.outputs.get(&self.ctx.index) {
+            Some(o) => Ok(o.clone()),
+            None => Err(SMError::EmptyContainer(String::from("The last input has no output"))),
+        }
     }
 }
-- 
2.43.0


From 0d05728d4ac08fda7e13410545b5a9c7c93c8eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:55 +0000
Subject: [PATCH 10/40] fix: length of a string counts characters, as first and
 last do

---
 projects/sm-ast/src/internal/list_like.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/internal/list_like.rs b/projects/sm-ast/src/internal/list_like.rs
index d367693..fecf1cf 100644
--- a/projects/sm-ast/src/internal/list_like.rs
+++ b/projects/sm-ast/src/internal/list_like.rs
@@ -18,7 +18,7 @@ pub fn head(expr: &AST) -> AST {
 
 pub fn length(expr: &AST) -> SMResult<AST> {
     match expr {
-        AST::String(s) => Ok(AST::integer(s.len())),
+        AST::String(s) => Ok(AST::integer(s.chars().count())),
         _ => unimplemented!(),
     }
 }
-- 
2.43.0


From 47b20cb5adfaa255400ddd6919a7a6907be48d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:55 +0000
Subject: [PATCH 11/40] fix: factorial and fibonacci decline what they cannot
 compute

A decimal argument was returned unchanged as the result (2.5! was 2.5), and any
other argument panicked.
---
 projects/sm-ast/src/internal/elementary.rs    | 8 +++-----
 projects/sm-ast/src/internal/number_theory.rs | 5 ++---
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/projects/sm-ast/src/internal/elementary.rs b/projects/sm-ast/src/internal/elementary.rs
index 6ef050b..9712d36 100644
--- a/projects/sm-ast/src/internal/elementary.rs
+++ b/projects/sm-ast/src/internal/elementary.rs
@@ -1,4 +1,4 @@
-use crate::{SMResult, AST};
+use crate::{SMError, SMResult, AST};
 use sm_algorithm::{factorial_i, fibonacci_i};
 
 pub fn sqrt(expr: &AST) -> SMResult<AST> {
@@ -63,16 +63,14 @@ pub fn log10(expr: &AST) -> SMResult<AST> {
 pub fn factorial(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(factorial_i(n)?)),
-        AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
 pub fn fibonacci(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(fibonacci_i(n)?)),
-        AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
diff --git a/projects/sm-ast/src/internal/number_theory.rs b/projects/sm-ast/src/internal/number_theory.rs
index 3518111..acd8dec 100644
--- a/projects/sm-ast/src/internal/number_theory.rs
+++ b/projects/sm-ast/src/internal/number_theory.rs
@@ -1,4 +1,4 @@
-use crate::{SMResult, AST};
+use crate::{SMError, SMResult, AST};
 use sm_algorithm::prime_sum_i;
 
 pub fn floor(expr: &AST) -> SMResult<AST> {
@@ -40,7 +40,6 @@ pub fn factor_integer(expr: &AST) -> SMResult<AST> {
 pub fn prime_sum(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(prime_sum_i(n)?)),
-        AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
-- 
2.43.0


From 426253f368699a36f6bce43a027ab50ffadb0d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:55 +0000
Subject: [PATCH 12/40] fix: evaluation declines unsupported calls instead of
 panicking

first(1), first() and the empty input panicked; in the playground that poisoned
the session.
---
 projects/sm-ast/src/ast/traits.rs         | 2 +-
 projects/sm-ast/src/evaluate/forward.rs   | 3 +++
 projects/sm-ast/src/internal/list_like.rs | 8 ++++----
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 92a523f..608fa04 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -13,7 +13,7 @@ use std::{
 impl Display for AST {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self {
-            AST::EmptyStatement => unimplemented!(),
+            AST::EmptyStatement => write!(f, ""),
             AST::Program(_) => unimplemented!(),
             AST::Function(s, ps) => {
                 match &s.kind {
diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 493c83f..d29bd86 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -55,6 +55,9 @@ impl AST {
 // }
 fn evaluate_function(f: &Symbol, p: Parameter, ctx: &mut Context) -> S {
     let args = p.arguments;
+    if args.is_empty() {
+        return Err(SMError::Unimplemented(unimplemented_function!()));
+    }
     let out = match f.name.as_str() {
         "first" => internal::first(&args[0])?,
         "last" => internal::last(&args[0])?,
diff --git a/projects/sm-ast/src/internal/list_like.rs b/projects/sm-ast/src/internal/list_like.rs
index fecf1cf..c6923b7 100644
--- a/projects/sm-ast/src/internal/list_like.rs
+++ b/projects/sm-ast/src/internal/list_like.rs
@@ -1,4 +1,4 @@
-use crate::{error::SMError::EmptyContainer, SMResult, AST};
+use crate::{error::SMError::EmptyContainer, SMError, SMResult, AST};
 
 pub fn head(expr: &AST) -> AST {
     match expr {
@@ -19,7 +19,7 @@ pub fn head(expr: &AST) -> AST {
 pub fn length(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::String(s) => Ok(AST::integer(s.chars().count())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
@@ -29,7 +29,7 @@ pub fn first(expr: &AST) -> SMResult<AST> {
             None => Err(EmptyContainer(String::from("Can't call `first` on empty string"))),
             Some(s) => Ok(AST::string(s)),
         },
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
@@ -39,7 +39,7 @@ pub fn last(expr: &AST) -> SMResult<AST> {
             None => Err(EmptyContainer(String::from("Can't call `last` on empty string"))),
             Some(s) => Ok(AST::string(s)),
         },
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
-- 
2.43.0


From 0f5d5bf6f40b823a9e756c311edc59d8355aed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:55 +0000
Subject: [PATCH 13/40] fix: null is the symbol Null of std::constant

A missing colon made it the symbol constant:Null of std.
---
 projects/sm-ast/src/parser/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index df9e5df..414eca1 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -382,7 +382,7 @@ impl ParserSettings {
 
     fn parse_special(&self, pairs: Pair<Rule>) -> AST {
         match pairs.as_str() {
-            "null" => AST::symbol("std::constant:Null"),
+            "null" => AST::symbol("std::constant::Null"),
             "true" => AST::Boolean(true),
             "false" => AST::Boolean(false),
             _ => unreachable!(),
-- 
2.43.0


From 0630a9354a2976b3a74a36fc343eefc664209f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:55 +0000
Subject: [PATCH 14/40] fix: a byte literal may start with an underscore

The grammar accepts 0x_F, the number parser does not: it panicked.
---
 projects/sm-ast/src/parser/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 414eca1..af72cf5 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -364,7 +364,7 @@ impl ParserSettings {
             _ => unreachable!(),
         };
         // It is impossible to get `from_str_radix` errors due to the constraints of the parser
-        let i = BigInt::from_str_radix(&s[2..s.len()], base).unwrap();
+        let i = BigInt::from_str_radix(&s[2..s.len()].replace("_", ""), base).unwrap();
         return AST::Integer(i);
     }
 
-- 
2.43.0


From 2abb384cb272bdb00f8853335a68f5d2fcd8e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:55 +0000
Subject: [PATCH 15/40] fix: every operand the grammar allows in an implicit
 product

2 sin(x), 2 1.5 and 2 0x1 were accepted by the grammar and then panicked.
---
 projects/sm-ast/src/parser/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index af72cf5..6fec818 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -178,6 +178,9 @@ impl ParserSettings {
                 Rule::Integer => {
                     stack.push(self.parse_integer(pair));
                 }
+                Rule::Decimal => stack.push(self.parse_decimal(pair)),
+                Rule::Byte => stack.push(self.parse_byte(pair)),
+                Rule::apply_call => stack.push(self.parse_apply_call(pair)),
                 _ => debug_cases!(pair),
             };
         }
-- 
2.43.0


From a41a6467ca3b9407e51db57f0f3929632502fd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:55 +0000
Subject: [PATCH 16/40] fix: numbered slot sequences

##1 was accepted by the grammar and then panicked.
---
 projects/sm-ast/src/parser/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 6fec818..075afb4 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -347,7 +347,7 @@ impl ParserSettings {
         for pair in pairs.into_inner() {
             match pair.as_rule() {
                 Rule::SYMBOL => slot.push(AST::string(pair.as_str())),
-                Rule::Integer => {
+                Rule::Positive | Rule::Integer => {
                     let i = BigInt::from_str(pair.as_str()).unwrap();
                     slot.push(AST::integer(i))
                 }
-- 
2.43.0


From 1d91cc1f3bc8c1b2e905248fb76d6ccadcf3a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:55 +0000
Subject: [PATCH 17/40] fix: fractional digits of a decimal may start with
 zeros

1.05 was split into 1.0 and 5, an implicit product, which panicked.
---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 8fc32f0..6f77739 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -146,7 +146,7 @@ Step = {expr}
 /*====================================================================================================================*/
 //!#D19A66: Integer|Decimal|Byte
 Number  = _{Byte|Decimal|Integer}
-Decimal = ${Integer ~ Dot ~ Integer}
+Decimal = ${Integer ~ Dot ~ ASCII_DIGIT+}
 Integer = @{"0"|Positive}
 Byte    = ${
     ^"0b" ~ (Underline? ~ ASCII_BIN_DIGIT)+
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index b3de4f1..aaca773 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -500,7 +500,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Decimal(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::Decimal, |state| state.sequence(|state| self::Integer(state).and_then(|state| self::Dot(state)).and_then(|state| self::Integer(state)))))
+                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::Decimal, |state| state.sequence(|state| self::Integer(state).and_then(|state| self::Dot(state)).and_then(|state| self::ASCII_DIGIT(state)).and_then(|state| state.repeat(|state| self::ASCII_DIGIT(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From fc62a2e04854a5f366049468b47e9ba393919167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:55 +0000
Subject: [PATCH 18/40] =?UTF-8?q?fix:=20=C3=97=20and=20=C3=B7=20are=20the?=
 =?UTF-8?q?=20operators=20*=20and=20/?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The grammar reads them as the same tokens, but the tree named them after their
spelling.
---
 projects/sm-ast/src/parser/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-ast/src/parser/ops.rs b/projects/sm-ast/src/parser/ops.rs
index 51dda46..b518660 100644
--- a/projects/sm-ast/src/parser/ops.rs
+++ b/projects/sm-ast/src/parser/ops.rs
@@ -34,8 +34,8 @@ pub fn infix_map(text: &str) -> Symbol {
     let (n, p) = match text {
         "+" => ("add", 80),
         "-" => ("subtract", 80),
-        "*" => ("times", 140),
-        "/" => ("divide", 140),
+        "*" | "×" => ("times", 140),
+        "/" | "÷" => ("divide", 140),
         "//" => ("quotient", 140),
         "^" => ("power", 150),
         _ => (text, 170),
-- 
2.43.0


From 359e3f7234e4cb2ff5a740588a03114be50e899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 19/40] fix: every infix operator of the grammar has a
 precedence

An expression was silently cut off at an operator without one: 5%3 and 1>2
parsed, and evaluated, as 5 and 1.
---
 projects/sm-ast/src/parser/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/mod.rs b/projects/sm-ast/src/parser/mod.rs
index 67a130a..62ec3a3 100644
--- a/projects/sm-ast/src/parser/mod.rs
+++ b/projects/sm-ast/src/parser/mod.rs
@@ -12,14 +12,25 @@ pub struct ParserSettings {
 
 /// Determines the associativity and priority of operators
 /// use Precedence in Mathematica
-pub const OPERATORS: &[(Rule, u32, Assoc); 7] = &[
+pub const OPERATORS: &[(Rule, u32, Assoc); 16] = &[
+    // set: a = b
+    (Rule::Set, 40, Assoc::Right),
+    //
+    (Rule::Grater, 290, Assoc::Left),
+    (Rule::GraterEqual, 290, Assoc::Left),
+    (Rule::Equal, 290, Assoc::Left),
     // plus : a + b
     // minus: a - b
     (Rule::Plus, 310, Assoc::Left),
     (Rule::Minus, 310, Assoc::Left),
     //
     (Rule::Multiply, 400, Assoc::Left),
+    (Rule::CenterDot, 410, Assoc::Left),
+    (Rule::Kronecker, 420, Assoc::Left),
     (Rule::Divide, 470, Assoc::Left),
+    (Rule::Quotient, 470, Assoc::Left),
+    (Rule::Modulo, 470, Assoc::Left),
+    (Rule::TensorProduct, 520, Assoc::Left),
     //
     (Rule::Power, 590, Assoc::Right),
     // @
-- 
2.43.0


From 7f747889925e0c29e2fa34c27c6349abd01dfb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 20/40] fix: printed expressions keep the brackets they need

2-(3-4), (2^3)^2, -(1+2), (1+2)!, (-2)! and (2*3)/4 were printed without
brackets, that is as different expressions.
---
 projects/sm-ast/src/ast/traits.rs | 18 ++++++++++++++----
 projects/sm-ast/src/parser/ops.rs |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 608fa04..01dce53 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -21,14 +21,17 @@ impl Display for AST {
                     SymbolKind::Alias => unimplemented!(),
                     SymbolKind::Prefix(o) => {
                         if is_unary(ps) {
-                            return write!(f, "{0}{1}", o, ps[0].arguments[0]);
+                            let arg = &ps[0].arguments[0];
+                            return if arg.precedence() < 255 { write!(f, "{0}({1})", o, arg) } else { write!(f, "{0}{1}", o, arg) };
                         }
                     }
                     SymbolKind::Infix(o, p) => {
                         if is_multiary(ps) {
                             let mut v = vec![];
-                            for arg in &ps[0].arguments {
-                                if arg.precedence() < *p { v.push(format!("({})", arg)) } else { v.push(format!("{}", arg)) }
+                            // the operand that associates with the operator needs no brackets at equal precedence
+                            let bare = if o.as_ref() == "^" { ps[0].arguments.len() - 1 } else { 0 };
+                            for (i, arg) in ps[0].arguments.iter().enumerate() {
+                                if arg.precedence() < *p || (arg.precedence() == *p && i != bare) { v.push(format!("({})", arg)) } else { v.push(format!("{}", arg)) }
                             }
                             // let j = if o.as_ref() == "*" { v.join(" ") } else { v.join(&format!(" {} ", o)) };
                             return write!(f, "{0}", v.join(o));
@@ -36,7 +39,8 @@ impl Display for AST {
                     }
                     SymbolKind::Suffix(o) => {
                         if is_unary(ps) {
-                            return write!(f, "{1}{0}", o, ps[0].arguments[0]);
+                            let arg = &ps[0].arguments[0];
+                            return if arg.is_operator() { write!(f, "({1}){0}", o, arg) } else { write!(f, "{1}{0}", o, arg) };
                         }
                     }
                 }
@@ -113,6 +117,12 @@ impl AST {
         }
         return 255;
     }
+    pub(crate) fn is_operator(&self) -> bool {
+        match self {
+            AST::Function(s, ..) => s.is_prefix() || s.is_infix() || s.is_suffix(),
+            _ => false,
+        }
+    }
 }
 
 #[allow(dead_code)]
diff --git a/projects/sm-ast/src/parser/ops.rs b/projects/sm-ast/src/parser/ops.rs
index b518660..553f058 100644
--- a/projects/sm-ast/src/parser/ops.rs
+++ b/projects/sm-ast/src/parser/ops.rs
@@ -35,7 +35,7 @@ pub fn infix_map(text: &str) -> Symbol {
         "+" => ("add", 80),
         "-" => ("subtract", 80),
         "*" | "×" => ("times", 140),
-        "/" | "÷" => ("divide", 140),
+        "/" | "÷" => ("divide", 145),
         "//" => ("quotient", 140),
         "^" => ("power", 150),
         _ => (text, 170),
-- 
2.43.0


From b665425a4e72309be106fc5fbaa86f65a9face9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 21/40] fix: TeX of an implicit product keeps all its factors

2 x y was rendered as 2 x.
---
 projects/sm-ast/src/traits/tex/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/traits/tex/utils.rs b/projects/sm-ast/src/traits/tex/utils.rs
index 44f1474..7d6565c 100644
--- a/projects/sm-ast/src/traits/tex/utils.rs
+++ b/projects/sm-ast/src/traits/tex/utils.rs
@@ -10,7 +10,7 @@ pub(crate) fn infix_tex(s: &Symbol, p: &Parameter) -> String {
     let rhs = &p.arguments[1];
     let ops = match s.name.as_str() {
         "add" => "+",
-        "times" => return format!("{} {}", lhs, rhs),
+        "times" => return p.arguments.iter().join(" "),
         _ => &s.name,
     };
     format!("{} {} {}", lhs, ops, rhs)
-- 
2.43.0


From fa14ef2f0b9894e7cf67ed545f411e70a1ff6433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 22/40] fix: TeX of the empty list

It panicked.
---
 projects/sm-ast/src/traits/tex/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/traits/tex/mod.rs b/projects/sm-ast/src/traits/tex/mod.rs
index d7278b6..8549fc2 100644
--- a/projects/sm-ast/src/traits/tex/mod.rs
+++ b/projects/sm-ast/src/traits/tex/mod.rs
@@ -34,7 +34,7 @@ impl ToTex for AST {
                         format!(r"\\operatorname{{{}}}{}", s, omit_brackets_function(&p[0]))
                     }
                     "List" => {
-                        let max = p[0].arguments.iter().map(|e| e.height()).max().unwrap();
+                        let max = p[0].arguments.iter().map(|e| e.height()).max().unwrap_or(1);
                         let e = &p[0].arguments.iter().map(AST::to_tex).collect_vec();
                         if max > 1 { format!(r"\\left\\{{{}\\right\\}}", e.join(", ")) } else { format!(r"\\{{{}\\}}", e.join(", ")) }
                     }
-- 
2.43.0


From 6cc60c54f221874c17aebad64b91db64c8452631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 23/40] fix: the operators ==, >= and // can be parsed

---
 projects/sm-parser/simple-math.pest | 6 +++---
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 6f77739..dbe906f 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -194,11 +194,11 @@ Suffix = @{
   | Bang | Question
 }
 Infix = _{
-    Set
+    Equal|Set
   | Plus|Minus
-  | Multiply|CenterDot|Kronecker|TensorProduct|Divide|Quotient|Modulo
+  | Multiply|CenterDot|Kronecker|TensorProduct|Quotient|Divide|Modulo
   | Power
-  | Grater|GraterEqual|Equal
+  | GraterEqual|Grater
   | Dot
 }
 
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index aaca773..9b53b01 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -590,7 +590,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Infix(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    self::Set(state).or_else(|state| self::Plus(state)).or_else(|state| self::Minus(state)).or_else(|state| self::Multiply(state)).or_else(|state| self::CenterDot(state)).or_else(|state| self::Kronecker(state)).or_else(|state| self::TensorProduct(state)).or_else(|state| self::Divide(state)).or_else(|state| self::Quotient(state)).or_else(|state| self::Modulo(state)).or_else(|state| self::Power(state)).or_else(|state| self::Grater(state)).or_else(|state| self::GraterEqual(state)).or_else(|state| self::Equal(state)).or_else(|state| self::Dot(state))
+                    self::Equal(state).or_else(|state| self::Set(state)).or_else(|state| self::Plus(state)).or_else(|state| self::Minus(state)).or_else(|state| self::Multiply(state)).or_else(|state| self::CenterDot(state)).or_else(|state| self::Kronecker(state)).or_else(|state| self::TensorProduct(state)).or_else(|state| self::Quotient(state)).or_else(|state| self::Divide(state)).or_else(|state| self::Modulo(state)).or_else(|state| self::Power(state)).or_else(|state| self::GraterEqual(state)).or_else(|state| self::Grater(state)).or_else(|state| self::Dot(state))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 6a98a53a94415b49e0191fa5684f13b0152ea506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 24/40] fix: a name that begins with null, true or false is a
 name

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index dbe906f..8afe9f0 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -168,7 +168,7 @@ SYMBOL = @{
 }
 /*====================================================================================================================*/
 ///#D19A66
-Special  = @{"null"|"true"|"false"}
+Special  = @{("null"|"true"|"false") ~ !XID_CONTINUE}
 Slot     = ${"##" ~ Positive?|"#" ~ (SYMBOL|Integer)?}
 REPL     = @{"¶" ~ Positive|"¶"+| "⁋" ~ Positive|"⁋"+}
 Positive = @{ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 9b53b01..aa11d2e 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -545,7 +545,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Special(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Special, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("null").or_else(|state| state.match_string("true")).or_else(|state| state.match_string("false"))))
+                    state.rule(Rule::Special, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("null").or_else(|state| state.match_string("true")).or_else(|state| state.match_string("false")).and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From d2d5012017713dc84e0d691fd27f6edd66128602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 25/40] fix: a name that begins with a statement keyword is a
 name

---
 projects/sm-parser/simple-math.pest | 3 +++
 projects/sm-parser/src/sm_parser.rs | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 8afe9f0..e9ceb36 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -2,6 +2,7 @@ program = _{SOI~statement* ~ EOI}
 
 statement = _{
     emptyStatement
+  | &keywordLike ~ expression
   | importStatement ~ eos?
   | classStatement ~ eos?
   | traitStatement ~ eos?
@@ -12,6 +13,8 @@ statement = _{
   | annotation ~ eos?
   | expression
 }
+// a name that begins with a keyword, as `letter` or `default`
+keywordLike = @{("using"|"class"|"trait"|"extends"|"if"|"for"|"return"|"break"|"pass"|"let"|"def") ~ XID_CONTINUE}
 /*====================================================================================================================*/
 emptyStatement = {eos | Separate}
 eos = {Semicolon}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index aa11d2e..ba4cfcc 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -5,6 +5,7 @@ pub enum Rule {
     EOI,
     program,
     statement,
+    keywordLike,
     emptyStatement,
     eos,
     comma_or_semi,
@@ -175,7 +176,12 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn statement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    self::emptyStatement(state).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::importStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::classStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::traitStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::extendStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::controlFlow(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::assignStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::defineStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::annotation(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| self::expression(state)))
+                    self::emptyStatement(state).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.lookahead(true, |state| self::keywordLike(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::expression(state))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::importStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::classStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::traitStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::extendStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::controlFlow(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::assignStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::defineStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::annotation(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| self::expression(state)))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
+                pub fn keywordLike(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::keywordLike, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("using").or_else(|state| state.match_string("class")).or_else(|state| state.match_string("trait")).or_else(|state| state.match_string("extends")).or_else(|state| state.match_string("if")).or_else(|state| state.match_string("for")).or_else(|state| state.match_string("return")).or_else(|state| state.match_string("break")).or_else(|state| state.match_string("pass")).or_else(|state| state.match_string("let")).or_else(|state| state.match_string("def")).and_then(|state| self::XID_CONTINUE(state)))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -988,6 +994,7 @@ impl ::pest::Parser<Rule> for SMParser {
         ::pest::state(input, |state| match rule {
             Rule::program => rules::program(state),
             Rule::statement => rules::statement(state),
+            Rule::keywordLike => rules::keywordLike(state),
             Rule::emptyStatement => rules::emptyStatement(state),
             Rule::eos => rules::eos(state),
             Rule::comma_or_semi => rules::comma_or_semi(state),
-- 
2.43.0


From d3154e82e9c6b9969620f48109dfad093564807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 26/40] fix: printed operators have the precedence of the
 parser

---
 projects/sm-ast/src/ast/traits.rs | 7 +++++--
 projects/sm-ast/src/parser/ops.rs | 9 ++++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 01dce53..00d251c 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -29,9 +29,12 @@ impl Display for AST {
                         if is_multiary(ps) {
                             let mut v = vec![];
                             // the operand that associates with the operator needs no brackets at equal precedence
-                            let bare = if o.as_ref() == "^" { ps[0].arguments.len() - 1 } else { 0 };
+                            let bare = if o.as_ref() == "^" || o.as_ref() == "=" { ps[0].arguments.len() - 1 } else { 0 };
                             for (i, arg) in ps[0].arguments.iter().enumerate() {
-                                if arg.precedence() < *p || (arg.precedence() == *p && i != bare) { v.push(format!("({})", arg)) } else { v.push(format!("{}", arg)) }
+                                let text = format!("{}", arg);
+                                // `//!` and `//*` begin a comment
+                                let comment = i > 0 && o.as_ref() == "//" && text.starts_with(|c| c == '!' || c == '*');
+                                if arg.precedence() < *p || (arg.precedence() == *p && i != bare) || comment { v.push(format!("({})", text)) } else { v.push(text) }
                             }
                             // let j = if o.as_ref() == "*" { v.join(" ") } else { v.join(&format!(" {} ", o)) };
                             return write!(f, "{0}", v.join(o));
diff --git a/projects/sm-ast/src/parser/ops.rs b/projects/sm-ast/src/parser/ops.rs
index 553f058..1f356ce 100644
--- a/projects/sm-ast/src/parser/ops.rs
+++ b/projects/sm-ast/src/parser/ops.rs
@@ -36,8 +36,15 @@ pub fn infix_map(text: &str) -> Symbol {
         "-" => ("subtract", 80),
         "*" | "×" => ("times", 140),
         "/" | "÷" => ("divide", 145),
-        "//" => ("quotient", 140),
+        "//" => ("quotient", 145),
         "^" => ("power", 150),
+        // the same order as the parser's `OPERATORS`
+        "=" => (text, 40),
+        ">" | ">=" | "==" => (text, 70),
+        "⋅" => (text, 141),
+        "⊗" => (text, 142),
+        "%" => (text, 145),
+        "⊙" => (text, 148),
         _ => (text, 170),
     };
     Symbol {
-- 
2.43.0


From ef6e634c9bfce00a587d1fbcf3714bc335742c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 27/40] =?UTF-8?q?fix:=20=E2=88=B7=20separates=20name=20spa?=
 =?UTF-8?q?ces=20as=20::=20does?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 projects/sm-ast/src/ast/traits.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 00d251c..8900f61 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -73,6 +73,7 @@ impl Display for Position {
 
 impl From<&str> for Symbol {
     fn from(s: &str) -> Self {
+        let s = s.replace("∷", "::");
         let mut ns = s.split("::").map(String::from).collect_vec();
         let n = ns.pop().unwrap();
         Symbol { name_space: ns, name: n, kind: SymbolKind::Normal, attributes: 0 }
-- 
2.43.0


From 0a144e9891114136646d7db3357551d3b1b592b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 28/40] fix: blanks inside parentheses

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index e9ceb36..231cc40 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -117,7 +117,7 @@ function_module = {Dot ~ (SYMBOL ~ Dot)*}
 expression =  {expr~eos?}
 expr       = !{term ~ (Infix ~ term)*}
 term       = ${Prefix* ~ node ~ (Suffix|(!NEWLINE ~ WHITESPACE)* ~ slice)*}
-node       =  {"(" ~ expr ~ ")"|apply_call|derivative|space_call|data}
+node       = !{"(" ~ expr ~ ")"|apply_call|derivative|space_call|data}
 apply_call = ${Symbol ~ ((!NEWLINE ~ WHITESPACE)* ~ apply)+}
 derivative = ${Symbol ~ Derivative ~ (!NEWLINE ~ WHITESPACE)* ~ apply}
 space_call = ${(apply_call|Number|Symbol) ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))+}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index ba4cfcc..edba244 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -416,7 +416,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn node(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::node, |state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::apply_call(state))).or_else(|state| state.restore_on_err(|state| self::derivative(state))).or_else(|state| state.restore_on_err(|state| self::space_call(state))).or_else(|state| state.restore_on_err(|state| self::data(state))))
+                    state.atomic(::pest::Atomicity::NonAtomic, |state| state.rule(Rule::node, |state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::apply_call(state))).or_else(|state| state.restore_on_err(|state| self::derivative(state))).or_else(|state| state.restore_on_err(|state| self::space_call(state))).or_else(|state| state.restore_on_err(|state| self::data(state)))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From aed50ed686fcf72a703a4cbcefe7cab1472ab14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 29/40] fix: postfix operators after a dot call apply to its
 result

---
 projects/sm-ast/src/parser/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 075afb4..03d8243 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -136,6 +136,12 @@ impl ParserSettings {
                 let p2 = Parameter { arguments: vec![lhs], options: Default::default(), position: position.clone() };
                 AST::Function(rs, vec![p2])
             }
+            // postfix operators come after the call: `a.b!` is `(a.b)!`, `a.b[1]` is `(a.b)[1]`
+            AST::Function(rs, mut p) if rs.is_suffix() || rs.to_string() == "std::core::Index" => {
+                let callee = p[0].arguments.remove(0);
+                p[0].arguments.insert(0, self.parse_dot_call(lhs, callee, position));
+                AST::Function(rs, p)
+            }
             AST::Function(rs, mut p) => {
                 let old = &mut p[0].arguments;
                 let mut new = vec![lhs];
-- 
2.43.0


From c1dba088f8fa62404dae46bc1935d2f61d0f5171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 30/40] fix: an implicit product may begin with a call

---
 projects/sm-ast/src/parser/parse.rs | 5 ++++-
 projects/sm-parser/simple-math.pest | 7 +++++--
 projects/sm-parser/src/sm_parser.rs | 4 ++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 03d8243..cab2329 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -121,7 +121,6 @@ impl ParserSettings {
         match pair.as_rule() {
             Rule::expr => self.parse_expr(pair),
             Rule::data => self.parse_data(pair),
-            Rule::apply_call => self.parse_apply_call(pair),
             Rule::space_call => self.parse_space_call(pair),
             _ => debug_cases!(pair),
         }
@@ -190,6 +189,10 @@ impl ParserSettings {
                 _ => debug_cases!(pair),
             };
         }
+        // a call standing alone
+        if stack.len() == 1 {
+            return stack.remove(0);
+        }
         let p = Parameter { arguments: stack, options: Default::default(), position };
         return AST::Function(infix_map("*"), vec![p]);
     }
diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 231cc40..2522cd2 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -117,10 +117,13 @@ function_module = {Dot ~ (SYMBOL ~ Dot)*}
 expression =  {expr~eos?}
 expr       = !{term ~ (Infix ~ term)*}
 term       = ${Prefix* ~ node ~ (Suffix|(!NEWLINE ~ WHITESPACE)* ~ slice)*}
-node       = !{"(" ~ expr ~ ")"|apply_call|derivative|space_call|data}
+node       = !{"(" ~ expr ~ ")"|derivative|space_call|data}
 apply_call = ${Symbol ~ ((!NEWLINE ~ WHITESPACE)* ~ apply)+}
 derivative = ${Symbol ~ Derivative ~ (!NEWLINE ~ WHITESPACE)* ~ apply}
-space_call = ${(apply_call|Number|Symbol) ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))+}
+space_call = ${
+    apply_call ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))*
+  | (Number|Symbol) ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))+
+}
 /*====================================================================================================================*/
 //!#E06C75: type_hint|generic_type|parametric_types_pair
 type_expr = _{term~ (TypeInfix ~term)*}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index edba244..409b24a 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -416,7 +416,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn node(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::NonAtomic, |state| state.rule(Rule::node, |state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::apply_call(state))).or_else(|state| state.restore_on_err(|state| self::derivative(state))).or_else(|state| state.restore_on_err(|state| self::space_call(state))).or_else(|state| state.restore_on_err(|state| self::data(state)))))
+                    state.atomic(::pest::Atomicity::NonAtomic, |state| state.rule(Rule::node, |state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::derivative(state))).or_else(|state| state.restore_on_err(|state| self::space_call(state))).or_else(|state| state.restore_on_err(|state| self::data(state)))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -431,7 +431,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn space_call(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::space_call, |state| state.sequence(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state)).and_then(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state))))).and_then(|state| state.repeat(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state)))))))))
+                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::space_call, |state| state.restore_on_err(|state| state.sequence(|state| self::apply_call(state).and_then(|state| state.repeat(|state| state.restore_on_err(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state))))))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::Number(state).or_else(|state| self::Symbol(state)).and_then(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state))))).and_then(|state| state.repeat(|state| state.restore_on_err(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state))))))))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 568d259754ad1552bce3cddd566fb7288c066d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 31/40] fix: TeX of a curried trigonometric call keeps every
 bracket

---
 projects/sm-ast/src/traits/tex/mod.rs   |  6 +++---
 projects/sm-ast/src/traits/tex/utils.rs | 10 +++++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/projects/sm-ast/src/traits/tex/mod.rs b/projects/sm-ast/src/traits/tex/mod.rs
index 8549fc2..b39f321 100644
--- a/projects/sm-ast/src/traits/tex/mod.rs
+++ b/projects/sm-ast/src/traits/tex/mod.rs
@@ -2,7 +2,7 @@ mod utils;
 
 use crate::{ast::Parameter, ToTex, AST};
 use itertools::Itertools;
-use utils::{infix_tex, omit_brackets_function};
+use utils::{function_arguments, infix_tex};
 
 #[rustfmt::skip]
 pub trait BoxArea {
@@ -28,10 +28,10 @@ impl ToTex for AST {
                 }
                 match s.name.as_ref() {
                     "sin" | "cos" | "tan" | "cot" | "sec" | "csc" | "arcsin" | "arccos" | "arctan" => {
-                        format!(r"\\{}{}", s, omit_brackets_function(&p[0]))
+                        format!(r"\\{}{}", s, function_arguments(&p))
                     }
                     "arccot" | "arcsec" | "arccsc" | "arcsinh" | "arccosh" | "arctanh" | "arccoth" | "arcsech" | "arccsch" => {
-                        format!(r"\\operatorname{{{}}}{}", s, omit_brackets_function(&p[0]))
+                        format!(r"\\operatorname{{{}}}{}", s, function_arguments(&p))
                     }
                     "List" => {
                         let max = p[0].arguments.iter().map(|e| e.height()).max().unwrap_or(1);
diff --git a/projects/sm-ast/src/traits/tex/utils.rs b/projects/sm-ast/src/traits/tex/utils.rs
index 7d6565c..34ce5d3 100644
--- a/projects/sm-ast/src/traits/tex/utils.rs
+++ b/projects/sm-ast/src/traits/tex/utils.rs
@@ -16,7 +16,15 @@ pub(crate) fn infix_tex(s: &Symbol, p: &Parameter) -> String {
     format!("{} {} {}", lhs, ops, rhs)
 }
 
-pub(crate) fn omit_brackets_function(p: &Parameter) -> String {
+/// The brackets of a named function: a single one may be omitted.
+pub(crate) fn function_arguments(p: &[Parameter]) -> String {
+    match p {
+        [p] => omit_brackets_function(p),
+        _ => p.iter().map(|e| e.to_tex()).join(""),
+    }
+}
+
+fn omit_brackets_function(p: &Parameter) -> String {
     let mut out = String::new();
     let args = &p.arguments;
     match args.len() {
-- 
2.43.0


From 27deb92501b33df5f6735e03e4b78aa717dfb722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 32/40] fix: parsing nested indices takes linear time

Each level was parsed three times, so a[a[...]] of depth 15 did not return.
---
 projects/sm-ast/src/parser/parse.rs | 7 +++++--
 projects/sm-parser/simple-math.pest | 6 +++---
 projects/sm-parser/src/sm_parser.rs | 2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index cab2329..1b80102 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -250,9 +250,10 @@ impl ParserSettings {
         let mut start = AST::integer(1);
         let mut end = AST::symbol("std::core::All");
         let mut step = AST::integer(1);
+        let mut span = false;
         for pair in pairs.into_inner() {
             match pair.as_rule() {
-                Rule::Colon => continue,
+                Rule::Colon => span = true,
                 Rule::Start => {
                     let e = pair.into_inner().nth(0).unwrap();
                     start = self.parse_expr(e)
@@ -265,10 +266,12 @@ impl ParserSettings {
                     let e = pair.into_inner().nth(0).unwrap();
                     step = self.parse_expr(e);
                 }
-                Rule::expr => return self.parse_expr(pair),
                 _ => unreachable!(),
             };
         }
+        if !span {
+            return start;
+        }
         let s = Symbol::from("std::core::Span");
         let p = Parameter { arguments: vec![start, end, step], options: Default::default(), position };
         return AST::Function(s, vec![p]);
diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 2522cd2..99f458d 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -141,10 +141,10 @@ list = !{"[" ~ "]" | "[" ~ expr ~ (Comma ~ expr)* ~ Comma? ~ "]"}
 slice = !{"[" ~ index ~ (Comma ~ index)* ~ Comma? ~ "]"}
 key_valid =!{Integer | SYMBOL | String}
 key_value =!{key_valid ~ Colon ~ expr}
+// a lone Start is a plain index
 index ={
-    Start? ~ Colon ~ End? ~ Colon ~ Step?
-  | Start? ~ Colon ~ End?
-  | expr
+    Start ~ (Colon ~ End? ~ (Colon ~ Step?)?)?
+  | Colon ~ End? ~ (Colon ~ Step?)?
 }
 Start = {expr}
 End = {expr}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 409b24a..a3d33df 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -481,7 +481,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn index(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::index, |state| state.sequence(|state| state.optional(|state| state.restore_on_err(|state| self::Start(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::Colon(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::Colon(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::Step(state))))).or_else(|state| state.sequence(|state| state.optional(|state| state.restore_on_err(|state| self::Start(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::Colon(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))))).or_else(|state| state.restore_on_err(|state| self::expr(state))))
+                    state.rule(Rule::index, |state| state.restore_on_err(|state| state.sequence(|state| self::Start(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::Step(state)))))))))))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::Step(state))))))))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 8732f7b048001587d35291160850a937f3c1a396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 33/40] fix: block comments are skipped

Any %%% comment made the parser panic, and two of them were read as one nested comment.
---
 projects/sm-parser/simple-math.pest | 3 ++-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 99f458d..685c60c 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -188,7 +188,8 @@ COMMENT = _{
   | "//!" ~ (!NEWLINE ~ ANY)* //fixme
   | "//*" ~ (!NEWLINE ~ ANY)* //warning
 }
-MultiLineComment = ${ "%%%" ~ (MultiLineComment | !"%%%" ~ ANY)* ~ "%%%"}
+// the delimiters are the same on both sides, so it can not nest
+MultiLineComment = _{ "%%%" ~ (!"%%%" ~ ANY)* ~ "%%%"}
 /*====================================================================================================================*/
 //!#56B6C2: Prefix|Infix|Postfix
 Prefix = @{
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index a3d33df..d95ad6f 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -581,7 +581,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn MultiLineComment(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::MultiLineComment, |state| state.sequence(|state| state.match_string("%%%").and_then(|state| state.repeat(|state| self::MultiLineComment(state).or_else(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| self::ANY(state)))))).and_then(|state| state.match_string("%%%")))))
+                    state.sequence(|state| state.match_string("%%%").and_then(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| self::ANY(state))))).and_then(|state| state.match_string("%%%")))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 64f4811e5475bd553672182a86166d47be24b3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 34/40] fix: an empty statement is skipped instead of a panic

---
 projects/sm-ast/src/parser/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 1b80102..1ba55a6 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -35,6 +35,7 @@ impl ParserSettings {
                     return Ok(self.parse_expression(pair).0);
                 }
                 Rule::COMMENT => continue,
+                Rule::emptyStatement => continue,
                 _ => debug_cases!(pair),
             };
         }
-- 
2.43.0


From 136f9d449f2697a26848ed1e097fac03348693ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 35/40] fix: syntax without an implementation is declined
 instead of a panic
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Statements, dictionaries, derivatives, ? and ¬ made the parser panic.
---
 projects/sm-ast/src/parser/parse.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 1ba55a6..845be7b 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -1,7 +1,7 @@
 use crate::{
     ast::{Expression, Parameter, Position, Symbol},
     parser::{infix_map, prefix_map, suffix_map, ParserSettings, CLIMBER},
-    SMResult, ToWolfram, AST,
+    SMError, SMResult, ToWolfram, AST,
 };
 use bigdecimal::BigDecimal;
 use num::{BigInt, Num};
@@ -14,6 +14,16 @@ use std::{
     str::FromStr,
 };
 
+/// Syntax of the grammar that has no meaning in the syntax tree yet
+fn is_unimplemented(pair: &Pair<Rule>) -> bool {
+    match pair.as_rule() {
+        Rule::dict | Rule::derivative => true,
+        Rule::Prefix => pair.as_str() == "¬",
+        Rule::Suffix => pair.as_str() != "!" && pair.as_str() != "!!",
+        _ => false,
+    }
+}
+
 impl ParserSettings {
     pub fn parse_file(&self, path_from: &str, path_to: &str) -> SMResult<()> {
         let r = read_to_string(path_from)?;
@@ -32,11 +42,14 @@ impl ParserSettings {
             match pair.as_rule() {
                 Rule::EOI => continue,
                 Rule::expression => {
+                    if let Some(p) = pair.clone().into_inner().flatten().find(is_unimplemented) {
+                        return Err(SMError::Unimplemented(format!("Unimplemented Syntax: {}", p.as_str())));
+                    }
                     return Ok(self.parse_expression(pair).0);
                 }
                 Rule::COMMENT => continue,
                 Rule::emptyStatement => continue,
-                _ => debug_cases!(pair),
+                rule => return Err(SMError::Unimplemented(format!("Unimplemented Statement: {:?}", rule))),
             };
         }
         return Ok(AST::EmptyStatement);
-- 
2.43.0


From 152f956adf35cf914b04232826b32289df2aef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 36/40] fix: a string, decimal or boolean after a dot is
 declined instead of a panic

---
 projects/sm-ast/src/parser/parse.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 845be7b..ea4b06f 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -20,10 +20,33 @@ fn is_unimplemented(pair: &Pair<Rule>) -> bool {
         Rule::dict | Rule::derivative => true,
         Rule::Prefix => pair.as_str() == "¬",
         Rule::Suffix => pair.as_str() != "!" && pair.as_str() != "!!",
+        Rule::expr => {
+            let terms: Vec<Pair<Rule>> = pair.clone().into_inner().collect();
+            terms.windows(2).any(|w| w[0].as_rule() == Rule::Dot && !is_callable(&w[1]))
+        }
         _ => false,
     }
 }
 
+/// Whether a term may follow a dot: not a string, a decimal or a boolean
+fn is_callable(term: &Pair<Rule>) -> bool {
+    let node = match term.clone().into_inner().next() {
+        Some(node) if node.as_rule() == Rule::node => node.into_inner().next().unwrap(),
+        _ => return true,
+    };
+    match node.as_rule() {
+        Rule::expr => {
+            let terms: Vec<Pair<Rule>> = node.into_inner().collect();
+            terms.len() != 1 || is_callable(&terms[0])
+        }
+        Rule::data => match node.into_inner().next().unwrap() {
+            data if data.as_rule() == Rule::Special => data.as_str() == "null",
+            data => data.as_rule() != Rule::String && data.as_rule() != Rule::Decimal,
+        },
+        _ => true,
+    }
+}
+
 impl ParserSettings {
     pub fn parse_file(&self, path_from: &str, path_to: &str) -> SMResult<()> {
         let r = read_to_string(path_from)?;
-- 
2.43.0


From b434c1428be9edea8cb839371fd0683b2a0ee812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 37/40] fix: TeX of a curried call of List keeps every bracket

---
 projects/sm-ast/src/traits/tex/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/traits/tex/mod.rs b/projects/sm-ast/src/traits/tex/mod.rs
index b39f321..2f6d8b1 100644
--- a/projects/sm-ast/src/traits/tex/mod.rs
+++ b/projects/sm-ast/src/traits/tex/mod.rs
@@ -33,7 +33,7 @@ impl ToTex for AST {
                     "arccot" | "arcsec" | "arccsc" | "arcsinh" | "arccosh" | "arctanh" | "arccoth" | "arcsech" | "arccsch" => {
                         format!(r"\\operatorname{{{}}}{}", s, function_arguments(&p))
                     }
-                    "List" => {
+                    "List" if p.len() == 1 => {
                         let max = p[0].arguments.iter().map(|e| e.height()).max().unwrap_or(1);
                         let e = &p[0].arguments.iter().map(AST::to_tex).collect_vec();
                         if max > 1 { format!(r"\\left\\{{{}\\right\\}}", e.join(", ")) } else { format!(r"\\{{{}\\}}", e.join(", ")) }
-- 
2.43.0


From 92d5071da9a08b15db3e1fc6a6899507dbdfb6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 38/40] fix: a dot call of std::core::Index was taken for an
 index

---
 projects/sm-ast/src/parser/parse.rs | 30 +++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index ea4b06f..8fcd666 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -47,6 +47,18 @@ fn is_callable(term: &Pair<Rule>) -> bool {
     }
 }
 
+/// How many indices `[...]` a term ends with
+fn count_indices(pair: &Pair<Rule>) -> usize {
+    let mut inner = pair.clone().into_inner();
+    match pair.as_rule() {
+        Rule::slice => 1,
+        Rule::term => inner.map(|p| count_indices(&p)).sum(),
+        Rule::node => inner.next().map_or(0, |p| count_indices(&p)),
+        Rule::expr => inner.last().map_or(0, |p| count_indices(&p)),
+        _ => 0,
+    }
+}
+
 impl ParserSettings {
     pub fn parse_file(&self, path_from: &str, path_to: &str) -> SMResult<()> {
         let r = read_to_string(path_from)?;
@@ -99,22 +111,23 @@ impl ParserSettings {
         CLIMBER.climb(
             pairs.into_inner(),
             |pair: Pair<Rule>| match pair.as_rule() {
-                Rule::expr => self.parse_expr(pair),
-                Rule::term => self.parse_term(pair),
+                Rule::expr => (self.parse_expr(pair.clone()), Some(pair)),
+                Rule::term => (self.parse_term(pair.clone()), Some(pair)),
                 _ => debug_cases!(pair),
             },
-            |lhs: AST, op: Pair<Rule>, rhs: AST| match op.as_rule() {
-                Rule::Dot => self.parse_dot_call(lhs, rhs, &position),
+            |(lhs, _): (AST, Option<Pair<Rule>>), op: Pair<Rule>, (rhs, pair): (AST, Option<Pair<Rule>>)| match op.as_rule() {
+                Rule::Dot => (self.parse_dot_call(lhs, rhs, pair.as_ref().map_or(0, count_indices), &position), None),
                 _ => {
                     let p = Parameter {
                         arguments: vec![lhs, rhs],
                         options: Default::default(),
                         position: position.clone(),
                     };
-                    AST::Function(infix_map(op.as_str()), vec![p])
+                    (AST::Function(infix_map(op.as_str()), vec![p]), None)
                 }
             },
         )
+        .0
     }
 
     fn parse_term(&self, pairs: Pair<Rule>) -> AST {
@@ -163,7 +176,7 @@ impl ParserSettings {
         }
     }
 
-    fn parse_dot_call(&self, lhs: AST, rhs: AST, position: &Position) -> AST {
+    fn parse_dot_call(&self, lhs: AST, rhs: AST, indices: usize, position: &Position) -> AST {
         return match rhs {
             AST::Symbol(rs) => {
                 // TODO: dot call resolve
@@ -173,9 +186,10 @@ impl ParserSettings {
                 AST::Function(rs, vec![p2])
             }
             // postfix operators come after the call: `a.b!` is `(a.b)!`, `a.b[1]` is `(a.b)[1]`
-            AST::Function(rs, mut p) if rs.is_suffix() || rs.to_string() == "std::core::Index" => {
+            AST::Function(rs, mut p) if rs.is_suffix() || (indices > 0 && rs.to_string() == "std::core::Index") => {
+                let rest = if rs.is_suffix() { indices } else { indices - 1 };
                 let callee = p[0].arguments.remove(0);
-                p[0].arguments.insert(0, self.parse_dot_call(lhs, callee, position));
+                p[0].arguments.insert(0, self.parse_dot_call(lhs, callee, rest, position));
                 AST::Function(rs, p)
             }
             AST::Function(rs, mut p) => {
-- 
2.43.0


From a06d0223746ca81e766c82bb6d18d3b94e3fa95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 39/40] fix: TeX of a call of a name out of the operators' name
 spaces

---
 projects/sm-ast/src/traits/tex/mod.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/projects/sm-ast/src/traits/tex/mod.rs b/projects/sm-ast/src/traits/tex/mod.rs
index 2f6d8b1..67cda46 100644
--- a/projects/sm-ast/src/traits/tex/mod.rs
+++ b/projects/sm-ast/src/traits/tex/mod.rs
@@ -1,6 +1,9 @@
 mod utils;
 
-use crate::{ast::Parameter, ToTex, AST};
+use crate::{
+    ast::{Parameter, SymbolKind},
+    ToTex, AST,
+};
 use itertools::Itertools;
 use utils::{function_arguments, infix_tex};
 
@@ -20,10 +23,10 @@ impl ToTex for AST {
             AST::Symbol(s) => format!("{}", s.name),
             AST::String(s) => format!(r"\\text{{{}}}", s),
             AST::Function(s, p) => {
-                match s.name_space.iter().map(|e| e.as_str()).collect_vec().as_slice() {
-                    ["std", "prefix"] => unimplemented!(),
-                    ["std", "infix"] => return infix_tex(&s, &p[0]),
-                    ["std", "suffix"] => unimplemented!(),
+                match s.kind {
+                    SymbolKind::Prefix(..) => unimplemented!(),
+                    SymbolKind::Infix(..) => return infix_tex(&s, &p[0]),
+                    SymbolKind::Suffix(..) => unimplemented!(),
                     _ => (),
                 }
                 match s.name.as_ref() {
@@ -70,10 +73,10 @@ impl BoxArea for AST {
         match self {
             AST::EmptyStatement => 0,
             AST::Program(_) => 1,
-            AST::Function(s, p) => match s.name_space.iter().map(|e| e.as_str()).collect_vec().as_slice() {
-                ["std", "prefix"] => unimplemented!(),
-                ["std", "infix"] => p[0].arguments.len(),
-                ["std", "suffix"] => unimplemented!(),
+            AST::Function(s, p) => match s.kind {
+                SymbolKind::Prefix(..) => unimplemented!(),
+                SymbolKind::Infix(..) => p[0].arguments.len(),
+                SymbolKind::Suffix(..) => unimplemented!(),
                 _ => 1,
             },
             _ => 1,
-- 
2.43.0


From 8526ffcb8228716a0a569a8b6fa75035c2dd7efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 40/40] fix: print a negative number under a suffix in brackets

---
 projects/sm-ast/src/ast/traits.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 8900f61..542f9f9 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -43,7 +43,7 @@ impl Display for AST {
                     SymbolKind::Suffix(o) => {
                         if is_unary(ps) {
                             let arg = &ps[0].arguments[0];
-                            return if arg.is_operator() { write!(f, "({1}){0}", o, arg) } else { write!(f, "{1}{0}", o, arg) };
+                            return if arg.is_operator() || arg.is_negative() { write!(f, "({1}){0}", o, arg) } else { write!(f, "{1}{0}", o, arg) };
                         }
                     }
                 }
@@ -182,7 +182,11 @@ impl AST {
         false
     }
     pub(crate) fn is_negative(&self) -> bool {
-        false
+        match self {
+            AST::Integer(i) => *i < BigInt::zero(),
+            AST::Decimal(n) => *n < BigDecimal::zero(),
+            _ => false,
+        }
     }
 }
 
-- 
2.43.0

