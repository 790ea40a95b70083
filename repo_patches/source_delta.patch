From 23f02a06971cbe7c31213660b9429e436ae83b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 01/20] fix: don't overflow while rounding a quotient of fixed
 points to the nearest

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5351f2c..79297ad 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -332,8 +332,9 @@ macro_rules! impl_fixed_point {
                     let sign = self.inner.signum() * rhs.inner.signum();
 
                     let add_signed_one = if mode == RoundMode::Nearest {
-                        let loss_abs = loss.abs();
-                        loss_abs + loss_abs >= rhs.inner.abs()
+                        // `2 * |loss|` and `|MIN|` don't fit in the layout.
+                        let loss_abs = loss.unsigned_abs();
+                        loss_abs >= rhs.inner.unsigned_abs() - loss_abs
                     } else {
                         mode as i32 == sign as i32
                     };
-- 
2.43.0


From 9ef65263688d20fec75f6721867103e1f0210dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 02/20] fix: don't overflow while rounding a quotient of
 integers to the nearest

---
 src/ops/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 81f41c3..5faf73b 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -459,8 +459,9 @@ macro_rules! impl_for_ints {
                     let sign = self.signum() * rhs.signum();
 
                     let add_signed_one = if mode == RoundMode::Nearest {
-                        let loss_abs = loss.abs();
-                        loss_abs + loss_abs >= rhs.abs()
+                        // `2 * |loss|` and `|MIN|` don't fit in the integer.
+                        let loss_abs = loss.unsigned_abs();
+                        loss_abs >= rhs.unsigned_abs() - loss_abs
                     } else {
                         mode as i32 == sign as i32
                     };
-- 
2.43.0


From 9c1f3c9b47209d77fb16a5bf1e7b8a2c2e2157c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 03/20] fix: return an error instead of panicking in
 MIN.rdiv(-1)

---
 src/ops/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 5faf73b..e427b9a 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -452,7 +452,8 @@ macro_rules! impl_for_ints {
                     return Err(ArithmeticError::DivisionByZero);
                 }
 
-                let mut result = self / rhs;
+                // Fails for `MIN / -1`.
+                let mut result = self.checked_div(rhs).ok_or(ArithmeticError::Overflow)?;
                 let loss = self - result * rhs;
 
                 if loss != 0 {
-- 
2.43.0


From 6723871304ac49a2735722375d5816de1f0d85a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 04/20] fix: don't overflow in integral() of the MIN value

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 79297ad..a08ff1a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -501,7 +501,7 @@ macro_rules! impl_fixed_point {
             #[inline]
             pub fn integral(self, mode: RoundMode) -> $layout {
                 let sign = self.inner.signum();
-                let (mut int, frac) = (self.inner / Self::COEF, self.inner.abs() % Self::COEF);
+                let (mut int, frac) = (self.inner / Self::COEF, (self.inner % Self::COEF).abs());
 
                 let add_signed_one = if mode == RoundMode::Nearest {
                     frac + frac >= Self::COEF
-- 
2.43.0


From 84f7f0c611c353cf9199dc7eed0dc280f3959165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 05/20] fix: don't overflow while rounding a product to the
 nearest at the maximal precision

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a08ff1a..598e4d5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -246,7 +246,6 @@ macro_rules! impl_fixed_point {
             pub const EPSILON: Self = Self::from_bits(1);
 
             const COEF: $layout = const_fn::pow10(Self::PRECISION) as _;
-            const NEG_COEF: $layout = -Self::COEF;
             const COEF_PROMOTED: $promotion = $convert(Self::COEF) as _;
         }
 
@@ -289,8 +288,9 @@ macro_rules! impl_fixed_point {
                 let sign = self.inner.signum() * rhs.inner.signum();
 
                 let add_signed_one = if mode == RoundMode::Nearest {
-                    sign as i32 >= 0 && loss + loss >= Self::COEF
-                                     || loss + loss <= Self::NEG_COEF
+                    // `2 * |loss|` doesn't fit in the layout if the precision is maximal.
+                    let loss_abs = loss.unsigned_abs();
+                    loss_abs >= Self::COEF.unsigned_abs() - loss_abs
                 } else {
                     loss != 0 && mode as i32 == sign as i32
                 };
-- 
2.43.0


From 82fbd7ab81213bf4ea4a9f0cfec668d7095edaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 06/20] fix: don't overflow in integral(Nearest) at the maximal
 precision

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 598e4d5..0e5518b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -504,7 +504,7 @@ macro_rules! impl_fixed_point {
                 let (mut int, frac) = (self.inner / Self::COEF, (self.inner % Self::COEF).abs());
 
                 let add_signed_one = if mode == RoundMode::Nearest {
-                    frac + frac >= Self::COEF
+                    frac >= Self::COEF - frac
                 } else {
                     mode as i32 == sign as i32 && frac > 0
                 };
-- 
2.43.0


From 6ac3de9c2101b276d1b6e3bb7e04117aacc329a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 07/20] fix: don't overflow while formatting at the maximal
 precision

---
 src/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 6e59efc..e916ec4 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -109,13 +109,13 @@ macro_rules! impl_for {
                 }
 
                 let integral = (self.inner / Self::COEF).abs();
-                let fractional = (self.inner % Self::COEF).abs();
+                let fractional = (self.inner % Self::COEF).unsigned_abs();
 
                 let _ = buf.push_str(fmt.format(integral));
                 let _ = buf.push('.');
 
                 if fractional > 0 {
-                    let fractional_with_leading_one = fractional + Self::COEF;
+                    let fractional_with_leading_one = fractional + Self::COEF.unsigned_abs();
                     let s = &fmt.format(fractional_with_leading_one)[1..];
                     let _ = buf.push_str(s.trim_end_matches('0'));
                 } else {
-- 
2.43.0


From 27f659b501c1ed396889964b301dd1dfa299cab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 08/20] fix: reserve enough space to format the MIN value
 without a fractional part

---
 src/string.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index e916ec4..06313b2 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -127,9 +127,9 @@ macro_rules! impl_for {
 }
 
 // Serialize as a string in case of human readable formats.
-// The maximum length can be calculated as `len(str(-2**bits)) + 1`,
-// where `1` is reserved for `.` after integral part.
-const MAX_LEN: usize = if cfg!(feature = "i128") { 41 } else { 21 };
+// The maximum length can be calculated as `len(str(-2**bits)) + 2`,
+// where `2` is reserved for `.0` after integral part.
+const MAX_LEN: usize = if cfg!(feature = "i128") { 42 } else { 22 };
 
 // TODO: try `staticvec` after stabilization.
 // Now it works faster than `arrayvec`.
-- 
2.43.0


From e18668c2495e0792375adc58de7e86d1eef9fa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 09/20] fix: return an error from from_decimal() if the
 multiplier doesn't fit

---
 src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0e5518b..41ed4c9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -672,10 +672,8 @@ macro_rules! impl_fixed_point {
                 }
 
                 let ten: $layout = 10;
-                let multiplier = ten.pow((exponent + Self::PRECISION) as u32);
-
-                mantissa
-                    .checked_mul(multiplier)
+                ten.checked_pow((exponent + Self::PRECISION) as u32)
+                    .and_then(|multiplier| mantissa.checked_mul(multiplier))
                     .map(Self::from_bits)
                     .map_or_else(|| Err(ConvertError::new("too big mantissa")), Ok)
             }
-- 
2.43.0


From 57e1e4d197eb6939a156950330dd4f6ce3f76816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 10/20] fix: parse numbers with a fractional part if the
 precision is zero

---
 src/string.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 06313b2..b9e97b0 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -52,6 +52,10 @@ macro_rules! impl_for {
                     ));
                 }
 
+                if fractional_str.is_empty() {
+                    return Err(ConvertError::new("can't parse fractional part"));
+                }
+
                 let signum = if str.as_bytes()[0] == b'-' { -1 } else { 1 };
                 let prec = Self::PRECISION as usize; // TODO: negative precision?
 
@@ -78,9 +82,14 @@ macro_rules! impl_for {
 
                 debug_assert!(exp <= Self::COEF);
 
-                let fractional: $layout = fractional_str
-                    .parse()
-                    .map_err(|_| ConvertError::new("can't parse fractional part"))?;
+                // It can be empty here only if there are no digits within the precision.
+                let fractional: $layout = if fractional_str.is_empty() {
+                    0
+                } else {
+                    fractional_str
+                        .parse()
+                        .map_err(|_| ConvertError::new("can't parse fractional part"))?
+                };
 
                 let final_integral = integral
                     .checked_mul(Self::COEF)
-- 
2.43.0


From a057791c87bcec5a6c26474f48d102a684d3584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 11/20] fix: convert f64 to the MIN value instead of rejecting
 it

---
 src/float.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/float.rs b/src/float.rs
index e833677..b7a1714 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -168,17 +168,16 @@ macro_rules! impl_try_from_f64 {
                     bits = rdiv_by_exponent_10(bits, (-Self::PRECISION - exponent10) as u32);
                 }
 
-                let bits: $layout = bits
-                    .try_into()
-                    .map_err(|_| ConvertError::new("too big number"))?;
-
-                if positive {
-                    Ok(Self::from_bits(bits))
+                // Note that `|MIN|` doesn't fit in the layout, but `MIN` does.
+                let bits = if positive {
+                    i128::try_from(bits).ok()
                 } else {
-                    bits.checked_neg()
-                        .map(Self::from_bits)
-                        .ok_or_else(|| ConvertError::new("too big number"))
-                }
+                    0i128.checked_sub_unsigned(bits)
+                };
+
+                bits.and_then(|bits| bits.try_into().ok())
+                    .map(Self::from_bits)
+                    .ok_or_else(|| ConvertError::new("too big number"))
             }
         }
     };
-- 
2.43.0


From 99cd492bf6fd0897a2ff0057623105590c9a4e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 12/20] fix: round half_sum() of negative numbers according to
 the mode

---
 src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 41ed4c9..d7750e0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -469,10 +469,9 @@ macro_rules! impl_fixed_point {
                 if a.inner.signum() != b.inner.signum() {
                     Self::from_bits(a.inner + b.inner).rdiv(2, mode).unwrap()
                 } else {
-                    let min = a.inner.min(b.inner);
-                    let max = a.inner.max(b.inner);
-                    let half_diff = (max - min).rdiv(2, mode).unwrap();
-                    Self::from_bits(min + half_diff)
+                    // The sum may not fit in the layout, but the sum of remainders always does.
+                    let rem = (a.inner % 2 + b.inner % 2).rdiv(2, mode).unwrap();
+                    Self::from_bits(a.inner / 2 + b.inner / 2 + rem)
                 }
             }
 
-- 
2.43.0


From b0314875cf7f70e9c3cea1161ea09222ec3e7bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 13/20] fix: don't overflow while formatting the MIN value at
 zero precision

---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index b9e97b0..470e137 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -117,7 +117,7 @@ macro_rules! impl_for {
                     let _ = buf.push('-');
                 }
 
-                let integral = (self.inner / Self::COEF).abs();
+                let integral = (self.inner / Self::COEF).unsigned_abs();
                 let fractional = (self.inner % Self::COEF).unsigned_abs();
 
                 let _ = buf.push_str(fmt.format(integral));
-- 
2.43.0


From 0611ff8e17cc43d600f5a173b90dc0b3950e210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 14/20] fix: keep all 15 significant digits while converting
 from f64

---
 src/float.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/float.rs b/src/float.rs
index b7a1714..2a9d11c 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -143,13 +143,11 @@ macro_rules! impl_try_from_f64 {
                         divisor_exponent_10 = NEXT_EXPONENT_10[lz - 1] as i32;
                     }
                     let divisor_exponent_10 = divisor_exponent_10.min(-exponent10 as i32);
-                    let (divisor, remainder) = POWERS_OF_10[divisor_exponent_10 as usize];
+                    let (divisor, _) = POWERS_OF_10[divisor_exponent_10 as usize];
                     let res = bits / divisor;
-                    bits = if bits % divisor > remainder {
-                        res + 1
-                    } else {
-                        res
-                    };
+                    let loss = bits % divisor;
+                    // The remaining digits are significant, so it must be exactly to the nearest.
+                    bits = if loss >= divisor - loss { res + 1 } else { res };
                     exponent10 += divisor_exponent_10;
                 }
 
-- 
2.43.0


From c5bac94da79c6fdc47d7126320c7144d998d74f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 15/20] fix: reject const literals that don't fit in the layout
 instead of wrapping

---
 src/macros.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 34ab741..5099635 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -181,7 +181,10 @@ macro_rules! fixnum_const {
         use $crate::FixedPoint;
         use $crate::_priv::*;
         const VALUE_INNER: Int = parse_fixed(stringify!($value), pow10($precision));
-        FixedPoint::from_bits(VALUE_INNER as _)
+        let bits = VALUE_INNER as _;
+        // `as` wraps silently if the value doesn't fit in the layout.
+        assert!(bits as Int == VALUE_INNER, "the literal is out of range");
+        FixedPoint::from_bits(bits)
     }};
 }
 
-- 
2.43.0


From 7b64c45dc8f0a8b694e1371cdbcd18c08cb29afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 16/20] fix: refuse a precision that the layout cannot hold

With the i128 layout enabled, 10^P was computed as i128 and truncated to the
layout: ONE, literals and everything else that needs the coefficient were
silently wrong for, say, FixedPoint<i64, U19>.
---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d7750e0..42bb896 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -245,7 +245,14 @@ macro_rules! impl_fixed_point {
             /// The difference between `0.0` and the next larger representable number.
             pub const EPSILON: Self = Self::from_bits(1);
 
-            const COEF: $layout = const_fn::pow10(Self::PRECISION) as _;
+            const COEF: $layout = {
+                let coef = const_fn::pow10(Self::PRECISION);
+                assert!(
+                    coef as $layout as const_fn::Int == coef,
+                    "the layout is too small for this precision"
+                );
+                coef as _
+            };
             const COEF_PROMOTED: $promotion = $convert(Self::COEF) as _;
         }
 
-- 
2.43.0


From fc950f0a55c24013a63722ef4e171620d2b873ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 17/20] fix: deserialize strings that are not borrowed

serde::str and serde::str_option refused what they had written themselves if
the deserializer cannot lend a string, e.g. serde_json's from_reader() and
from_value(), or if the text contains an escape.
---
 src/serde.rs | 62 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 17 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index a233906..1f45dcb 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -228,13 +228,35 @@ pub mod str {
         D: Deserializer<'de>,
         FixedPoint<I, P>: FromStr,
     {
-        let s = <&str>::deserialize(deserializer)?;
-        s.parse().map(F::from).map_err(|_| {
-            D::Error::invalid_value(
-                de::Unexpected::Str(s),
-                &"string containing a fixed-point number",
-            )
-        })
+        deserializer
+            .deserialize_str(StrVisitor(PhantomData))
+            .map(F::from)
+    }
+
+    // Accepts both borrowed and transient strings, e.g. if the input is a reader.
+    struct StrVisitor<I, P>(PhantomData<(I, P)>);
+
+    impl<'de, I, P> de::Visitor<'de> for StrVisitor<I, P>
+    where
+        FixedPoint<I, P>: FromStr,
+    {
+        type Value = FixedPoint<I, P>;
+
+        fn expecting(&self, formatter: &mut fmt::Formatter<'_>) -> fmt::Result {
+            formatter.write_str("string containing a fixed-point number")
+        }
+
+        fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
+            s.parse()
+                .map_err(|_| E::invalid_value(de::Unexpected::Str(s), &self))
+        }
+
+        fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<Self::Value, E> {
+            match core::str::from_utf8(b) {
+                Ok(s) => self.visit_str(s),
+                Err(_) => Err(E::invalid_value(de::Unexpected::Bytes(b), &self)),
+            }
+        }
     }
 }
 
@@ -265,16 +287,22 @@ pub mod str_option {
         D: Deserializer<'de>,
         FixedPoint<I, P>: FromStr,
     {
-        let s = Option::<&str>::deserialize(deserializer)?;
-        s.map(|s| {
-            s.parse().map(F::from).map_err(|_| {
-                D::Error::invalid_value(
-                    de::Unexpected::Str(s),
-                    &"string containing a fixed-point number",
-                )
-            })
-        })
-        .transpose()
+        let fp = Option::<AsStr<I, P>>::deserialize(deserializer)?;
+        Ok(fp.map(|fp| F::from(fp.0)))
+    }
+
+    struct AsStr<I, P>(FixedPoint<I, P>);
+
+    impl<'de, I, P> Deserialize<'de> for AsStr<I, P>
+    where
+        FixedPoint<I, P>: FromStr,
+    {
+        fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+        where
+            D: Deserializer<'de>,
+        {
+            str::deserialize(deserializer).map(Self)
+        }
     }
 }
 
-- 
2.43.0


From 414a708d24b21572ebef0af98c3767d336ff358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 18/20] fix: the schemars feature did not compile without std

---
 src/schemars.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/schemars.rs b/src/schemars.rs
index 3944389..397b0ea 100644
--- a/src/schemars.rs
+++ b/src/schemars.rs
@@ -1,3 +1,7 @@
+extern crate alloc;
+
+use alloc::{borrow::ToOwned, string::String};
+
 use schemars::{
     gen::SchemaGenerator,
     schema::{InstanceType, Schema, SchemaObject},
-- 
2.43.0


From 40c2048d17bae45a9a29d69a4260ec03d1f5f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 19/20] fix: impl_op! works next to items of any names

The code that impl_op! expands to named Result, FnOnce and core as the caller's
scope has them, and imported everything of _priv, which clashed with wrappers
named like one of the library's items.
---
 src/lib.rs    |  2 +-
 src/macros.rs | 41 +++++++++++++++++++++++------------------
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 42bb896..972bed4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -172,7 +172,7 @@ mod schemars;
 #[doc(hidden)]
 pub mod _priv {
     pub use crate::const_fn::*;
-    pub use crate::macros::Operand;
+    pub use crate::macros::{promote, Operand};
     pub use crate::ops::*;
 }
 
diff --git a/src/macros.rs b/src/macros.rs
index 5099635..85fc60a 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -16,6 +16,13 @@ impl<I, P> Operand<FixedPoint<I, P>> for FixedPoint<I, P> {
     }
 }
 
+/// Promotes an operand of an operation to what its result is made of.
+#[doc(hidden)] // available only in `_priv` for macros.
+#[inline]
+pub fn promote<T, I, O: Operand<I>>(operand: O, _: impl FnOnce(I) -> T) -> O::Promotion {
+    operand.promote()
+}
+
 macro_rules! impl_int_operand {
     ($int:ty => $($to:ty),*) => {
         $(
@@ -57,7 +64,7 @@ macro_rules! impl_op {
             type Error = $crate::ArithmeticError;
 
             #[inline]
-            fn cadd(self, rhs: $rhs) -> Result<$res, $crate::ArithmeticError> {
+            fn cadd(self, rhs: $rhs) -> ::core::result::Result<$res, $crate::ArithmeticError> {
                 $crate::impl_op!(@checked_method (l = self, r = rhs) => l.cadd(r), $res)
             }
 
@@ -73,7 +80,7 @@ macro_rules! impl_op {
             type Error = $crate::ArithmeticError;
 
             #[inline]
-            fn csub(self, rhs: $rhs) -> Result<$res, $crate::ArithmeticError> {
+            fn csub(self, rhs: $rhs) -> ::core::result::Result<$res, $crate::ArithmeticError> {
                 $crate::impl_op!(@checked_method (l = self, r = rhs) => l.csub(r), $res)
             }
 
@@ -89,7 +96,7 @@ macro_rules! impl_op {
             type Error = $crate::ArithmeticError;
 
             #[inline]
-            fn cmul(self, rhs: $rhs) -> Result<$res, $crate::ArithmeticError> {
+            fn cmul(self, rhs: $rhs) -> ::core::result::Result<$res, $crate::ArithmeticError> {
                 $crate::impl_op!(@checked_method (l = self, r = rhs) => l.cmul(r), $res)
             }
         }
@@ -104,7 +111,7 @@ macro_rules! impl_op {
                 self,
                 rhs: $rhs,
                 mode: $crate::ops::RoundMode,
-            ) -> Result<$res, $crate::ArithmeticError> {
+            ) -> ::core::result::Result<$res, $crate::ArithmeticError> {
                 $crate::impl_op!(@checked_method (l = self, r = rhs) => l.rmul(r, mode), $res)
             }
         }
@@ -119,8 +126,8 @@ macro_rules! impl_op {
                 self,
                 rhs: $rhs,
                 mode: $crate::ops::RoundMode,
-            ) -> Result<$res, $crate::ArithmeticError> {
-                use core::convert::TryInto;
+            ) -> ::core::result::Result<$res, $crate::ArithmeticError> {
+                use ::core::convert::TryInto as _;
                 $crate::impl_op!(@checked_method (l = self, r = rhs) => {
                     $res(
                         l.try_into().map_err(|_| $crate::ArithmeticError::Overflow)?
@@ -130,21 +137,19 @@ macro_rules! impl_op {
         }
     };
     (@method ($l:ident = $lhs:expr, $r:ident = $rhs:expr) => $op:expr, $res:tt) => {{
-        use $crate::_priv::*;
-        fn up<I, O: Operand<I>>(operand: O, _: impl FnOnce(I) -> $res) -> O::Promotion {
-            operand.promote()
-        }
-        let $l = up($lhs.0, $res);
-        let $r = up($rhs.0, $res);
+        use $crate::_priv::{
+            CheckedAdd as _, CheckedMul as _, CheckedSub as _, RoundingDiv as _, RoundingMul as _,
+        };
+        let $l = $crate::_priv::promote($lhs.0, $res);
+        let $r = $crate::_priv::promote($rhs.0, $res);
         $res::from($op)
     }};
     (@checked_method ($l:ident = $lhs:expr, $r:ident = $rhs:expr) => $op:expr, $res:tt) => {{
-        use $crate::_priv::*;
-        fn up<I, O: Operand<I>>(operand: O, _: impl FnOnce(I) -> $res) -> O::Promotion {
-            operand.promote()
-        }
-        let $l = up($lhs.0, $res);
-        let $r = up($rhs.0, $res);
+        use $crate::_priv::{
+            CheckedAdd as _, CheckedMul as _, CheckedSub as _, RoundingDiv as _, RoundingMul as _,
+        };
+        let $l = $crate::_priv::promote($lhs.0, $res);
+        let $r = $crate::_priv::promote($rhs.0, $res);
         $op.map($res)
     }};
 }
-- 
2.43.0


From b913e06456bbbe0c449ea887092d3d8689a15d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:43 +0000
Subject: [PATCH 20/20] fix: reject literals beyond 128 bits also without
 overflow checks

---
 src/const_fn.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/const_fn.rs b/src/const_fn.rs
index 997ac30..f6459f3 100644
--- a/src/const_fn.rs
+++ b/src/const_fn.rs
@@ -13,6 +13,21 @@ macro_rules! const_assert {
     };
 }
 
+// Overflow is checked explicitly, because the profile may turn the implicit checks off.
+const fn mul(lhs: Int, rhs: Int) -> Int {
+    match lhs.checked_mul(rhs) {
+        Some(value) => value,
+        None => panic!("the literal is out of range"),
+    }
+}
+
+const fn add(lhs: Int, rhs: Int) -> Int {
+    match lhs.checked_add(rhs) {
+        Some(value) => value,
+        None => panic!("the literal is out of range"),
+    }
+}
+
 pub const fn pow10(power: i32) -> Int {
     const POW_10: [Int; 19] = [
         1,
@@ -44,7 +59,7 @@ pub const fn pow10(power: i32) -> Int {
     let mut i = power - POW_10.len() as i32 + 1;
 
     while i > 0 {
-        result *= 10;
+        result = mul(result, 10);
         i -= 1;
     }
 
@@ -70,20 +85,19 @@ const fn parse_digit(byte: u8) -> Int {
     digit as _
 }
 
-const fn parse_int(bytes: &[u8], start: usize, end: usize) -> Int {
+const fn parse_int(bytes: &[u8], start: usize, end: usize, signum: Int) -> Int {
     let mut result: Int = 0;
     let mut i = start;
 
     while i < end {
         let digit = parse_digit(bytes[i]);
         i += 1;
-        result += digit * pow10((end - i) as i32);
+        result = add(mul(result, 10), signum * digit);
     }
 
     result
 }
 
-// TODO: check overflow explicitly.
 pub const fn parse_fixed(str: &str, coef: Int) -> Int {
     let bytes = str.as_bytes();
     let signum = if bytes[0] == b'-' { -1 } else { 1 };
@@ -97,20 +111,20 @@ pub const fn parse_fixed(str: &str, coef: Int) -> Int {
     let point = match find(bytes, b'.') {
         Some(point) => point,
         None => {
-            let integral = parse_int(bytes, start, bytes.len());
-            return signum * integral * coef;
+            let integral = parse_int(bytes, start, bytes.len(), signum);
+            return mul(integral, coef);
         }
     };
 
-    let integral = parse_int(bytes, start, point);
+    let integral = parse_int(bytes, start, point, signum);
     let exp = pow10((bytes.len() - point - 1) as i32);
     const_assert!(exp <= coef);
 
-    let fractional = parse_int(bytes, point + 1, bytes.len());
-    let final_integral = integral * coef;
-    let final_fractional = coef / exp * fractional;
+    let fractional = parse_int(bytes, point + 1, bytes.len(), signum);
+    let final_integral = mul(integral, coef);
+    let final_fractional = mul(coef / exp, fractional);
 
-    signum * (final_integral + final_fractional)
+    add(final_integral, final_fractional)
 }
 
 #[test]
-- 
2.43.0

