From c32ad881f6e82e4bab644ce8215e8dea717e230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:43 +0000
Subject: [PATCH 1/6] fix: ApInt::is_one inspected the most significant digit
 instead of the least significant one

---
 src/apint/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/apint/utils.rs b/src/apint/utils.rs
index 7b9cf95..cdc66e8 100644
--- a/src/apint/utils.rs
+++ b/src/apint/utils.rs
@@ -403,9 +403,9 @@ impl ApInt {
         match self.access_data() {
             DataAccess::Inl(digit) => digit == Digit::ONE,
             DataAccess::Ext(digits) => {
-                let (last, rest) =
-                    digits.split_last().unwrap_or_else(|| unreachable!());
-                (*last == Digit::ONE)
+                let (first, rest) =
+                    digits.split_first().unwrap_or_else(|| unreachable!());
+                (*first == Digit::ONE)
                     && rest.iter().all(|digit| digit.is_zero())
             }
         }
-- 
2.43.0


From 3215f4c0eee99a17f54338f06f621ddf70fc2b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:43 +0000
Subject: [PATCH 2/6] fix: ApInt::is_all_set ignored the top digit for widths
 that are a multiple of 64

---
 src/apint/bitwise.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/apint/bitwise.rs b/src/apint/bitwise.rs
index 8a8fe3c..25fcc54 100644
--- a/src/apint/bitwise.rs
+++ b/src/apint/bitwise.rs
@@ -182,10 +182,9 @@ impl ApInt {
     /// Returns``true` if all bits in the `ApInt` are set.
     pub fn is_all_set(&self) -> bool {
         let (msb, rest) = self.split_most_significant_digit();
-        if let Some(excess_bits) = self.width().excess_bits() {
-            if msb.repr().count_ones() as usize != excess_bits {
-                return false
-            }
+        let msb_bits = self.width().excess_bits().unwrap_or(Digit::BITS);
+        if msb.repr().count_ones() as usize != msb_bits {
+            return false
         }
         rest.iter().all(|d| *d == Digit::ONES)
     }
-- 
2.43.0


From a9bb469578db77b5fb87c0f6d1a952b6b0887d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:43 +0000
Subject: [PATCH 3/6] fix: signed division and remainder panicked and modified
 operands of different widths instead of returning an error

---
 src/apint/arithmetic.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/apint/arithmetic.rs b/src/apint/arithmetic.rs
index a86df73..d061c71 100644
--- a/src/apint/arithmetic.rs
+++ b/src/apint/arithmetic.rs
@@ -1668,6 +1668,9 @@ impl ApInt {
         lhs: &mut ApInt,
         rhs: &mut ApInt,
     ) -> Result<()> {
+        if lhs.width() != rhs.width() {
+            return Error::unmatching_bitwidths(lhs.width(), rhs.width()).into()
+        }
         if rhs.is_zero() {
             return Err(Error::division_by_zero(
                 DivOp::SignedDivRem,
@@ -1713,6 +1716,9 @@ impl ApInt {
         lhs: &mut ApInt,
         rhs: &mut ApInt,
     ) -> Result<()> {
+        if lhs.width() != rhs.width() {
+            return Error::unmatching_bitwidths(lhs.width(), rhs.width()).into()
+        }
         if rhs.is_zero() {
             return Err(Error::division_by_zero(
                 DivOp::SignedRemDiv,
@@ -1754,6 +1760,9 @@ impl ApInt {
     /// - If `lhs` and `rhs` have unmatching bit widths.
     /// - If division by zero is attempted
     pub fn wrapping_sdiv_assign(&mut self, rhs: &ApInt) -> Result<()> {
+        if self.width() != rhs.width() {
+            return Error::unmatching_bitwidths(self.width(), rhs.width()).into()
+        }
         if rhs.is_zero() {
             return Err(Error::division_by_zero(DivOp::SignedDiv, self.clone()))
         }
@@ -1801,6 +1810,9 @@ impl ApInt {
     /// - If `lhs` and `rhs` have unmatching bit widths.
     /// - If division by zero is attempted
     pub fn wrapping_srem_assign(&mut self, rhs: &ApInt) -> Result<()> {
+        if self.width() != rhs.width() {
+            return Error::unmatching_bitwidths(self.width(), rhs.width()).into()
+        }
         if rhs.is_zero() {
             return Err(Error::division_by_zero(DivOp::SignedRem, self.clone()))
         }
-- 
2.43.0


From 1160210be2999f982c1cbb52d50baf4b30391973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:43 +0000
Subject: [PATCH 4/6] fix: deserializing an ApInt from an empty sequence
 panicked instead of returning an error

---
 src/apint/serde_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/apint/serde_impl.rs b/src/apint/serde_impl.rs
index 1d3c1b8..b4ad7df 100644
--- a/src/apint/serde_impl.rs
+++ b/src/apint/serde_impl.rs
@@ -262,7 +262,9 @@ impl<'de> Deserialize<'de> for ApInt {
             where
                 V: SeqAccess<'de>,
             {
-                let width: BitWidth = seq.next_element()?.unwrap();
+                let width: BitWidth = seq
+                    .next_element()?
+                    .ok_or_else(|| de::Error::invalid_length(0, &self))?;
                 let digits: Vec<Digit> = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(1, &self))?;
-- 
2.43.0


From fe458f485fb123817431b691ce1b67546a2cdf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:43 +0000
Subject: [PATCH 5/6] fix: the error for an invalid character dropped its
 position and the character

---
 src/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errors.rs b/src/errors.rs
index 8399b4e..8c968db 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -215,7 +215,7 @@ impl Error {
             kind: ErrorKind::InvalidStringRepr {
                 input,
                 radix,
-                pos_char: None,
+                pos_char: Some((pos, ch)),
             },
             message: format!(
                 "Encountered an invalid character (= '{:?}') at position {:?} within \
-- 
2.43.0


From d09038930a565c156cf81c7e35d80eb4a8e5fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:26 +0000
Subject: [PATCH 6/6] fix: parse long strings in radices that are not a power
 of two

from_radix_digits dropped everything but the first chunk of digits: the
multiply-and-add step was commented out, so "340282366920938463463374607431768211455"
in radix 10 did not parse to 2^128 - 1.
---
 src/apint/serialization.rs | 39 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/apint/serialization.rs b/src/apint/serialization.rs
index 53e3cea..1a40e49 100644
--- a/src/apint/serialization.rs
+++ b/src/apint/serialization.rs
@@ -270,12 +270,9 @@ impl ApInt {
         ApInt::from_iter(data).unwrap()
     }
 
-    // Read little-endian radix digits.
+    // Read big-endian radix digits.
     //
     // Forked from: https://github.com/rust-num/num/blob/master/bigint/src/biguint.rs#L177
-    //
-    // TODO: This does not work, yet. Some parts of the algorithm are
-    //       commented-out since the required functionality does not exist, yet.
     fn from_radix_digits(v: &[u8], radix: Radix) -> ApInt {
         use crate::digit::DigitRepr;
 
@@ -291,7 +288,8 @@ impl ApInt {
         let big_digits = (bits / Digit::BITS) + 1;
         let mut data = Vec::with_capacity(big_digits as usize);
 
-        let (_base, power) = radix.get_radix_base();
+        let (base, power) = radix.get_radix_base();
+        let base = base.repr();
         let radix = DigitRepr::from(radix.to_u8());
 
         let r = v.len() % power;
@@ -305,28 +303,19 @@ impl ApInt {
 
         debug_assert!(tail.len() % power == 0);
         for chunk in tail.chunks(power) {
-            if data.last() != Some(&0) {
-                data.push(0);
-            }
-
-            let carry = 0;
-            for _d in &mut data {
-                // *d = mac_with_carry(0, *d, base, &mut carry); // TODO! This
-                // was commented out.
-
-                // // fn carry_mul_add(a: Digit, b: Digit, c: Digit, carry:
-                // Digit) -> DigitAndCarry // Returns the result
-                // of `(a + (b * c)) + carry` and its implied carry value.
-
-                // let DigitAndCarry(d, carry) = carry_mul_add(digit::ZERO, *d,
-                // base, carry); // TODO! This was commented out.
-            }
-            debug_assert!(carry == 0);
-
-            let _n = chunk
+            // data = data * base + chunk
+            let mut carry = chunk
                 .iter()
                 .fold(0, |acc, &d| acc * radix + DigitRepr::from(d));
-            // add2(&mut data, &[n]); // TODO: This was commented out.
+            for d in &mut data {
+                let wide =
+                    u128::from(*d) * u128::from(base) + u128::from(carry);
+                *d = wide as DigitRepr;
+                carry = (wide >> Digit::BITS) as DigitRepr;
+            }
+            if carry != 0 {
+                data.push(carry);
+            }
         }
 
         ApInt::from_iter(data.into_iter().map(Digit)).unwrap()
-- 
2.43.0

