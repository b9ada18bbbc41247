From a9aa21ed47a9664e2db8879fe1d1901d5ed7852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:51 +0000
Subject: [PATCH 01/30] fix: rem_u32_mut overflowed u32 for divisors above 2^16

---
 src/ubigint/arith/rem.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ubigint/arith/rem.rs b/src/ubigint/arith/rem.rs
index d12c44d..bd3ce54 100644
--- a/src/ubigint/arith/rem.rs
+++ b/src/ubigint/arith/rem.rs
@@ -45,17 +45,18 @@ impl UBigInt {
     }
 
     pub fn rem_u32_mut(&mut self, other: u32) {
-        let unit = ((1 << 32) % other as u64) as u32;
+        let other = other as u64;
+        let unit = (1 << 32) % other;
         let mut curr_power = 1;
         let mut result = 0;
 
         for d in self.0.iter() {
-            result += (d % other) * curr_power % other;
+            result += (*d as u64 % other) * curr_power % other;
             curr_power *= unit;
             curr_power %= other;
         }
 
-        *self = UBigInt::from_u32(result % other);
+        *self = UBigInt::from_u32((result % other) as u32);
 
         #[cfg(test)] {
             let mut t = self.rem(&UBigInt::from_u32(other as u32));
-- 
2.43.0


From d9493208e83f40fc6725b0cf8e67307e5e45a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:03 +0000
Subject: [PATCH 02/30] fix: BigInt operations with i32::MIN, i64::MIN and
 i128::MIN overflowed

---
 src/bigint/arith/add.rs | 8 ++++----
 src/bigint/arith/div.rs | 4 ++--
 src/bigint/arith/mul.rs | 4 ++--
 src/bigint/arith/rem.rs | 6 +++---
 src/bigint/arith/sub.rs | 8 ++++----
 src/bigint/comp.rs      | 8 ++++----
 src/bigint/convert.rs   | 6 +++---
 7 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/bigint/arith/add.rs b/src/bigint/arith/add.rs
index 12ba334..a31bcc0 100644
--- a/src/bigint/arith/add.rs
+++ b/src/bigint/arith/add.rs
@@ -56,11 +56,11 @@ impl BigInt {
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn add_i32(&self, other: i32) -> Self {
         if self.is_neg() == (other < 0) {
-            BigInt::from_ubi(self.val.add_u32(other.abs() as u32), self.is_neg())
+            BigInt::from_ubi(self.val.add_u32(other.unsigned_abs()), self.is_neg())
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             let abs_diff = if self_less {
                 UBigInt::from_u32(other_abs - self.val.to_u32().unwrap())
@@ -79,11 +79,11 @@ impl BigInt {
 
     pub fn add_i32_mut(&mut self, other: i32) {
         if self.is_neg() == (other < 0) {
-            self.val.add_u32_mut(other.abs() as u32);
+            self.val.add_u32_mut(other.unsigned_abs());
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             if self_less {
                 self.val = UBigInt::from_u32(other_abs - self.val.to_u32().unwrap());
diff --git a/src/bigint/arith/div.rs b/src/bigint/arith/div.rs
index ff7b35a..a82a78e 100644
--- a/src/bigint/arith/div.rs
+++ b/src/bigint/arith/div.rs
@@ -22,7 +22,7 @@ impl BigInt {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn div_i32(&self, other: i32) -> Self {
-        let val = self.val.div_u32(other.abs() as u32);
+        let val = self.val.div_u32(other.unsigned_abs());
         let is_neg = !val.is_zero() && self.is_neg() != (other < 0);
 
         let result = BigInt::from_ubi(val, is_neg);
@@ -33,7 +33,7 @@ impl BigInt {
     }
 
     pub fn div_i32_mut(&mut self, other: i32) {
-        self.val.div_u32_mut(other.abs() as u32);
+        self.val.div_u32_mut(other.unsigned_abs());
         self._is_neg = !self.val.is_zero() && self.is_neg() != (other < 0);
         #[cfg(test)] assert!(self.is_valid());
     }
diff --git a/src/bigint/arith/mul.rs b/src/bigint/arith/mul.rs
index 5a3fb94..4e74bb5 100644
--- a/src/bigint/arith/mul.rs
+++ b/src/bigint/arith/mul.rs
@@ -22,7 +22,7 @@ impl BigInt {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn mul_i32(&self, other: i32) -> Self {
-        let val = self.val.mul_u32(other.abs() as u32);
+        let val = self.val.mul_u32(other.unsigned_abs());
         let is_neg = !val.is_zero() && self.is_neg() != (other < 0);
 
         let result = BigInt::from_ubi(val, is_neg);
@@ -33,7 +33,7 @@ impl BigInt {
     }
 
     pub fn mul_i32_mut(&mut self, other: i32) {
-        self.val.mul_u32_mut(other.abs() as u32);
+        self.val.mul_u32_mut(other.unsigned_abs());
         self._is_neg = !self.val.is_zero() && self.is_neg() != (other < 0);
         #[cfg(test)] assert!(self.is_valid());
     }
diff --git a/src/bigint/arith/rem.rs b/src/bigint/arith/rem.rs
index 6dd52f2..49265a1 100644
--- a/src/bigint/arith/rem.rs
+++ b/src/bigint/arith/rem.rs
@@ -26,7 +26,7 @@ impl BigInt {
     // x % y = -(-x % y)
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn rem_i32(&self, other: i32) -> Self {
-        let new_val = self.val.rem_u32(other.abs() as u32);
+        let new_val = self.val.rem_u32(other.unsigned_abs());
         let is_neg = self.is_neg() & !new_val.is_zero();
 
         let result = BigInt::from_ubi(new_val, is_neg);
@@ -37,7 +37,7 @@ impl BigInt {
     }
 
     pub fn rem_i32_mut(&mut self, other: i32) {
-        self.val.rem_u32_mut(other.abs() as u32);
+        self.val.rem_u32_mut(other.unsigned_abs());
         self._is_neg = self.is_neg() & !self.val.is_zero();
         #[cfg(test)] assert!(self.is_valid());
     }
@@ -45,7 +45,7 @@ impl BigInt {
     /// `other` must be a power of 2
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn rem_pow2(&self, other: i32) -> Self {
-        let new_val = self.val.rem_pow2(other.abs() as u32);
+        let new_val = self.val.rem_pow2(other.unsigned_abs());
         let is_neg = self.is_neg() & !new_val.is_zero();
 
         BigInt::from_ubi(new_val, is_neg)
diff --git a/src/bigint/arith/sub.rs b/src/bigint/arith/sub.rs
index db3507f..2ac23c4 100644
--- a/src/bigint/arith/sub.rs
+++ b/src/bigint/arith/sub.rs
@@ -60,11 +60,11 @@ impl BigInt {
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn sub_i32(&self, other: i32) -> Self {
         let result = if self.is_neg() != (other < 0) {
-            BigInt::from_ubi(self.val.add_u32(other.abs() as u32), self.is_neg())
+            BigInt::from_ubi(self.val.add_u32(other.unsigned_abs()), self.is_neg())
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             let abs_diff = if self_less {
                 UBigInt::from_u32(other_abs - self.val.to_u32().unwrap())
@@ -83,11 +83,11 @@ impl BigInt {
 
     pub fn sub_i32_mut(&mut self, other: i32) {
         if self.is_neg() != (other < 0) {
-            self.val.add_u32_mut(other.abs() as u32);
+            self.val.add_u32_mut(other.unsigned_abs());
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
 
             if self_less {
diff --git a/src/bigint/comp.rs b/src/bigint/comp.rs
index 7da3c53..e6d7005 100644
--- a/src/bigint/comp.rs
+++ b/src/bigint/comp.rs
@@ -102,7 +102,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => false,
 
                 // -3 > -4
@@ -127,7 +127,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => false,
 
                 // -3 > -4
@@ -151,7 +151,7 @@ impl BigInt {
         }
 
         else {
-            self.val.to_u32().unwrap() == other.abs() as u32
+            self.val.to_u32().unwrap() == other.unsigned_abs()
         }
     }
 
@@ -181,7 +181,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => Ordering::Equal,
                 Ordering::Less if self.is_neg() => Ordering::Greater,
                 Ordering::Less => Ordering::Less,
diff --git a/src/bigint/convert.rs b/src/bigint/convert.rs
index abf2702..2cec4d9 100644
--- a/src/bigint/convert.rs
+++ b/src/bigint/convert.rs
@@ -11,7 +11,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u32(n.abs() as u32),
+            val: UBigInt::from_u32(n.unsigned_abs()),
             _is_neg,
         }
     }
@@ -33,7 +33,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u64(n.abs() as u64),
+            val: UBigInt::from_u64(n.unsigned_abs()),
             _is_neg,
         }
     }
@@ -55,7 +55,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u128(n.abs() as u128),
+            val: UBigInt::from_u128(n.unsigned_abs()),
             _is_neg,
         }
     }
-- 
2.43.0


From 6125796e85bbf105fc615dce06eab205f021135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:03 +0000
Subject: [PATCH 03/30] fix: BigInt::to_i128 rejected i128::MIN

---
 src/bigint/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/convert.rs b/src/bigint/convert.rs
index 2cec4d9..42b5aaf 100644
--- a/src/bigint/convert.rs
+++ b/src/bigint/convert.rs
@@ -64,8 +64,8 @@ impl BigInt {
         match self.val.to_u128() {
             Ok(n) => if !self.is_neg() && n <= i128::MAX as u128 {
                 Ok(n as i128)
-            } else if self.is_neg() && n < (1 << 127) {
-                Ok(-(n as i128))
+            } else if self.is_neg() && n <= (1 << 127) {
+                Ok((n as i128).wrapping_neg())  // i128::MIN.abs() > i128::MAX.abs()
             } else {
                 Err(ConversionError::NotInRange { permitted: "-1.7e38~1.7e38".to_string(), error: self.to_scientific_notation(5) })
             },
-- 
2.43.0


From 38ca639e225055604c81ed13ff3903bf15aea825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:03 +0000
Subject: [PATCH 04/30] fix: BigInt::eq_i32 panicked when the number does not
 fit in 32 bits

---
 src/bigint/comp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/comp.rs b/src/bigint/comp.rs
index e6d7005..8c93a5b 100644
--- a/src/bigint/comp.rs
+++ b/src/bigint/comp.rs
@@ -151,7 +151,7 @@ impl BigInt {
         }
 
         else {
-            self.val.to_u32().unwrap() == other.unsigned_abs()
+            self.val.eq_u32(other.unsigned_abs())
         }
     }
 
-- 
2.43.0


From 65a8e690f1bc4ccf3f374fe021b92f93c9b55252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:03 +0000
Subject: [PATCH 05/30] fix: usize::try_from(UBigInt) rejected numbers above
 u32::MAX

---
 src/ubigint/convert/into.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubigint/convert/into.rs b/src/ubigint/convert/into.rs
index 4392a13..a2c4176 100644
--- a/src/ubigint/convert/into.rs
+++ b/src/ubigint/convert/into.rs
@@ -54,7 +54,7 @@ impl_trivial_try_from!(&UBigInt, u32, to_u32);
 impl_trivial_try_from!(&UBigInt, u64, to_u64);
 impl_trivial_try_from!(&UBigInt, u128, to_u128);
 
-impl_trivial_try_from!(Fallible, &UBigInt, usize, to_u32);
+impl_trivial_try_from!(Fallible, &UBigInt, usize, to_u64);
 impl_trivial_try_from!(Fallible, &UBigInt, i8, to_u32);
 impl_trivial_try_from!(Fallible, &UBigInt, i16, to_u32);
 impl_trivial_try_from!(Fallible, &UBigInt, i32, to_u32);
-- 
2.43.0


From eaf1ab6a18552f64a1de01c5ca097af88d6cd300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:54 +0000
Subject: [PATCH 06/30] fix: UBigInt::sqrt overflowed u64 for numbers just
 below a power of 2^64

---
 src/ubigint/funcs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ubigint/funcs.rs b/src/ubigint/funcs.rs
index c26e0a3..3d64601 100644
--- a/src/ubigint/funcs.rs
+++ b/src/ubigint/funcs.rs
@@ -321,7 +321,9 @@ fn sqrt_u64(n: u64) -> u64 {
 
     let d = (1 << (l2 / 2)) * s;
 
-    let mut result = d / (1 << 28);
+    // `(sqrt(n) + 1)^2` may not fit in u64
+    let n = n as u128;
+    let mut result = d as u128 / (1 << 28);
 
     // see the comments in `UBigInt::sqrt`
     let mut div = (n.abs_diff(result * result) / (2 * result)).max(1);
@@ -364,7 +366,7 @@ fn sqrt_u64(n: u64) -> u64 {
         if div == 0 {
             #[cfg(test)] assert!(result * result <= n && n <= (result + 1) * (result + 1));
 
-            return result;
+            return result as u64;
         }
     }
 }
-- 
2.43.0


From 5c5d9639f9b37817c936042d754a7e2cbc29e149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:55 +0000
Subject: [PATCH 07/30] fix: prime_factorial overflowed its u32 divisor for
 cofactors above 2^64

---
 src/ubigint/funcs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ubigint/funcs.rs b/src/ubigint/funcs.rs
index 3d64601..3b5f24f 100644
--- a/src/ubigint/funcs.rs
+++ b/src/ubigint/funcs.rs
@@ -255,6 +255,11 @@ impl UBigInt {
                 result.push(UBigInt::from_u32(div));
             }
 
+            // larger divisors are handled below
+            if div == u32::MAX {
+                break;
+            }
+
             div += 2;
         }
 
-- 
2.43.0


From c5c0b530973b8cd7c7e80c3f02392e5fbc57ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:15 +0000
Subject: [PATCH 08/30] fix: Ratio to f32/f64 lost rounding carries,
 mis-rounded denormals and returned inf or nan near the limit

---
 src/ratio/convert/ieee754.rs | 98 ++++++++++++++++--------------------
 1 file changed, 44 insertions(+), 54 deletions(-)

diff --git a/src/ratio/convert/ieee754.rs b/src/ratio/convert/ieee754.rs
index 4834ecb..02a0976 100644
--- a/src/ratio/convert/ieee754.rs
+++ b/src/ratio/convert/ieee754.rs
@@ -73,46 +73,41 @@ impl Ratio {
             exp -= 1;
         }
 
-        let (mut frac, frac_rem) = self_clone.sub_i32(1).mul_i32(1 << 23).truncate_and_frac();
+        // the smallest exponent of a normalized number is -126: below that, it has less bits
+        let lost_bits = (-126 - exp).max(0);
 
-        // IEEE754 chooses the closest approximation
-        if frac_rem.gt(&Ratio::from_denom_and_numer_i32(2, 1)) {
-            frac.add_i32_mut(1);
+        if lost_bits > 24 {
+            return Ok(0.0);
         }
 
-        let mut frac = frac.to_i32().unwrap() as u32;
-
-        if exp < -126 {
-            frac += 1 << 23;
-            frac *= 16;
+        exp += lost_bits;
 
-            if exp < -127 {
-                frac >>= (-127 - exp).min(31);
-                exp = -127;
-            }
+        let (mut frac, frac_rem) = self_clone
+            .mul_bi(&BigInt::exp2(23))
+            .div_bi(&BigInt::exp2(lost_bits as u64))
+            .truncate_and_frac();
+        let half = Ratio::from_denom_and_numer_i32(2, 1);
 
-            // it has to choose the closest value
-            if frac % 32 > 15 {
-                frac /= 32;
-                frac += 1;
-            }
+        // IEEE754 chooses the closest approximation, and the even one if there are two
+        if frac_rem.gt(&half) || frac_rem.eq(&half) && frac.rem_i32(2).is_one() {
+            frac.add_i32_mut(1);
+        }
 
-            else {
-                frac /= 32;
-            }
+        let frac = frac.to_i32().unwrap() as u32;
 
-            if frac == 0 {
-                return Ok(0.0);
-            }
+        if frac == 0 {
+            return Ok(0.0);
         }
 
-        exp += 127;
+        // `frac` has the leading bit, unless it's denormalized
+        // if it's rounded up to the next power of 2, the carry goes to the exponent
+        let result = (((exp + 126) as u32) << 23) + frac;
 
-        if exp < 0 || exp > 255 {
+        if result >= 255 << 23 {
             return Err(ConversionError::NotInRange { permitted: "1.18e-38~3.4e38".to_string(), error: self.to_scientific_notation(5) });
         }
 
-        let result = ((neg as u32) << 31) | ((exp as u32) << 23) | frac;
+        let result = ((neg as u32) << 31) | result;
         let rp = &result as *const u32 as *const f32;
 
         unsafe { Ok(*rp) }
@@ -189,46 +184,41 @@ impl Ratio {
             exp -= 1;
         }
 
-        let (mut frac, frac_rem) = self_clone.sub_i32(1).mul_bi(&BigInt::from_i64(1 << 52)).truncate_and_frac();
+        // the smallest exponent of a normalized number is -1022: below that, it has less bits
+        let lost_bits = (-1022 - exp).max(0);
 
-        // IEEE754 chooses the closest approximation
-        if frac_rem.gt(&Ratio::from_denom_and_numer_i32(2, 1)) {
-            frac.add_i32_mut(1);
+        if lost_bits > 53 {
+            return Ok(0.0);
         }
 
-        let mut frac = frac.to_i64().unwrap() as u64;
-
-        if exp < -1022 {
-            frac += 1 << 52;
-            frac *= 16;
+        exp += lost_bits;
 
-            if exp < -1023 {
-                frac >>= (-1023 - exp).min(63);
-                exp = -1023;
-            }
+        let (mut frac, frac_rem) = self_clone
+            .mul_bi(&BigInt::exp2(52))
+            .div_bi(&BigInt::exp2(lost_bits as u64))
+            .truncate_and_frac();
+        let half = Ratio::from_denom_and_numer_i32(2, 1);
 
-            // it has to choose the closest value
-            if frac % 32 > 15 {
-                frac /= 32;
-                frac += 1;
-            }
+        // IEEE754 chooses the closest approximation, and the even one if there are two
+        if frac_rem.gt(&half) || frac_rem.eq(&half) && frac.rem_i32(2).is_one() {
+            frac.add_i32_mut(1);
+        }
 
-            else {
-                frac /= 32;
-            }
+        let frac = frac.to_i64().unwrap() as u64;
 
-            if frac == 0 {
-                return Ok(0.0);
-            }
+        if frac == 0 {
+            return Ok(0.0);
         }
 
-        exp += 1023;
+        // `frac` has the leading bit, unless it's denormalized
+        // if it's rounded up to the next power of 2, the carry goes to the exponent
+        let result = (((exp + 1022) as u64) << 52) + frac;
 
-        if exp < 0 || exp > 2047 {
+        if result >= 2047 << 52 {
             return Err(ConversionError::NotInRange { permitted: "2.23e-308~1.8e308".to_string(), error: self.to_scientific_notation(5) });
         }
 
-        let result = ((neg as u64) << 63) | ((exp as u64) << 52) | frac;
+        let result = ((neg as u64) << 63) | result;
         let rp = &result as *const u64 as *const f64;
 
         unsafe { Ok(*rp) }
-- 
2.43.0


From b2b34be4ee752879f6a232ddffe2c0174d83d54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:15 +0000
Subject: [PATCH 09/30] fix: dividing a Ratio by zero made a Ratio with
 denominator 0 instead of panicking

---
 src/ratio.rs         | 4 ++++
 src/ratio/convert.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/ratio.rs b/src/ratio.rs
index 4d68c42..5b39596 100644
--- a/src/ratio.rs
+++ b/src/ratio.rs
@@ -82,6 +82,10 @@ impl Ratio {
 
     // TODO: better name
     fn fit(&mut self) {
+        if self.denom.is_zero() {
+            panic!("Attempt to divide by zero: {:?} / {:?}", self.numer, self.denom);
+        }
+
         if self.denom.is_neg() {
             self.denom.neg_mut();
             self.numer.neg_mut();
diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index f0ca69c..8c44280 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -20,6 +20,10 @@ impl Ratio {
 
     /// optimized version of `Ratio::From<(D, N)>` and `Ratio::from_denom_and_numer`
     pub fn from_denom_and_numer_i32(mut denom: i32, mut numer: i32) -> Self {
+        if denom == 0 {
+            panic!("Attempt to divide by zero: {numer:?} / {denom:?}");
+        }
+
         let r = gcd_i32(denom, numer);
 
         if r != 1 {
-- 
2.43.0


From 7d45fffa085234342de38727bfd8bbf3cccc2cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:26 +0000
Subject: [PATCH 10/30] fix: gcd_i32, Ratio::from_denom_and_numer_i32 and
 Ratio::pow_i32 overflowed on i32::MIN

---
 src/ratio/arith/pow.rs |  8 ++++----
 src/ratio/convert.rs   | 13 ++++++++-----
 src/utils.rs           |  7 ++++---
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/ratio/arith/pow.rs b/src/ratio/arith/pow.rs
index f49e9e6..c625843 100644
--- a/src/ratio/arith/pow.rs
+++ b/src/ratio/arith/pow.rs
@@ -7,8 +7,8 @@ impl Ratio {
 
         // Safety: if a and b are coprime, a^n and b^n are coprime.
         let mut result = Ratio::from_denom_and_numer_raw(
-            self.denom.pow_u32(exp.abs() as u32),
-            self.numer.pow_u32(exp.abs() as u32),
+            self.denom.pow_u32(exp.unsigned_abs()),
+            self.numer.pow_u32(exp.unsigned_abs()),
         );
 
         if exp < 0 {
@@ -21,8 +21,8 @@ impl Ratio {
     }
 
     pub fn pow_i32_mut(&mut self, exp: i32) {
-        self.denom.pow_u32_mut(exp.abs() as u32);
-        self.numer.pow_u32_mut(exp.abs() as u32);
+        self.denom.pow_u32_mut(exp.unsigned_abs());
+        self.numer.pow_u32_mut(exp.unsigned_abs());
 
         if exp < 0 {
             self.reci_mut();
diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index 8c44280..e4f5544 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -1,6 +1,6 @@
 use crate::{Ratio, BigInt, UBigInt};
 use crate::err::ConversionError;
-use crate::utils::gcd_i32;
+use crate::utils::gcd_u32;
 use crate::ubigint::convert::_to_scientific_notation;
 use std::str::FromStr;
 
@@ -19,12 +19,15 @@ impl Ratio {
     }
 
     /// optimized version of `Ratio::From<(D, N)>` and `Ratio::from_denom_and_numer`
-    pub fn from_denom_and_numer_i32(mut denom: i32, mut numer: i32) -> Self {
+    pub fn from_denom_and_numer_i32(denom: i32, numer: i32) -> Self {
         if denom == 0 {
             panic!("Attempt to divide by zero: {numer:?} / {denom:?}");
         }
 
-        let r = gcd_i32(denom, numer);
+        // `i32::MIN.abs()` is not in the range of i32
+        let r = gcd_u32(denom.unsigned_abs(), numer.unsigned_abs()) as i64;
+        let mut denom = denom as i64;
+        let mut numer = numer as i64;
 
         if r != 1 {
             denom /= r;
@@ -36,7 +39,7 @@ impl Ratio {
             numer *= -1;
         }
 
-        Ratio::from_denom_and_numer_raw(BigInt::from_i32(denom), BigInt::from_i32(numer))
+        Ratio::from_denom_and_numer_raw(BigInt::from_i64(denom), BigInt::from_i64(numer))
     }
 
     /// This function does not do any safety checks. Use this function only when you're sure that the properties below are satisfied.
@@ -192,7 +195,7 @@ impl Ratio {
         // exponential_part is a multiple of 2 and 5. So, it uses `rem_i32(2)` and `rem_i32(5)` instead of `rem_bi` for gcd
         // -> that's much faster
         if exponential_part != 0 {
-            let mut exponential_part_bi = BigInt::from_i32(10).pow_u32(exponential_part.abs() as u32);
+            let mut exponential_part_bi = BigInt::from_i32(10).pow_u32(exponential_part.unsigned_abs());
 
             if exponential_part > 0 {
                 while result.denom.rem_pow2(2).is_zero() && exponential_part_bi.rem_pow2(2).is_zero() {
diff --git a/src/utils.rs b/src/utils.rs
index 2fb9b4c..c7d3324 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -32,10 +32,11 @@ pub fn remove_suffix_0(vec: &mut Vec<u32>) {
     }
 }
 
-pub fn gcd_i32(mut a: i32, mut b: i32) -> i32 {
-    a = a.abs();
-    b = b.abs();
+pub fn gcd_i32(a: i32, b: i32) -> i32 {
+    gcd_u32(a.unsigned_abs(), b.unsigned_abs()).try_into().expect("gcd is 2^31, which is not in the range of i32")
+}
 
+pub(crate) fn gcd_u32(mut a: u32, mut b: u32) -> u32 {
     while a != 0 {
         let r = b % a;
         b = a;
-- 
2.43.0


From 1881bf7cdd9c8376e44ca4ea96b03558d92353f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:01 +0000
Subject: [PATCH 11/30] fix: pow_u32 overflowed for exponents of 2^31 and above

---
 src/ubigint/arith/pow.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ubigint/arith/pow.rs b/src/ubigint/arith/pow.rs
index cc12a38..de53070 100644
--- a/src/ubigint/arith/pow.rs
+++ b/src/ubigint/arith/pow.rs
@@ -25,7 +25,8 @@ impl UBigInt {
         let mut curr_exp = 1;
         powers.push(self.clone());
 
-        while curr_exp * 2 <= exp {
+        // `curr_exp * 2` may overflow
+        while curr_exp <= exp / 2 {
             powers.push(powers[powers.len() - 1].mul(&powers[powers.len() - 1]));
             curr_exp *= 2;
         }
-- 
2.43.0


From 27d1c0ab9678f88ed62393a98eb75f255e79511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:01 +0000
Subject: [PATCH 12/30] fix: Ratio::from_string rejected an underscore after a
 leading 0, like 0._5

---
 src/ratio/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index e4f5544..35b2187 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -494,7 +494,7 @@ impl Ratio {
 fn get_non_decimal_char(s: &str) -> Option<char> {
     for c in s.chars() {
         match c.to_ascii_lowercase() {
-            '-' | '0' | '.' => { continue; },
+            '-' | '0' | '.' | '_' => { continue; },
             x if x.is_digit(10) => { return None; },
             _ => { return Some(c); },
         }
-- 
2.43.0


From d8f51247d5a7b138045f3f7a82dc115ec82e2a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:36 +0000
Subject: [PATCH 13/30] fix: inverse of a 1 by 1 matrix was always 1

---
 src/matrix/inv.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrix/inv.rs b/src/matrix/inv.rs
index 4cbd3a3..06d418e 100644
--- a/src/matrix/inv.rs
+++ b/src/matrix/inv.rs
@@ -22,7 +22,8 @@ impl Matrix {
 
         if n < 5 {
             if n < 2 {
-                self.clone()
+                // the only minor of a 1 by 1 matrix is 1
+                Matrix::identity(n)
             } else if n == 2 {
                 Matrix::from_raw(
                     vec![
-- 
2.43.0


From 2302bb2c3fb59484869f54935a6ffb72ae02eb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:36 +0000
Subject: [PATCH 14/30] fix: Polynomial::from_vec_generic kept leading zeros,
 so equal polynomials compared unequal

---
 src/poly.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/poly.rs b/src/poly.rs
index aa5fff8..00d887c 100644
--- a/src/poly.rs
+++ b/src/poly.rs
@@ -33,9 +33,7 @@ impl Polynomial {
     }
 
     pub fn from_vec_generic<T: Into<Ratio>>(coeffs: Vec<T>) -> Self {
-        if coeffs.is_empty() { return Polynomial::from_vec(vec![]); }
-
-        Polynomial { coeffs: coeffs.into_iter().map(|n| n.into()).collect() }
+        Polynomial::from_vec(coeffs.into_iter().map(|n| n.into()).collect())
     }
 
     pub fn to_vec(&self) -> &Vec<Ratio> {
-- 
2.43.0


From 48ca8f041273642e1d147f0bce58563a02c22b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:01 +0000
Subject: [PATCH 15/30] fix: F192 could not be converted from and to i128::MIN

---
 src/fp192/convert.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index f6e1a82..caab17d 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -24,7 +24,7 @@ impl F192 {
 
     const fn from_i128(n: i128) -> Self {
         if n < 0 {
-            let mut result = F192::from_u128(n.abs() as u128);
+            let mut result = F192::from_u128(n.unsigned_abs());
             result.digits |= SIGN_MASK;
 
             result
@@ -53,8 +53,8 @@ impl F192 {
         if self.is_neg() {
             let n = self.neg().to_u128()?;
 
-            if n < (1 << 127) {
-                Ok(-(n as i128))
+            if n <= (1 << 127) {
+                Ok((n as i128).wrapping_neg())
             }
 
             else {
-- 
2.43.0


From cb11391259a660e9d6cfd6babdba4dc7be9dc141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:01 +0000
Subject: [PATCH 16/30] fix: converting an F192 less than 1 to an integer
 overflowed its shift

---
 src/fp192/convert.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index caab17d..e0646fd 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -44,6 +44,11 @@ impl F192 {
             return Err(());
         }
 
+        // less than 1
+        if EXP_COEFF - self.exp > 127 {
+            return Ok(0);
+        }
+
         let digits = self.digits | SIGN_MASK;
 
         Ok(digits >> (EXP_COEFF - self.exp))
-- 
2.43.0


From 5642cc3c70ea2b82674dbc6514e7fe519fde701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:01 +0000
Subject: [PATCH 17/30] fix: F192 mul_i32, div_i32 and powi overflowed with
 i32::MIN and i64::MIN

---
 src/fp192/arith/div.rs | 2 +-
 src/fp192/arith/mul.rs | 2 +-
 src/fp192/funcs/pow.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fp192/arith/div.rs b/src/fp192/arith/div.rs
index 62e8b6b..e19f07b 100644
--- a/src/fp192/arith/div.rs
+++ b/src/fp192/arith/div.rs
@@ -57,7 +57,7 @@ impl F192 {
 
         let mut digits = self.digits | SIGN_MASK;
         let mut exp = self.exp;
-        let a_abs = a.abs() as u128;
+        let a_abs = a.unsigned_abs() as u128;
         let mut rem = digits % a_abs;
 
         digits /= a_abs;
diff --git a/src/fp192/arith/mul.rs b/src/fp192/arith/mul.rs
index 22ee2c8..f072efc 100644
--- a/src/fp192/arith/mul.rs
+++ b/src/fp192/arith/mul.rs
@@ -57,7 +57,7 @@ impl F192 {
 
         let mut digits = self.digits | SIGN_MASK;
         let mut exp = self.exp;
-        let a_abs = a.abs() as u128;
+        let a_abs = a.unsigned_abs() as u128;
         let mut rem = (digits & 0xffff_ffff) * a_abs;
 
         digits >>= 32;
diff --git a/src/fp192/funcs/pow.rs b/src/fp192/funcs/pow.rs
index 0f5f344..aa07749 100644
--- a/src/fp192/funcs/pow.rs
+++ b/src/fp192/funcs/pow.rs
@@ -47,7 +47,7 @@ impl F192 {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn powi(&self, n: i64) -> Self {
-        let n_abs = n.abs() as u64;
+        let n_abs = n.unsigned_abs();
         let result = powi_abs(self, n_abs);
 
         if n < 0 {
-- 
2.43.0


From b8e72d94f8d16f1dcf43c3ae96d05c9f08a68a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:01 +0000
Subject: [PATCH 18/30] fix: F192::mul_i32 overflowed when the carry makes the
 digits longer than 128 bits

---
 src/fp192/arith/mul.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fp192/arith/mul.rs b/src/fp192/arith/mul.rs
index f072efc..71f3ae7 100644
--- a/src/fp192/arith/mul.rs
+++ b/src/fp192/arith/mul.rs
@@ -71,7 +71,14 @@ impl F192 {
         }
 
         rem >>= 32;
-        digits += rem;
+
+        digits = match digits.checked_add(rem) {
+            Some(digits) => digits,
+            None => {
+                exp += 1;
+                digits / 2 + rem / 2 + (digits % 2 + rem % 2) / 2
+            },
+        };
 
         F192 {
             digits: digits & !SIGN_MASK | (((self.is_neg() != (a < 0)) as u128) << 127),
-- 
2.43.0


From 9daa23530f5ab38eccad7e52da3cecaf0ce06d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:01 +0000
Subject: [PATCH 19/30] fix: converting Ratio to F192 flipped the sign when
 rounded up to a power of 2

---
 src/fp192/convert.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index e0646fd..473cab8 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -307,7 +307,8 @@ impl From<&Ratio> for F192 {
         let mut digits: u128 = n_abs.truncate_bi().try_into().unwrap();
 
         if n_abs_rem > 15 {
-            if digits != u128::MAX {
+            // it's less than 2^127 because `lower_bound` is subtracted
+            if digits != !SIGN_MASK {
                 digits += 1;
             }
 
-- 
2.43.0


From 7cdf0bd7cd89dba91ef1d794b22bc01c07da5077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:16 +0000
Subject: [PATCH 20/30] fix: F192 to f32/f64 mis-rounded denormals and ties,
 and returned inf or nan near the limit

---
 src/fp192/convert.rs | 100 +++++++++++++++++++++++++------------------
 1 file changed, 58 insertions(+), 42 deletions(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index 473cab8..81be867 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -179,68 +179,84 @@ impl TryFrom<f64> for F192 {
 
 impl From<F192> for f32 {
     fn from(n: F192) -> f32 {
-        let mut mant = (n.digits >> 99) & 268435455;
-        let rem = mant & 31;
-        mant >>= 5;
+        if n.is_zero() {
+            return 0.0;
+        }
 
         // 254 = 127 + 127 = f32 exp bias + f192 digit bias
-        let mut exp = n.exp as i64 - EXP_COEFF as i64 + 254;
+        let exp = n.exp as i64 - EXP_COEFF as i64 + 254;
 
-        if rem > 15 {
-            mant += 1;
+        let abs = if exp > 254 {
+            f32::INFINITY
+        } else if exp < -23 {
+            0.0
+        } else {
+            let digits = n.digits | SIGN_MASK;
 
-            if mant == 8388608 {
-                mant = 0;
-                exp += 1;
-            }
-        }
+            // denormalized numbers (exp < 1) have less digits
+            let shift = if exp > 0 { 104 } else { 105 - exp as i32 };
 
-        if exp < 0 {
-            0.0
-        } else if exp > 255 {
-            if n.is_neg() {
-                f32::NEG_INFINITY
-            } else {
-                f32::INFINITY
+            // 2 ^ (shift - 1)
+            let half = 1 << (shift - 1);
+            let mut mant = (digits / half / 2) as u32;
+            let rem = digits % half;
+            let is_half_or_more = digits / half % 2 == 1;
+
+            // round to nearest, ties to even
+            if is_half_or_more && (rem != 0 || mant % 2 == 1) {
+                mant += 1;
             }
+
+            // if it's rounded up to the next power of 2, the carry goes to the exponent
+            f32::from_bits((((exp.max(1) - 1) as u32) << 23) + mant)
+        };
+
+        if n.is_neg() {
+            -abs
         } else {
-            unsafe {
-                std::mem::transmute::<u32, f32>(((n.is_neg() as u32) << 31) | (((exp as u32) & 255) << 23) | mant as u32)
-            }
+            abs
         }
     }
 }
 
 impl From<F192> for f64 {
     fn from(n: F192) -> f64 {
-        let mut mant = (n.digits >> 70) & 144115188075855871;
-        let rem = mant & 31;
-        mant >>= 5;
+        if n.is_zero() {
+            return 0.0;
+        }
 
         // 1150 = 1023 + 127 = f64 exp bias + f192 digit bias
-        let mut exp = n.exp as i64 - EXP_COEFF as i64 + 1150;
+        let exp = n.exp as i64 - EXP_COEFF as i64 + 1150;
 
-        if rem > 15 {
-            mant += 1;
+        let abs = if exp > 2046 {
+            f64::INFINITY
+        } else if exp < -52 {
+            0.0
+        } else {
+            let digits = n.digits | SIGN_MASK;
 
-            if mant == 4503599627370496 {
-                mant = 0;
-                exp += 1;
-            }
-        }
+            // denormalized numbers (exp < 1) have less digits
+            let shift = if exp > 0 { 75 } else { 76 - exp as i32 };
 
-        if exp < 0 {
-            0.0
-        } else if exp > 2047 {
-            if n.is_neg() {
-                f64::NEG_INFINITY
-            } else {
-                f64::INFINITY
+            // 2 ^ (shift - 1)
+            let half = 1 << (shift - 1);
+            let mut mant = (digits / half / 2) as u64;
+            let rem = digits % half;
+            let is_half_or_more = digits / half % 2 == 1;
+
+            // round to nearest, ties to even
+            if is_half_or_more && (rem != 0 || mant % 2 == 1) {
+                mant += 1;
             }
+
+            // if it's rounded up to the next power of 2, the carry goes to the exponent
+            f64::from_bits((((exp.max(1) - 1) as u64) << 52) + mant)
+        };
+
+        if n.is_neg() {
+            -abs
         } else {
-            unsafe {
-                std::mem::transmute::<u64, f64>(((n.is_neg() as u64) << 63) | (((exp as u64) & 2047) << 52) | mant as u64)
-            }
+            abs
         }
     }
 }
-- 
2.43.0


From bf003b26a56f2c9dbd9c260f07543b135dd50c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:16 +0000
Subject: [PATCH 21/30] fix: F192::from_str ignored the sign of hexadecimals,
 octals and binaries

---
 src/fp192/convert/string.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fp192/convert/string.rs b/src/fp192/convert/string.rs
index e17c1fe..ea47eb4 100644
--- a/src/fp192/convert/string.rs
+++ b/src/fp192/convert/string.rs
@@ -159,6 +159,10 @@ impl FromStr for F192 {
                     result = result.add(&F192::from(curr));
                 }
 
+                if is_neg {
+                    result = result.neg();
+                }
+
                 Ok(result)
             },
             ParseState::ReadDigit
-- 
2.43.0


From 2e65523307e9ed77813de566a5bcd27e51dff761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:16 +0000
Subject: [PATCH 22/30] fix: F192::from_str lost significant digits after
 leading zeros

---
 src/fp192/convert/string.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fp192/convert/string.rs b/src/fp192/convert/string.rs
index ea47eb4..d33ae9d 100644
--- a/src/fp192/convert/string.rs
+++ b/src/fp192/convert/string.rs
@@ -168,6 +168,10 @@ impl FromStr for F192 {
             ParseState::ReadDigit
             | ParseState::ReadSubZero
             | ParseState::ReadExp => {
+                // otherwise, leading zeros take the place of significant digits
+                let leading_zeros = digit_buffer.iter().take_while(|c| **c == '0').count();
+                digit_buffer = digit_buffer[leading_zeros..].to_vec();
+
                 if !exp_buffer.is_empty() {
                     exp += exp_buffer.iter().collect::<String>().parse::<i64>().or(Err(ConversionError::TryFromIntError))?;
 
-- 
2.43.0


From 86b7d417d9cc0c4fc8c2d4b49ddd74ff0582e745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:13 +0000
Subject: [PATCH 23/30] fix: F192::sqrt was off by up to 2% for numbers just
 below an odd power of 2

---
 src/fp192/funcs/sqrt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fp192/funcs/sqrt.rs b/src/fp192/funcs/sqrt.rs
index 92f0b28..46474cd 100644
--- a/src/fp192/funcs/sqrt.rs
+++ b/src/fp192/funcs/sqrt.rs
@@ -54,7 +54,8 @@ fn isqrt(n: u128) -> u128 {
     x = (x + n / x) >> 1;
     let x2 = (x + n / x) >> 1;
 
-    x.min(x2)
+    // it has to be less than 2^64, otherwise the caller's shift overflows
+    x.min(x2).min(u64::MAX as u128)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7d3f90eab84ff4ce9dc0472303c8bc3e06f52218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:46 +0000
Subject: [PATCH 24/30] fix: F192 asin and atan were off by up to 6% below
 -1/sqrt(2), inaccurate above 1/4 and unimplemented near 1

---
 src/fp192/funcs/atrigo.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/fp192/funcs/atrigo.rs b/src/fp192/funcs/atrigo.rs
index dadace4..a3f70ef 100644
--- a/src/fp192/funcs/atrigo.rs
+++ b/src/fp192/funcs/atrigo.rs
@@ -1,6 +1,9 @@
 use crate::F192;
 
-const SOME_NUMBER: F192 = F192::ONE_OVER_SQRT_2;
+// the taylor series are accurate enough when |x| <= 1/2
+fn is_near_one(x: &F192) -> bool {
+    x > &F192::ONE.shr(1)
+}
 
 impl F192 {
     #[must_use = "method returns a new number and does not mutate the original value"]
@@ -17,7 +20,7 @@ impl F192 {
             panic!("Math Domain Error: asin({self})");
         }
 
-        if self > &SOME_NUMBER {
+        if is_near_one(&result) {
             result = asin_near_one(result);
         }
 
@@ -25,7 +28,7 @@ impl F192 {
             let x_sqr = result.mul(&result);
             let mut curr_coeff = x_sqr.mul(&result).div_i32(6);
 
-            for i in 0..15 {
+            for i in 0..30 {
                 result = result.add(&curr_coeff);
                 curr_coeff = curr_coeff.mul(&x_sqr);
                 curr_coeff = curr_coeff.mul_i32((2 * i + 3) * (2 * i + 3) * (2 * i + 4));
@@ -60,7 +63,7 @@ impl F192 {
             result = F192::ONE.div(&result);
         }
 
-        if result > SOME_NUMBER {
+        if is_near_one(&result) {
             result = atan_near_one(result);
         }
 
@@ -69,7 +72,7 @@ impl F192 {
             let mut curr_x_coeff = x_sqr.mul(&result);
             let mut curr_coeff = 3;
 
-            for _ in 0..7 {
+            for _ in 0..15 {
                 result = result.sub(&curr_x_coeff.div_i32(curr_coeff));
                 curr_coeff += 2;
                 curr_x_coeff = curr_x_coeff.mul(&x_sqr);
@@ -94,12 +97,14 @@ impl F192 {
     }
 }
 
+// asin(x) = pi/2 - 2 * asin(sqrt((1 - x) / 2))
 fn asin_near_one(x: F192) -> F192 {
-    todo!("F192::asin_near_one")
+    F192::PI_OVER_2.sub(&F192::ONE.sub(&x).shr(1).sqrt().asin().shl(1))
 }
 
+// atan(x) = pi/4 - atan((1 - x) / (1 + x))
 fn atan_near_one(x: F192) -> F192 {
-    todo!("F192::atan_near_one")
+    F192::PI_OVER_4.sub(&F192::ONE.sub(&x).div(&F192::ONE.add(&x)).atan())
 }
 
 #[cfg(test)]
-- 
2.43.0


From e69fecc3c210c6292fb9955db38ab7f698a7667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:02 +0000
Subject: [PATCH 25/30] fix: F192::sub took time and memory proportional to the
 ratio of its operands

---
 src/fp192/arith/sub.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fp192/arith/sub.rs b/src/fp192/arith/sub.rs
index 0ce307d..7e1e743 100644
--- a/src/fp192/arith/sub.rs
+++ b/src/fp192/arith/sub.rs
@@ -22,6 +22,16 @@ impl F192 {
             return self.clone();
         }
 
+        // the smaller one is less than a quarter of the last digit, so it's rounded off
+        // without this, atan of a small number takes seconds
+        if self.exp > other.exp.saturating_add(129) {
+            return self.clone();
+        }
+
+        else if other.exp > self.exp.saturating_add(129) {
+            return other.neg();
+        }
+
         // TODO
         Ratio::from(self).sub(&other.into()).into()
     }
-- 
2.43.0


From 1d8bc5a71ea6726e5ee844fdedf58de972d89864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:46 +0000
Subject: [PATCH 26/30] fix: sqrt_iter returned -sqrt(abs(x)) for negative x,
 its document says sqrt(abs(x))

---
 src/ratio/funcs/root.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ratio/funcs/root.rs b/src/ratio/funcs/root.rs
index bb6e310..3652828 100644
--- a/src/ratio/funcs/root.rs
+++ b/src/ratio/funcs/root.rs
@@ -4,7 +4,7 @@ use crate::{UBigInt, BigInt, Ratio};
 pub fn sqrt_iter(x: &Ratio, iter: usize) -> Ratio {
     Ratio::from_denom_and_numer(
         x.denom.shift_left(1 + iter).sqrt(),
-        x.numer.shift_left(1 + iter).sqrt(),
+        x.numer.abs().shift_left(1 + iter).sqrt(),
     )
 }
 
-- 
2.43.0


From 7210bcd02b612391de4e8527707a9018d9d7d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:00 +0000
Subject: [PATCH 27/30] fix: cbrt_iter stopped converging when an approximation
 is reduced to a simple fraction

---
 src/ratio/funcs/root.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ratio/funcs/root.rs b/src/ratio/funcs/root.rs
index 3652828..7564e99 100644
--- a/src/ratio/funcs/root.rs
+++ b/src/ratio/funcs/root.rs
@@ -23,17 +23,18 @@ pub fn cbrt_iter(x: &Ratio, iter: usize) -> Ratio {
     );
     let x_third = x.div_i32(3);
     let two_third = Ratio::from_denom_and_numer_i32(3, 2);
+    let mut len_limit = approx.denom.len().min(approx.numer.len());
 
     // a2 = a1 - (a1^3 - x)/3a1^2 = a1 * 2/3 + x/3a1^2
     for _ in 0..iter {
-        let len_pre = approx.denom.len().min(approx.numer.len());
         approx = approx.mul(&two_third).add(&x_third.div(&approx).div(&approx));
         let len_post = approx.denom.len().min(approx.numer.len());
+        len_limit += 4;
 
         // ratio operations generate unnecessary digits, which has to be remove for the sake of performance -> it doesn't hurt accuracy at all!
-        if len_pre + 4 < len_post {
-            approx.denom.shift_right_mut(len_post - len_pre - 4);
-            approx.numer.shift_right_mut(len_post - len_pre - 4);
+        if len_limit < len_post {
+            approx.denom.shift_right_mut(len_post - len_limit);
+            approx.numer.shift_right_mut(len_post - len_limit);
             approx.fit();
         }
     }
-- 
2.43.0


From b541d8373ed01d636b6767797418d3565d004f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:51 +0000
Subject: [PATCH 28/30] fix: F192::sub hung or ran out of memory for very big
 or very small operands

---
 src/fp192/arith/sub.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/fp192/arith/sub.rs b/src/fp192/arith/sub.rs
index 7e1e743..e4f93ef 100644
--- a/src/fp192/arith/sub.rs
+++ b/src/fp192/arith/sub.rs
@@ -1,4 +1,5 @@
 use crate::{F192, Ratio};
+use crate::fp192::EXP_COEFF;
 
 impl F192 {
 
@@ -32,7 +33,20 @@ impl F192 {
             return other.neg();
         }
 
+        // both are divided by 2^scale, so that `Ratio`s don't get too big
+        let scale = self.exp.min(other.exp);
+        let s = F192 { exp: self.exp - scale + EXP_COEFF, ..*self };
+        let o = F192 { exp: other.exp - scale + EXP_COEFF, ..*other };
+
         // TODO
-        Ratio::from(self).sub(&other.into()).into()
+        let result: F192 = Ratio::from(s).sub(&o.into()).into();
+
+        if result.is_zero() || result.exp + scale < EXP_COEFF {
+            F192::ZERO
+        }
+
+        else {
+            F192 { exp: result.exp + scale - EXP_COEFF, ..result }
+        }
     }
 }
-- 
2.43.0


From c01f778c18f93ff3b06f5d842acc4a8782c0982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:34 +0000
Subject: [PATCH 29/30] fix: log2_accurate is the floor also right above a
 power of two to the 2^-32

---
 src/ubigint/funcs/log.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/ubigint/funcs/log.rs b/src/ubigint/funcs/log.rs
index b94ca0c..7310327 100644
--- a/src/ubigint/funcs/log.rs
+++ b/src/ubigint/funcs/log.rs
@@ -12,10 +12,22 @@ impl UBigInt {
     /// It returns `truncate(log2(self) * 4294967296)`. It returns 0 when `self` is 0.
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn log2_accurate(&self) -> Self {
+        let (result, power) = self.log2_with_precision(6);
+
+        // `power` is accurate up to about 128 bits. If it's that close to the next power of 2, the error may affect the result.
+        if power.log2() != power.add(&power.shift_right(3)).log2() {
+            return UBigInt::from_u64(self.log2_with_precision(self.len() + 4).0);
+        }
+
+        UBigInt::from_u64(result)
+    }
+
+    /// It keeps `precision` limbs of `self^(2^32)`. It returns `log2(self^(2^32))` and the most significant limbs of `self^(2^32)`.
+    fn log2_with_precision(&self, precision: usize) -> (u64, Self) {
         let mut result = 0;
-        let mut self_clone = if self.len() > 8 {
-            result += (self.len() - 8) as u64 * 32;
-            self.shift_right(self.len() - 8)
+        let mut self_clone = if self.len() > precision + 2 {
+            result += (self.len() - precision - 2) as u64 * 32;
+            self.shift_right(self.len() - precision - 2)
         } else {
             self.clone()
         };
@@ -25,15 +37,15 @@ impl UBigInt {
             self_clone = self_clone.mul(&self_clone);
             result *= 4;
 
-            if self_clone.len() > 6 {
-                result += (self_clone.len() - 6) as u64 * 32;
-                self_clone.shift_right_mut(self_clone.len() - 6);
+            if self_clone.len() > precision {
+                result += (self_clone.len() - precision) as u64 * 32;
+                self_clone.shift_right_mut(self_clone.len() - precision);
             }
 
         }
 
         result += (self_clone.len() as u64 - 1) * 32 + log2_u32(self_clone.0[self_clone.len() - 1]) as u64;
-        UBigInt::from_u64(result)
+        (result, self_clone)
     }
 }
 
-- 
2.43.0


From e9d3e8b7cd4f318294734961584c9d869d4021bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:45 +0000
Subject: [PATCH 30/30] fix: asin_iter didn't converge after 640 iterations

---
 src/ratio/funcs/atrigo.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ratio/funcs/atrigo.rs b/src/ratio/funcs/atrigo.rs
index fa315e4..9717070 100644
--- a/src/ratio/funcs/atrigo.rs
+++ b/src/ratio/funcs/atrigo.rs
@@ -1,4 +1,4 @@
-use crate::{Ratio, pi_iter};
+use crate::{BigInt, Ratio, pi_iter};
 
 // TODO: when x ~= 1
 
@@ -26,8 +26,9 @@ pub fn asin_iter(x: &Ratio, iter: usize) -> Ratio {
     for i in 0..iter {
         result.add_mut(&curr_coeff.mul(&curr_x_coeff));
 
-        curr_coeff.mul_i32_mut(((2 * i + 3) * (2 * i + 3) * (2 * i + 4)) as i32);
-        curr_coeff.div_i32_mut(((i + 2) * (i + 2) * (2 * i + 5) * 4) as i32);
+        // an i32 is too small for these when `iter` is greater than 640
+        curr_coeff.mul_bi_mut(&BigInt::from_i64(((2 * i + 3) * (2 * i + 3) * (2 * i + 4)) as i64));
+        curr_coeff.div_bi_mut(&BigInt::from_i64(((i + 2) * (i + 2) * (2 * i + 5) * 4) as i64));
         curr_x_coeff.mul_mut(&x_sqr);
     }
 
-- 
2.43.0

