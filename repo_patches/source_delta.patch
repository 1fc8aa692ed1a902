From 44f11c2f2958e8f50db7e553d824d6d0af1a8c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 01/12] fix: count digits and exponent of long inputs without
 wrapping when parsing

The digit counter, the scale minus exponent and the exponent accumulator
were kept in i8/i32 and overflowed before the length limits were checked,
so long inputs panicked (debug) or were accepted with a wrong value.
---
 src/serde.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 51955ff..6aaecd8 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -20,8 +20,8 @@ impl FixedDecimal {
         if bs.is_empty() {
             return Err(Error::ConversionSyntax);
         }
-        let mut exp = 0; // exponent
-        let mut d = 0; // total digits of input
+        let mut exp: isize = 0; // exponent
+        let mut d: isize = 0; // total digits of input
         let mut dotchar = -1; // position of dot character
         let mut last = -1; // position of last digit
         let mut cfirst = 0; // position of first digit
@@ -103,17 +103,16 @@ impl FixedDecimal {
                 }
             }
             let firstexp = i; // save exponent digit place
+            // maximum exponent is 65, with sign at most 4 chars
+            if bs.len() as isize >= firstexp + 4 {
+                return Err(Error::ConversionSyntax);
+            }
             for c in bs[i as usize..].iter() {
                 if *c < b'0' || *c > b'9' {
                     // not a digit
                     return Err(Error::ConversionSyntax);
                 }
-                exp = exp * 10 + *c as i32 - '0' as i32;
-                i += 1
-            }
-            // maximum exponent is 65, with sign at most 4 chars
-            if i >= firstexp + 4 {
-                return Err(Error::ConversionSyntax);
+                exp = exp * 10 + (*c - b'0') as isize;
             }
             if (!nege && exp as usize > MAX_DIGITS) || (nege && exp as usize > MAX_FRAC) {
                 return Err(Error::ConversionSyntax);
@@ -131,10 +130,10 @@ impl FixedDecimal {
             last - dotchar
         };
         // apply exponent to frac
-        let (frac, digits, mut heading_zeroes) = {
-            let mut frac = frac_digits as i8 - exp as i8;
+        let (frac, digits, heading_zeroes) = {
+            let mut frac = frac_digits - exp;
             let digits;
-            let mut heading_zeroes = 0i8;
+            let mut heading_zeroes = 0;
             match frac.cmp(&0) {
                 Ordering::Equal => digits = d,
                 Ordering::Greater => {
@@ -155,9 +154,11 @@ impl FixedDecimal {
             (frac, digits, heading_zeroes)
         };
 
-        if digits as usize > MAX_DIGITS {
+        if digits > MAX_DIGITS as isize {
             return Err(Error::ConversionSyntax);
         }
+        // all counts are limited by MAX_DIGITS, so they fit i8
+        let (frac, digits, mut heading_zeroes) = (frac as i8, digits as i8, heading_zeroes as i8);
 
         // units of integral part and fractional part
         let intg_units = get_units(digits - frac);
-- 
2.43.0


From ff560ac27e3b33fa631739046774a79e08c82979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 02/12] fix: parse "-0" as a non-negative zero

A negative zero compared less than zero and printed as "-0".
---
 src/serde.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index 6aaecd8..cdaffff 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -249,7 +249,7 @@ impl FixedDecimal {
         self.intg = digits - frac;
         self.frac = frac;
         if neg {
-            self.set_neg();
+            self.set_neg_and_check_zero();
         }
         Ok(())
     }
-- 
2.43.0


From b2c35ab4bf7c7ba3d5247936d2ee2cd62d364b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 03/12] fix: hash equal decimals equally

Equal values with different numbers of internal units (1 and 1.0, or an
arithmetic result with a leading zero unit) had different hash codes,
which breaks the contract of Hash for HashMap/HashSet keys.
---
 src/decimal.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/decimal.rs b/src/decimal.rs
index 4c67980..92ca202 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -121,6 +121,17 @@ impl FixedDecimal {
         get_units(self.frac())
     }
 
+    /// returns number of integral units without leading zero units.
+    #[inline]
+    pub(crate) fn non_zero_intg_units(&self) -> usize {
+        let frac_units = self.frac_units();
+        let mut intg_units = self.intg_units();
+        while intg_units > 0 && self.lsu[intg_units + frac_units - 1] == 0 {
+            intg_units -= 1;
+        }
+        intg_units
+    }
+
     #[inline]
     fn reset_units(&mut self) {
         self.lsu.iter_mut().for_each(|n| *n = 0);
@@ -167,20 +178,24 @@ impl FixedDecimal {
 
 /// Simple hash implementation on FixedDecimal.
 ///
-/// NOTE: Same numeric values with different number of
-/// internal units will have different hash code.
+/// Leading zero integral units and trailing zero fractional units
+/// are skipped, so that equal values always have same hash code.
 impl Hash for FixedDecimal {
     fn hash<H: Hasher>(&self, state: &mut H) {
         // hash neg flag
         state.write_u8(if self.is_neg() { 1 } else { 0 });
         // hash nbr of intg units
-        let intg_units = self.intg_units();
+        let intg_units = self.non_zero_intg_units();
         state.write_u8(intg_units as u8);
         // hash nbr of frac units
         let frac_units = self.frac_units();
-        state.write_u8(frac_units as u8);
+        let mut start = 0; // skip trailing zero frac units
+        while start < frac_units && self.lsu[start] == 0 {
+            start += 1;
+        }
+        state.write_u8((frac_units - start) as u8);
         // hash all units
-        for v in &self.lsu[..intg_units + frac_units] {
+        for v in &self.lsu[start..intg_units + frac_units] {
             state.write_u32(*v as u32)
         }
     }
-- 
2.43.0


From 85d99f5287f4f48dac0de570bed3bbd54a553131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 04/12] fix: report overflow instead of panicking in add and
 sub

Operands whose aligned integral and fractional units exceed the storage,
a carry out of the most significant unit, and results using all units
made add/sub index beyond the unit array and panic.
---
 src/arith.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index b06722f..02cb044 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -198,10 +198,13 @@ impl Rem for FixedDecimal {
 /// intg is added with 0 and carry.
 fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {
     res.set_zero(); // always clear result first
-    let liu = lhs.intg_units();
+    let liu = lhs.non_zero_intg_units();
     let lfu = lhs.frac_units();
-    let riu = rhs.intg_units();
+    let riu = rhs.non_zero_intg_units();
     let rfu = rhs.frac_units();
+    if liu.max(riu) + lfu.max(rfu) > MAX_UNITS {
+        return Err(Error::Overflow);
+    }
     let mut frac_unit_diff = lfu as isize - rfu as isize;
     let mut lhs_idx: isize = 0;
     let mut rhs_idx: isize = 0;
@@ -241,9 +244,6 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             res_idx += 1;
             lhs_idx += 1;
         }
-        if carry > 0 {
-            res.lsu[res_idx as usize] = carry;
-        }
     } else if intg_unit_diff < 0 {
         // rhs has more intg
         stop = rhs_idx - intg_unit_diff;
@@ -254,15 +254,16 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             res_idx += 1;
             rhs_idx += 1;
         }
-        if carry > 0 {
-            res.lsu[res_idx as usize] = carry;
-        }
-    } else if carry != 0 {
+    }
+    if carry > 0 {
         // no more intg but carry is non-zero
+        if res_idx == MAX_UNITS as isize {
+            return Err(Error::Overflow);
+        }
         res.lsu[res_idx as usize] = carry;
     }
 
-    let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize;
+    let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize - 1;
     res.frac = lhs.frac.max(rhs.frac);
     let res_frac_units = res.frac_units() as isize;
     while res_intg_non_zero >= 0 {
@@ -291,10 +292,13 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
 /// |      |  intg  |   common    |  frac  |
 fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<bool> {
     res.set_zero(); // always clear result first
-    let liu = lhs.intg_units();
+    let liu = lhs.non_zero_intg_units();
     let lfu = lhs.frac_units();
-    let riu = rhs.intg_units();
+    let riu = rhs.non_zero_intg_units();
     let rfu = rhs.frac_units();
+    if liu.max(riu) + lfu.max(rfu) > MAX_UNITS {
+        return Err(Error::Overflow);
+    }
     let mut frac_unit_diff = lfu as isize - rfu as isize;
     let mut lhs_idx: isize = 0;
     let mut rhs_idx: isize = 0;
@@ -367,7 +371,7 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             borrow = b0;
         }
     }
-    let mut res_intg_non_zero = liu.max(riu) as isize;
+    let mut res_intg_non_zero = liu.max(riu) as isize - 1;
     res.frac = lhs.frac.max(rhs.frac);
     let result_frac_units = res.frac_units();
     while res_intg_non_zero >= 0 {
-- 
2.43.0


From 14bced85f2061ab91f7774a715c1c66ee7ae8803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 05/12] fix: multiply without panicking on small or wide
 operands

Rows truncated completely tripped a debug assertion (or, in release,
wrote the carry one unit off), digit counts wrapped in i8, and leading
zero units of the operands or the product were counted as integral
digits, which reported overflow or dropped fractional digits of products
that fit.
---
 src/arith.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 02cb044..e01762a 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -393,10 +393,14 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
 /// reaching the limitation of MAX_UNITS or MAX_FRAC_UNITS.
 fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {
     res.set_zero(); // always clear result first
-    let res_intg_digits = lhs.intg() + rhs.intg();
-    let res_intg_units = get_units(res_intg_digits);
-    let res_frac_digits = lhs.frac() + rhs.frac();
-    let mut res_frac_units = get_units(res_frac_digits);
+    let liu = lhs.non_zero_intg_units();
+    let lfu = lhs.frac_units();
+    let riu = rhs.non_zero_intg_units();
+    let rfu = rhs.frac_units();
+    let res_intg_digits = intg_digits(lhs, liu) + intg_digits(rhs, riu);
+    let mut res_intg_units = (res_intg_digits + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT;
+    let res_frac_digits = lhs.frac() as usize + rhs.frac() as usize;
+    let mut res_frac_units = (res_frac_digits + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT;
     if res_intg_units > MAX_UNITS {
         // integral overflow
         return Err(Error::Overflow);
@@ -409,10 +413,6 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         // exceeds maximum fractional units
         res_frac_units = MAX_FRAC_UNITS;
     }
-    let liu = lhs.intg_units();
-    let lfu = lhs.frac_units();
-    let riu = rhs.intg_units();
-    let rfu = rhs.frac_units();
     // because result fractional part may be truncated, we need to calculate
     // how many units has to be shifted and can be ignored in calculation.
     // 1. If lhsIdx + rhsIdx - shiftUnits < -1, we can ignore the result
@@ -443,7 +443,9 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             carry = v / UNIT as i64;
             res.lsu[res_idx as usize] = (v - carry * UNIT as i64) as i32;
         }
-        debug_assert!(res_idx >= 0);
+        if res_idx < -1 {
+            continue; // all units of this row are truncated
+        }
         if res_idx + 1 < MAX_UNITS as isize {
             res.lsu[(res_idx + 1) as usize] = carry as i32;
         } else if carry > 0 {
@@ -451,11 +453,25 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         }
         carry = 0
     }
-    res.frac = res_frac_digits.min((res_frac_units * DIGITS_PER_UNIT) as i8);
+    // remove leading zero units
+    while res_intg_units > 0 && res.lsu[res_intg_units + res_frac_units - 1] == 0 {
+        res_intg_units -= 1;
+    }
+    res.frac = res_frac_digits.min(res_frac_units * DIGITS_PER_UNIT) as i8;
     res.intg = (res_intg_units * DIGITS_PER_UNIT) as i8;
     Ok(())
 }
 
+/// returns number of integral digits without leading zeroes.
+/// intg_units is the number of integral units without leading zero units.
+fn intg_digits(fd: &FixedDecimal, intg_units: usize) -> usize {
+    if intg_units == 0 {
+        return 0;
+    }
+    let msu = fd.lsu[intg_units + fd.frac_units() - 1];
+    intg_units * DIGITS_PER_UNIT - unit_leading_zeroes(msu)
+}
+
 /// Divides two decimals' absolute values.
 /// It's implementation of Knuth's Algorithm 4.3.1 D, with support on fractional numbers.
 #[allow(clippy::many_single_char_names)]
-- 
2.43.0


From f66ce78ebffa6483a5042154ef893546e5492c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 06/12] fix: divide correctly with wide operands, low quotients
 and add back

Units of the partial products below the buffer start were discarded, so
quotients with small dividends had wrong digits; the add back step did
not add the divider back; qhat equal to the unit base was not corrected;
digit counts of wide operands wrapped in i8; and the integral digit count
could be one too small.
---
 src/arith.rs | 74 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index e01762a..c6d47d7 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -83,6 +83,8 @@ impl FixedDecimal {
     #[inline]
     pub fn div_to(lhs: &Self, rhs: &Self, res: &mut Self, incr_frac: usize) -> Result<()> {
         let res_neg = lhs.is_neg() != rhs.is_neg();
+        // result never has more than MAX_FRAC_UNITS fractional units
+        let incr_frac = incr_frac.min(MAX_FRAC_UNITS * DIGITS_PER_UNIT);
         div_abs(lhs, rhs, res, incr_frac as isize)?;
         if res_neg {
             res.set_neg_and_check_zero();
@@ -462,6 +464,11 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
     Ok(())
 }
 
+/// returns number of units required to store given number of digits.
+fn units(digits: isize) -> usize {
+    (digits as usize + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT
+}
+
 /// returns number of integral digits without leading zeroes.
 /// intg_units is the number of integral units without leading zero units.
 fn intg_digits(fd: &FixedDecimal, intg_units: usize) -> usize {
@@ -531,7 +538,7 @@ fn div_abs(
         incr_frac = 0;
     }
     // calculate result frac units
-    let mut res_frac_units = get_units((lhs_ext_frac + rhs_ext_frac + incr_frac) as i8);
+    let mut res_frac_units = units(lhs_ext_frac + rhs_ext_frac + incr_frac);
     if res_frac_units > MAX_FRAC_UNITS {
         // exceeds maximum fractional digits
         res_frac_units = MAX_FRAC_UNITS;
@@ -552,7 +559,7 @@ fn div_abs(
     let res_intg_units: usize;
     let res_start_idx: isize;
     if res_intg > 0 {
-        res_intg_units = get_units(res_intg as i8);
+        res_intg_units = units(res_intg);
         if res_intg_units > MAX_UNITS {
             return Err(Error::Overflow);
         }
@@ -562,9 +569,8 @@ fn div_abs(
         res_start_idx = (res_frac_units + res_intg_units) as isize - 1;
     } else {
         res_intg_units = 0;
-        let res_start_offset = get_units((1 - res_intg) as i8) as isize;
+        let res_start_offset = units(1 - res_intg) as isize;
         res_start_idx = res_frac_units as isize - res_start_offset;
-        res_intg = 0;
     }
     let res_units = res_intg_units + res_frac_units;
 
@@ -591,8 +597,8 @@ fn div_abs(
             i -= 1;
             j -= 1;
         }
-        res.intg = res_intg as i8;
         res.frac = (res_frac_units * DIGITS_PER_UNIT) as i8;
+        res.intg = intg_digits(res, res_intg_units) as i8;
         return Ok(());
     }
 
@@ -600,17 +606,19 @@ fn div_abs(
     // D1. normalization
     let norm_factor = UNIT as i64 / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);
     // normalize buf1 and buf2
-    let mut buf1 = [0i32; MAX_UNITS * 2]; // store normalized lhs
+    // lhs is shifted so that all units of each partial product have a place in buf1
+    let buf1_start = res_units + rfu;
+    let mut buf1 = [0i32; MAX_UNITS * 4]; // store normalized lhs
     let mut buf2 = [0i32; MAX_UNITS]; // store normalized rhs
     if norm_factor == 1 {
-        buf1[res_units..res_units + lhs_non_zero as usize + 1]
+        buf1[buf1_start..buf1_start + lhs_non_zero as usize + 1]
             .copy_from_slice(&lhs.lsu[..lhs_non_zero as usize + 1]);
         buf2[..rhs_non_zero as usize + 1].copy_from_slice(&rhs.lsu[..rhs_non_zero as usize + 1]);
     } else {
         let mut carry: i64 = 0;
         // normalize lhs into buf1
-        let buf1_end = res_units + lhs_non_zero as usize + 1;
-        for (b1, lv) in buf1[res_units..buf1_end]
+        let buf1_end = buf1_start + lhs_non_zero as usize + 1;
+        for (b1, lv) in buf1[buf1_start..buf1_end]
             .iter_mut()
             .zip(lhs.lsu[..lhs_non_zero as usize + 1].iter())
         {
@@ -636,7 +644,7 @@ fn div_abs(
 
     let d0 = buf2[rhs_non_zero as usize] as i64; // rhs most significant unit
     let d1 = buf2[rhs_non_zero as usize - 1] as i64; // rhs second significant unit
-    let mut i = res_units as isize + lhs_non_zero + dividend_shift; // index of normalized lhs
+    let mut i = buf1_start as isize + lhs_non_zero + dividend_shift; // index of normalized lhs
     let mut j = res_start_idx; // index of result
     while j >= 0 {
         // D3. make the guess on u1
@@ -648,14 +656,12 @@ fn div_abs(
         let u = u0 * UNIT as i64 + u1;
         let mut qhat = u / d0;
         let mut rhat = u - qhat * d0;
-        // qhat cannot be greater or equal to UNIT
-        debug_assert!(qhat < UNIT as i64, "qhat must be less than UNIT");
         let mut u2: i64 = 0;
         if i > 0 {
             u2 = buf1[i as usize - 1] as i64;
         }
-        while qhat * d1 > rhat * UNIT as i64 + u2 {
-            // check if qhat can satisfy next unit
+        while qhat >= UNIT as i64 || qhat * d1 > rhat * UNIT as i64 + u2 {
+            // check if qhat is single unit and can satisfy next unit
             qhat -= 1; // decrease qhat
             rhat += d0; // increase rhat
         }
@@ -668,38 +674,29 @@ fn div_abs(
             let mul_v = qhat * buf2[k as usize] as i64 + carry; // mul
             carry = mul_v / UNIT as i64; // update carry
             let mul_v0 = mul_v - carry * UNIT as i64; // in current unit
-            if ms_idx < 0 {
-                let (_, b0) = sub_with_borrow(0, mul_v0 as i32, borrow);
-                borrow = b0;
-            } else {
-                let (sub_v, b0) = sub_with_borrow(buf1[ms_idx as usize], mul_v0 as i32, borrow);
-                buf1[ms_idx as usize] = sub_v;
-                borrow = b0;
-            }
+            let (sub_v, b0) = sub_with_borrow(buf1[ms_idx as usize], mul_v0 as i32, borrow);
+            buf1[ms_idx as usize] = sub_v;
+            borrow = b0;
             k += 1;
             ms_idx += 1;
         }
         borrow += buf1[ms_idx as usize] - carry as i32;
         if borrow == -1 {
             // qhat is larger, cannot satisfy the whole decimal
-            // D6. add back (reverse subtract)
+            // D6. add back
             qhat -= 1; // decrease qhat
-            borrow = 0;
-            for i in 0..rhs_non_zero {
-                // reverse subtract
-                let (r0, b0) = sub_with_borrow(0, buf1[(i + j) as usize], borrow);
-                buf1[(i + j) as usize] = r0;
-                borrow = b0;
-            }
-        } else {
-            buf1[ms_idx as usize] = 0; // clear buf1 because multiply w/ subtract succeeds
+            add_back(
+                &mut buf1[(i - rhs_non_zero) as usize..ms_idx as usize],
+                &buf2[..rhs_non_zero as usize + 1],
+            );
         }
+        buf1[ms_idx as usize] = 0; // clear buf1 because multiply w/ subtract succeeds
         res.lsu[j as usize] = qhat as i32;
         i -= 1;
         j -= 1;
     }
-    res.intg = res_intg as i8;
     res.frac = (res_frac_units * DIGITS_PER_UNIT) as i8;
+    res.intg = intg_digits(res, res_intg_units) as i8;
     Ok(())
 }
 
@@ -953,6 +950,17 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
     Ok(())
 }
 
+/// adds divider back to the units it was once too often subtracted from.
+/// The final carry cancels the borrow of the subtraction.
+fn add_back(units: &mut [i32], divider: &[i32]) {
+    let mut carry = 0;
+    for (u, d) in units.iter_mut().zip(divider) {
+        let (r0, c0) = add_with_carry(*u, *d, carry);
+        *u = r0;
+        carry = c0;
+    }
+}
+
 // NOTE: carry can only be 0 or 1
 #[inline]
 pub(crate) fn add_with_carry(a: i32, b: i32, carry: i32) -> (i32, i32) {
-- 
2.43.0


From 704746afd1b35460aa5679762fd964c7c452209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 07/12] fix: compute remainders correctly on add back and
 padded operands

The add back step of the long division did not add the divider back, qhat
equal to the unit base was not corrected, and a dividend with leading
zero units could be copied beyond the unit array.
---
 src/arith.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index c6d47d7..929eead 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -745,17 +745,18 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         &rhs.lsu[..],
     ) {
         Ordering::Less => {
+            let lhs_units = lhs_non_zero as usize + 1;
             if rfu > lfu {
                 // rhs has higher fractional precision
-                res.lsu[rfu - lfu..liu + rfu].copy_from_slice(&lhs.lsu[..lfu + liu]);
+                res.lsu[rfu - lfu..rfu - lfu + lhs_units].copy_from_slice(&lhs.lsu[..lhs_units]);
                 res.frac = rhs_frac;
-                res.intg = lhs_intg;
+                res.intg = intg_digits(lhs, lhs_units.saturating_sub(lfu)) as i8;
                 return Ok(());
             }
             // lhs has higher or same fractional precision
-            res.lsu[..lfu + liu].copy_from_slice(&lhs.lsu[..lfu + liu]);
+            res.lsu[..lhs_units].copy_from_slice(&lhs.lsu[..lhs_units]);
             res.frac = lhs_frac.max(rhs_frac);
-            res.intg = lhs_intg;
+            res.intg = intg_digits(lhs, lhs_units.saturating_sub(lfu)) as i8;
             return Ok(());
         }
         Ordering::Equal => return Ok(()), // lhs equals to rhs, result is zero
@@ -873,13 +874,12 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         let u = u0 * UNIT as i64 + u1;
         let mut qhat = u / d0;
         let mut rhat = u - qhat * d0 as i64;
-        debug_assert!(qhat < UNIT as i64, "qhat must be less than Unit");
         let mut u2 = 0;
         if i > 0 {
             u2 = buf1[(i - 1) as usize] as i64;
         }
-        while qhat * d1 > rhat * UNIT as i64 + u2 {
-            // check if qhat can satisfy next unit
+        while qhat >= UNIT as i64 || qhat * d1 > rhat * UNIT as i64 + u2 {
+            // check if qhat is single unit and can satisfy next unit
             qhat -= 1;
             rhat += d0;
         }
@@ -901,14 +901,12 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         borrow += buf1[(i + 1) as usize] - carry as i32;
         if borrow == -1 {
             // qhat is larger, cannot satisfy the whole decimal
-            // D6. add back (reverse subtract)
+            // D6. add back
             // should decrease qhat, but not used in remainder
-            borrow = 0; // reset borrow to zero
-            for b in &mut buf1[(i - buf2_len + 1) as usize..(i + 1) as usize] {
-                let (r0, b0) = sub_with_borrow(0, *b, borrow);
-                borrow = b0;
-                *b = r0;
-            }
+            add_back(
+                &mut buf1[(i - buf2_len + 1) as usize..(i + 1) as usize],
+                &buf2[..buf2_len as usize],
+            );
         }
         buf1[(i + 1) as usize] = 0;
         i -= 1;
-- 
2.43.0


From a413a0e6178f1984aa2a49677ccba0262094de6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 08/12] fix: clear extended units when rounding in place to a
 larger scale

1.round(9) became 1.000000001 because the moved units were not cleared.
---
 src/round.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/round.rs b/src/round.rs
index 78f730e..9c17d1a 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -26,6 +26,7 @@ impl FixedDecimal {
             // copy with offset
             self.lsu
                 .copy_within(..frac_units + intg_units, round_frac_units - frac_units);
+            self.lsu[..round_frac_units - frac_units].fill(0); // reset lower units to zero
             self.frac = frac as i8;
             return;
         }
-- 
2.43.0


From b79958182196fbfa96c308a9c5c9c8a2b456c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 09/12] fix: round integral digits at unit edges and at the
 first digit

Rounding away a multiple of nine integral digits never rounded up, and
rounding away exactly all integral digits always gave zero, e.g. 9 at -1.
---
 src/round.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/round.rs b/src/round.rs
index 9c17d1a..aae43ee 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -35,11 +35,11 @@ impl FixedDecimal {
         let mut carry: i32 = 0;
         if frac < 0 {
             // round integral part
-            let intg = -frac;
-            if intg + 1 > self.intg() as isize {
+            if frac < -(self.intg() as isize) {
                 self.set_zero();
                 return;
             }
+            let intg = -frac;
             self.lsu.copy_within(frac_units..frac_units + intg_units, 0);
             for v in &mut self.lsu[intg_units..frac_units + intg_units] {
                 *v = 0; // reset higher units to zero
@@ -47,6 +47,9 @@ impl FixedDecimal {
             frac_units = 0;
             round_frac = 0;
             trunc = intg;
+            if mod9(trunc as i8) == 0 && self.lsu[div9(trunc as i8) - 1] >= HALF_UNIT as i32 {
+                carry = 1; // at edge of one unit, check rounding on the unit below
+            }
         } else {
             round_frac = frac as i8;
             let mut round_frac_units = get_units(frac as i8 + 1); // how many units we need to keep for rounding
@@ -111,15 +114,18 @@ impl FixedDecimal {
         let mut carry: i32 = 0;
         if frac < 0 {
             // round integral part
-            let intg = -frac;
-            if intg + 1 > self.intg() as isize {
+            if frac < -(self.intg() as isize) {
                 res.set_zero();
                 return;
             }
+            let intg = -frac;
             res.lsu[..intg_units].copy_from_slice(&self.lsu[frac_units..frac_units + intg_units]); // remove fractional units
             frac_units = 0;
             round_frac = 0;
             trunc = intg;
+            if mod9(trunc as i8) == 0 && res.lsu[div9(trunc as i8) - 1] >= HALF_UNIT as i32 {
+                carry = 1; // at edge of one unit, check rounding on the unit below
+            }
         } else {
             round_frac = frac as i8;
             let mut round_frac_units = get_units(frac as i8 + 1); // how many units we need to keep for rounding
-- 
2.43.0


From 7e282a8e23e291f47de348a319f937e54534a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 10/12] fix: never round to a negative zero

Rounding -0.4 to zero fractional digits gave -0, which compares less than
zero and prints as "-0".
---
 src/round.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/round.rs b/src/round.rs
index aae43ee..5509a2d 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -267,7 +267,7 @@ fn round_half_up(
     fd.intg = (intg_units * DIGITS_PER_UNIT) as i8;
     fd.frac = round_frac;
     if neg {
-        fd.set_neg();
+        fd.set_neg_and_check_zero();
     }
 }
 
-- 
2.43.0


From c83f92e94d4be237026d1bc874f104ce3525ce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:23 +0000
Subject: [PATCH 11/12] fix: keep the larger scale when adding or subtracting
 two zeros

---
 src/arith.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 929eead..59d2604 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -11,7 +11,8 @@ const DIV_INCR_FRAC: usize = 4;
 impl FixedDecimal {
     #[inline]
     pub fn add_to(lhs: &Self, rhs: &Self, res: &mut Self) -> Result<()> {
-        if lhs.is_zero() {
+        // of two zeros the one with more fractional digits is returned
+        if lhs.is_zero() && (lhs.frac <= rhs.frac || !rhs.is_zero()) {
             *res = rhs.clone();
             return Ok(());
         }
@@ -37,7 +38,8 @@ impl FixedDecimal {
 
     #[inline]
     pub fn sub_to(lhs: &Self, rhs: &Self, res: &mut Self) -> Result<()> {
-        if lhs.is_zero() {
+        // of two zeros the one with more fractional digits is returned
+        if lhs.is_zero() && (lhs.frac <= rhs.frac || !rhs.is_zero()) {
             *res = rhs.clone();
             if res.is_neg() {
                 res.set_pos();
-- 
2.43.0


From 1e678f1cea75c258b843829ea0d938d7d8f04521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:02 +0000
Subject: [PATCH 12/12] fix: never give zero a sign in set_neg

---
 src/decimal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decimal.rs b/src/decimal.rs
index 92ca202..8e2be36 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -65,7 +65,10 @@ impl FixedDecimal {
 
     #[inline]
     pub fn set_neg(&mut self) {
-        self.intg |= 0x80u8 as i8;
+        // zero has no sign
+        if !self.is_zero() {
+            self.intg |= 0x80u8 as i8;
+        }
     }
 
     #[inline]
-- 
2.43.0

