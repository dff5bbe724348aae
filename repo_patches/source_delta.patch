From 46af8bbea52a7b5760ab2135566f3b0fad01b1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:59 +0000
Subject: [PATCH 1/7] fix: sign_extend must not leave excess bits set when its
 allocation unwinds

---
 src/apint/casting.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/apint/casting.rs b/src/apint/casting.rs
index 356bb6b..f7740dd 100644
--- a/src/apint/casting.rs
+++ b/src/apint/casting.rs
@@ -379,20 +379,20 @@ impl ApInt {
             assert!(target_req_digits > actual_req_digits);
             let additional_digits = target_req_digits - actual_req_digits;
 
-            // Fill most-significant-digit of `self` with `1` starting from its
-            // most-significant bit.
-            if let Some(excess_width) = actual_width.excess_width() {
-                self.most_significant_digit_mut()
-                    .sign_extend_from(excess_width)?;
-            }
-
-            let extended_copy = ApInt::from_iter(
+            let mut extended_copy = ApInt::from_iter(
                 self.digits()
                     .chain(iter::repeat(Digit::ONES).take(additional_digits)),
             )
             .and_then(|apint| apint.into_truncate(target_width))?;
 
-            self.clear_unused_bits();
+            // Fill the former most-significant-digit with `1` starting from its
+            // most-significant bit. This must be done in the copy since the
+            // unused bits of `self` must stay unset if the allocation unwinds.
+            if let Some(excess_width) = actual_width.excess_width() {
+                extended_copy.as_digit_slice_mut()[actual_req_digits - 1]
+                    .sign_extend_from(excess_width)?;
+            }
+
             *self = extended_copy;
         }
 
-- 
2.43.0


From fcd93138f93a27c40ceb715c18205cdcddd730ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:01 +0000
Subject: [PATCH 2/7] fix: assign must clone before it drops the old digits
 (double free on unwind)

---
 src/apint/casting.rs | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/src/apint/casting.rs b/src/apint/casting.rs
index f7740dd..78824d1 100644
--- a/src/apint/casting.rs
+++ b/src/apint/casting.rs
@@ -50,26 +50,9 @@ impl ApInt {
             // of digits for their representation which means that the
             // digits that may be allocated by `self` must be dropped.
             //
-            // Note that `ApInt::drop_digits` only deallocates if possible.
-            unsafe {
-                self.drop_digits();
-            }
-
-            match rhs.storage() {
-                Storage::Inl => {
-                    // If `rhs` is a small `ApInt` we can simply update
-                    // the `digit` field of `self` and we are done.
-                    self.data.inl = unsafe { rhs.data.inl };
-                }
-                Storage::Ext => {
-                    // If `rhs` is a large heap-allocated `ApInt` we first
-                    // need to expensively clone its buffer and feed it to `self`.
-                    let cloned = rhs.clone();
-                    self.data.ext = unsafe { cloned.data.ext };
-                    use core::mem;
-                    mem::forget(cloned);
-                }
-            }
+            // Note that `rhs` is cloned before the old digits of `self` are
+            // dropped since the allocation of the clone might unwind.
+            *self = rhs.clone();
         }
         // Since all cases may need bit width adjustment we outsourced it
         // to the end of this method.
-- 
2.43.0


From b66b96b79dd845ee18c9028e97a308c0ed919da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:02 +0000
Subject: [PATCH 3/7] fix: compact deserialization of an empty sequence returns
 an error instead of panicking

---
 src/apint/serde_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/apint/serde_impl.rs b/src/apint/serde_impl.rs
index 1d3c1b8..b4ad7df 100644
--- a/src/apint/serde_impl.rs
+++ b/src/apint/serde_impl.rs
@@ -262,7 +262,9 @@ impl<'de> Deserialize<'de> for ApInt {
             where
                 V: SeqAccess<'de>,
             {
-                let width: BitWidth = seq.next_element()?.unwrap();
+                let width: BitWidth = seq
+                    .next_element()?
+                    .ok_or_else(|| de::Error::invalid_length(0, &self))?;
                 let digits: Vec<Digit> = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(1, &self))?;
-- 
2.43.0


From a97edbf6e284ae78fee0f3dd69cf6e46fc14196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:04 +0000
Subject: [PATCH 4/7] fix: signed division of unmatching widths returns the
 documented error instead of panicking

---
 src/apint/arithmetic.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/apint/arithmetic.rs b/src/apint/arithmetic.rs
index a86df73..66eb44c 100644
--- a/src/apint/arithmetic.rs
+++ b/src/apint/arithmetic.rs
@@ -1674,6 +1674,9 @@ impl ApInt {
                 lhs.clone(),
             ))
         }
+        if lhs.width() != rhs.width() {
+            return Error::unmatching_bitwidths(lhs.width(), rhs.width()).into()
+        }
         let (negate_lhs, negate_rhs) = match ((*lhs).msb(), (*rhs).msb()) {
             (false, false) => (false, false),
             (true, false) => {
@@ -1719,6 +1722,9 @@ impl ApInt {
                 lhs.clone(),
             ))
         }
+        if lhs.width() != rhs.width() {
+            return Error::unmatching_bitwidths(lhs.width(), rhs.width()).into()
+        }
         let (negate_lhs, negate_rhs) = match ((*lhs).msb(), (*rhs).msb()) {
             (false, false) => (false, false),
             (true, false) => {
@@ -1757,6 +1763,9 @@ impl ApInt {
         if rhs.is_zero() {
             return Err(Error::division_by_zero(DivOp::SignedDiv, self.clone()))
         }
+        if self.width() != rhs.width() {
+            return Error::unmatching_bitwidths(self.width(), rhs.width()).into()
+        }
         let mut rhs_clone = (*rhs).clone();
         let negate_lhs = match ((*self).msb(), rhs_clone.msb()) {
             (false, false) => false,
@@ -1804,6 +1813,9 @@ impl ApInt {
         if rhs.is_zero() {
             return Err(Error::division_by_zero(DivOp::SignedRem, self.clone()))
         }
+        if self.width() != rhs.width() {
+            return Error::unmatching_bitwidths(self.width(), rhs.width()).into()
+        }
         let mut rhs_clone = (*rhs).clone();
         let negate_lhs = match ((*self).msb(), rhs_clone.msb()) {
             (false, false) => false,
-- 
2.43.0


From 4262113d324a97d2e9fb550e0df9382381d87d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:04 +0000
Subject: [PATCH 5/7] fix: is_one of multi-digit values must look at the least
 significant digit

---
 src/apint/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/apint/utils.rs b/src/apint/utils.rs
index 7b9cf95..cdc66e8 100644
--- a/src/apint/utils.rs
+++ b/src/apint/utils.rs
@@ -403,9 +403,9 @@ impl ApInt {
         match self.access_data() {
             DataAccess::Inl(digit) => digit == Digit::ONE,
             DataAccess::Ext(digits) => {
-                let (last, rest) =
-                    digits.split_last().unwrap_or_else(|| unreachable!());
-                (*last == Digit::ONE)
+                let (first, rest) =
+                    digits.split_first().unwrap_or_else(|| unreachable!());
+                (*first == Digit::ONE)
                     && rest.iter().all(|digit| digit.is_zero())
             }
         }
-- 
2.43.0


From c20fdf4647a11fb86420559077853aaea90d5ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:06 +0000
Subject: [PATCH 6/7] fix: is_all_set must also check the most significant
 digit of widths divisible by 64

---
 src/apint/bitwise.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/apint/bitwise.rs b/src/apint/bitwise.rs
index 8a8fe3c..25fcc54 100644
--- a/src/apint/bitwise.rs
+++ b/src/apint/bitwise.rs
@@ -182,10 +182,9 @@ impl ApInt {
     /// Returns``true` if all bits in the `ApInt` are set.
     pub fn is_all_set(&self) -> bool {
         let (msb, rest) = self.split_most_significant_digit();
-        if let Some(excess_bits) = self.width().excess_bits() {
-            if msb.repr().count_ones() as usize != excess_bits {
-                return false
-            }
+        let msb_bits = self.width().excess_bits().unwrap_or(Digit::BITS);
+        if msb.repr().count_ones() as usize != msb_bits {
+            return false
         }
         rest.iter().all(|d| *d == Digit::ONES)
     }
-- 
2.43.0


From 1f161faee8a0b7d666a7895aa43268a18749a8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:55 +0000
Subject: [PATCH 7/7] fix: report position and character of an invalid digit in
 InvalidStringRepr

---
 src/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errors.rs b/src/errors.rs
index 8399b4e..8c968db 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -215,7 +215,7 @@ impl Error {
             kind: ErrorKind::InvalidStringRepr {
                 input,
                 radix,
-                pos_char: None,
+                pos_char: Some((pos, ch)),
             },
             message: format!(
                 "Encountered an invalid character (= '{:?}') at position {:?} within \
-- 
2.43.0

