From ae43f05a6083988600f49e371c0c6d31d95939d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:00 +0000
Subject: [PATCH 01/17] fix: compare and hash the full last limb of bit vectors
 whose length is a multiple of 64

---
 src/bit_vec/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index fc2b4de..4821490 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -1606,7 +1606,7 @@ impl PartialEq for BitVec {
         }
 
         // in last limb, ignore junk data
-        let mask = (1 << (self.len % WORD_SIZE)) - 1;
+        let mask = u64::MAX >> (WORD_SIZE - 1 - (self.len - 1) % WORD_SIZE);
         if self.data[self.data.len() - 1] & mask != other.data[self.data.len() - 1] & mask {
             return false;
         }
@@ -1624,7 +1624,8 @@ impl Hash for BitVec {
             self.data[0..self.data.len() - 1]
                 .iter()
                 .for_each(|x| state.write_u64(*x));
-            let masked_last_limb = self.data.last().unwrap() & ((1 << (self.len % WORD_SIZE)) - 1);
+            let mask = u64::MAX >> (WORD_SIZE - 1 - (self.len - 1) % WORD_SIZE);
+            let masked_last_limb = self.data.last().unwrap() & mask;
             state.write_u64(masked_last_limb);
         }
     }
-- 
2.43.0


From a18d57ac36d3e28a0f3054d85efa101d699cb8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:01 +0000
Subject: [PATCH 02/17] fix: appending zero bits must not push a limb onto the
 bit vector

---
 src/bit_vec/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index 4821490..b5e76de 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -911,6 +911,10 @@ impl BitVec {
     pub fn append_bits(&mut self, bits: u64, len: usize) {
         assert!(len <= 64, "Cannot append more than 64 bits");
 
+        if len == 0 {
+            return;
+        }
+
         if self.len.is_multiple_of(WORD_SIZE) {
             self.data.push(bits);
         } else {
@@ -948,6 +952,10 @@ impl BitVec {
     /// [`append_bits`]: BitVec::append_bits
     /// [`drop_last`]: BitVec::drop_last
     pub fn append_bits_unchecked(&mut self, bits: u64, len: usize) {
+        if len == 0 {
+            return;
+        }
+
         if self.len.is_multiple_of(WORD_SIZE) {
             self.data.push(bits);
         } else {
@@ -1196,6 +1204,10 @@ impl BitVec {
     #[allow(clippy::cast_possible_truncation)] // parameter must be out of scope for this to happen
     pub fn get_bits_unchecked(&self, pos: usize, len: usize) -> u64 {
         debug_assert!(len <= WORD_SIZE);
+        if len == 0 {
+            return 0;
+        }
+
         let partial_word = self.data[pos / WORD_SIZE] >> (pos % WORD_SIZE);
         if pos % WORD_SIZE + len <= WORD_SIZE {
             partial_word & 1u64.checked_shl(len as u32).unwrap_or(0).wrapping_sub(1)
-- 
2.43.0


From 24df3852c32274a3c83cdd18792f8840cd74b0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:01 +0000
Subject: [PATCH 03/17] fix: out-of-range bit queries near usize::MAX return
 None instead of overflowing

---
 src/bit_vec/fast_rs_vec/mod.rs | 2 +-
 src/bit_vec/mask.rs            | 2 +-
 src/bit_vec/mod.rs             | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/mod.rs b/src/bit_vec/fast_rs_vec/mod.rs
index 1d4ea69..1ac0307 100644
--- a/src/bit_vec/fast_rs_vec/mod.rs
+++ b/src/bit_vec/fast_rs_vec/mod.rs
@@ -352,7 +352,7 @@ impl RsVec {
         if len > WORD_SIZE {
             return None;
         }
-        if pos + len > self.len {
+        if pos.checked_add(len).is_none_or(|end| end > self.len) {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
diff --git a/src/bit_vec/mask.rs b/src/bit_vec/mask.rs
index 4669829..daabb1f 100644
--- a/src/bit_vec/mask.rs
+++ b/src/bit_vec/mask.rs
@@ -112,7 +112,7 @@ where
         if len > WORD_SIZE || len == 0 {
             return None;
         }
-        if pos + len > self.vec.len {
+        if pos.checked_add(len).is_none_or(|end| end > self.vec.len) {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index b5e76de..34f1817 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -1174,7 +1174,7 @@ impl BitVec {
         if len > WORD_SIZE || len == 0 {
             return None;
         }
-        if pos + len > self.len {
+        if pos.checked_add(len).is_none_or(|end| end > self.len) {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
@@ -1244,7 +1244,7 @@ impl BitVec {
     #[allow(clippy::inline_always)]
     #[inline(always)] // to gain optimization if n is constant
     pub fn unpack_element(&self, index: usize, n: usize) -> Option<u64> {
-        self.get_bits(index * n, n)
+        self.get_bits(index.checked_mul(n)?, n)
     }
 
     /// Extract a packed element from a bit vector. The element is encoded in the bits at the given
-- 
2.43.0


From 847ced043c00ef86be7c8b69425eb15132491190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:01 +0000
Subject: [PATCH 04/17] fix: RsVec::get_bits rejects empty queries like
 BitVec::get_bits does

---
 src/bit_vec/fast_rs_vec/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bit_vec/fast_rs_vec/mod.rs b/src/bit_vec/fast_rs_vec/mod.rs
index 1ac0307..46f150d 100644
--- a/src/bit_vec/fast_rs_vec/mod.rs
+++ b/src/bit_vec/fast_rs_vec/mod.rs
@@ -349,7 +349,7 @@ impl RsVec {
     /// If the length of the query is larger than 64, None is returned.
     #[must_use]
     pub fn get_bits(&self, pos: usize, len: usize) -> Option<u64> {
-        if len > WORD_SIZE {
+        if len > WORD_SIZE || len == 0 {
             return None;
         }
         if pos.checked_add(len).is_none_or(|end| end > self.len) {
-- 
2.43.0


From 25f0fce9e8dabc8799270ebacb9bb2267dda56d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:01 +0000
Subject: [PATCH 05/17] fix: masked get_bits returns all 64 bits of an
 unaligned 64-bit query

---
 src/bit_vec/mask.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bit_vec/mask.rs b/src/bit_vec/mask.rs
index daabb1f..d3bc595 100644
--- a/src/bit_vec/mask.rs
+++ b/src/bit_vec/mask.rs
@@ -156,7 +156,7 @@ where
                 self.mask.data[pos / WORD_SIZE + 1],
             ) << (WORD_SIZE - pos % WORD_SIZE);
 
-            (partial_word | next_half) & ((1 << (len % WORD_SIZE)) - 1)
+            (partial_word | next_half) & (u64::MAX >> (WORD_SIZE - len))
         }
     }
 
-- 
2.43.0


From 0787185ea3b1101f9c1482060f8cab3c2f61e9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:01 +0000
Subject: [PATCH 06/17] fix: skipping past the end of an iterator does not
 overflow its index

---
 src/util/elias_fano_iter.rs | 2 +-
 src/util/general_iter.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/elias_fano_iter.rs b/src/util/elias_fano_iter.rs
index 646d3f4..d9c0cf1 100644
--- a/src/util/elias_fano_iter.rs
+++ b/src/util/elias_fano_iter.rs
@@ -12,7 +12,7 @@ macro_rules! gen_ef_iter_impl {
                     return Ok(());
                 }
 
-                if Some(self.index + n - 1) > self.back_index {
+                if Some(self.index.saturating_add(n - 1)) > self.back_index {
                     if Some(self.index) > self.back_index {
                         Err(std::num::NonZeroUsize::new(n).unwrap())
                     } else {
diff --git a/src/util/general_iter.rs b/src/util/general_iter.rs
index afc4c73..1bd7703 100644
--- a/src/util/general_iter.rs
+++ b/src/util/general_iter.rs
@@ -32,7 +32,7 @@ macro_rules! gen_vector_iter_impl {
                     return Ok(());
                 }
 
-                if Some(self.index + n - 1) > self.back_index {
+                if Some(self.index.saturating_add(n - 1)) > self.back_index {
                     if Some(self.index) > self.back_index {
                         Err(std::num::NonZeroUsize::new(n).unwrap())
                     } else {
-- 
2.43.0


From 7095a298298f6556bb0deb062834adf5b70faaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:35 +0000
Subject: [PATCH 07/17] fix: skipping all remaining bits from the back of a
 select iterator does not underflow

---
 src/bit_vec/fast_rs_vec/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/iter.rs b/src/bit_vec/fast_rs_vec/iter.rs
index e0d4fcf..1a348aa 100644
--- a/src/bit_vec/fast_rs_vec/iter.rs
+++ b/src/bit_vec/fast_rs_vec/iter.rs
@@ -348,11 +348,11 @@ macro_rules! gen_iter_impl {
             /// implementation in the double ended iterator impl.
             pub(super) fn advance_back_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
                 if self.len() >= n {
-                    self.next_rank_back = self.next_rank_back.map(|x| x - n);
+                    self.next_rank_back = self.next_rank_back.and_then(|x| x.checked_sub(n));
                     Ok(())
                 } else {
                     let len = self.len();
-                    self.next_rank_back = self.next_rank_back.map(|x| x - len);
+                    self.next_rank_back = self.next_rank_back.and_then(|x| x.checked_sub(len));
                     Err(NonZeroUsize::new(n - len).unwrap())
                 }
             }
-- 
2.43.0


From 78adb795fc3d89766236059272199b2df0eba122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:35 +0000
Subject: [PATCH 08/17] fix: last and max of Elias-Fano iterators add the
 universe offset

---
 src/util/elias_fano_iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/elias_fano_iter.rs b/src/util/elias_fano_iter.rs
index d9c0cf1..277c5aa 100644
--- a/src/util/elias_fano_iter.rs
+++ b/src/util/elias_fano_iter.rs
@@ -107,7 +107,7 @@ macro_rules! gen_ef_iter_impl {
                 let lower = self
                     .vec
                     .get_bits_unchecked(self.back_index.unwrap() * self.lower_len, self.lower_len);
-                Some(((upper as u64) << self.lower_len) | lower)
+                Some((((upper as u64) << self.lower_len) | lower) + self.universe_zero)
             }
 
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
-- 
2.43.0


From 3cc1c2b7a6fb2dd51d7728c2b229934d6d9ccb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:35 +0000
Subject: [PATCH 09/17] fix: nth and nth_back past the end consume the iterator

---
 src/util/elias_fano_iter.rs | 12 ++++++++++--
 src/util/general_iter.rs    | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/util/elias_fano_iter.rs b/src/util/elias_fano_iter.rs
index 277c5aa..57fddf7 100644
--- a/src/util/elias_fano_iter.rs
+++ b/src/util/elias_fano_iter.rs
@@ -113,7 +113,11 @@ macro_rules! gen_ef_iter_impl {
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
             /// the iterator by `n` elements.
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_by(n).ok()?;
+                if self.advance_by(n).is_err() {
+                    // too few elements left, so all of them are skipped
+                    self.advance_by(self.len()).ok()?;
+                    return None;
+                }
                 self.next()
             }
 
@@ -167,7 +171,11 @@ macro_rules! gen_ef_iter_impl {
             }
 
             fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_back_by(n).ok()?;
+                if self.advance_back_by(n).is_err() {
+                    // too few elements left, so all of them are skipped
+                    self.advance_back_by(self.len()).ok()?;
+                    return None;
+                }
                 self.next_back()
             }
         }
diff --git a/src/util/general_iter.rs b/src/util/general_iter.rs
index 1bd7703..5662149 100644
--- a/src/util/general_iter.rs
+++ b/src/util/general_iter.rs
@@ -118,7 +118,11 @@ macro_rules! gen_vector_iter_impl {
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
             /// the iterator by `n` elements.
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_by(n).ok()?;
+                if self.advance_by(n).is_err() {
+                    // too few elements left, so all of them are skipped
+                    self.advance_by(self.len()).ok()?;
+                    return None;
+                }
                 self.next()
             }
         }
@@ -148,7 +152,11 @@ macro_rules! gen_vector_iter_impl {
             }
 
             fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_back_by(n).ok()?;
+                if self.advance_back_by(n).is_err() {
+                    // too few elements left, so all of them are skipped
+                    self.advance_back_by(self.len()).ok()?;
+                    return None;
+                }
                 self.next_back()
             }
         }
-- 
2.43.0


From a7588c474a25bebbe4d68e18209154c74153d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:37 +0000
Subject: [PATCH 10/17] fix: the SIMD bit set iterator neither repeats nor
 exceeds the last chunk

---
 src/bit_vec/fast_rs_vec/bitset.rs | 38 ++++++++-----------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/bitset.rs b/src/bit_vec/fast_rs_vec/bitset.rs
index 00cb5e0..3d4a983 100644
--- a/src/bit_vec/fast_rs_vec/bitset.rs
+++ b/src/bit_vec/fast_rs_vec/bitset.rs
@@ -91,22 +91,26 @@ impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
             cursor: 0,
         };
 
-        if vec.len() > VECTOR_SIZE {
-            iter.load_chunk(vec.get_bits_unchecked(0, VECTOR_SIZE) as u16);
+        if !vec.is_empty() {
+            iter.load_chunk();
         }
 
         iter
     }
 
-    fn load_chunk(&mut self, data: u16) {
+    fn load_chunk(&mut self) {
         use std::arch::x86_64::{__mmask16, _mm512_mask_compressstoreu_epi32, _mm512_setr_epi32};
 
+        // the last chunk of the vector may not be full
+        let chunk_len = VECTOR_SIZE.min(self.vec.len() - self.base);
+        let data = self.vec.get_bits_unchecked(self.base, chunk_len) as u16;
+
         unsafe {
             let offsets = _mm512_setr_epi32(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15);
             assert!(VECTOR_SIZE <= size_of::<u16>() * 8, "change data types");
             let mut mask = __mmask16::from(data);
             if ZERO {
-                mask = !mask;
+                mask = !mask & (u16::MAX >> (VECTOR_SIZE - chunk_len));
             }
             _mm512_mask_compressstoreu_epi32(self.offsets.as_mut_ptr() as *mut _, mask, offsets);
             self.content_len = mask.count_ones() as u8;
@@ -121,8 +125,7 @@ impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
             }
 
             self.base += VECTOR_SIZE;
-            let data = self.vec.get_bits_unchecked(self.base, VECTOR_SIZE) as u16;
-            self.load_chunk(data);
+            self.load_chunk();
         }
         Some(())
     }
@@ -132,29 +135,8 @@ impl<const ZERO: bool> Iterator for BitSetIter<'_, ZERO> {
     type Item = usize;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.base >= self.vec.len() {
-            return None;
-        }
-
         if self.cursor == self.content_len {
-            if self.load_next_chunk().is_none() {
-                if ZERO {
-                    while self.base < self.vec.len() && self.vec.get_unchecked(self.base) != 0 {
-                        self.base += 1;
-                    }
-                } else {
-                    while self.base < self.vec.len() && self.vec.get_unchecked(self.base) != 1 {
-                        self.base += 1;
-                    }
-                }
-
-                return if self.base < self.vec.len() {
-                    self.base += 1;
-                    Some(self.base - 1)
-                } else {
-                    None
-                };
-            }
+            self.load_next_chunk()?;
         }
 
         let offset = self.offsets[self.cursor as usize];
-- 
2.43.0


From 3000734013ecbcfcfbd50c8813c41876be374174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:37 +0000
Subject: [PATCH 11/17] fix: SparseRSVec::is_set_unchecked does not panic left
 of the first set bit

---
 src/bit_vec/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bit_vec/sparse.rs b/src/bit_vec/sparse.rs
index bab1b9e..94ca04c 100644
--- a/src/bit_vec/sparse.rs
+++ b/src/bit_vec/sparse.rs
@@ -149,7 +149,7 @@ impl SparseRSVec {
     /// [`is_set`]: #method.is_set
     #[must_use]
     pub fn is_set_unchecked(&self, i: u64) -> bool {
-        self.vec.predecessor_unchecked(i) == i
+        self.vec.predecessor(i).is_some_and(|p| p == i)
     }
 
     /// Returns true if the bit at position `i` is set.
-- 
2.43.0


From 9ebd6a98137949212f518fc0741ed3c2d2031744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:37 +0000
Subject: [PATCH 12/17] fix: level queries and forward search on empty trees
 return None

---
 src/trees/bp/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index c508966..ad6fe29 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -163,7 +163,7 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
     pub fn fwd_search(&self, index: usize, mut relative_excess: i64) -> Option<usize> {
         // check for greater than or equal length minus one, because the last element
         // won't ever have a result from fwd_search
-        if index >= (self.vec.len() - 1) {
+        if index >= self.vec.len().saturating_sub(1) {
             return None;
         }
 
@@ -706,7 +706,7 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
     fn level_leftmost(&self, level: u64) -> Option<Self::NodeHandle> {
         // fwd_search doesn't support returning the input position
         if level == 0 {
-            return Some(0);
+            return self.root();
         }
 
         #[allow(clippy::cast_possible_wrap)]
@@ -717,7 +717,7 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
     fn level_rightmost(&self, level: u64) -> Option<Self::NodeHandle> {
         #[allow(clippy::cast_possible_wrap)]
         // if the level exceeds 2^63, we accept that the result is wrong
-        self.open(self.bwd_search(self.size() * 2 - 1, level as i64)?)
+        self.open(self.bwd_search((self.size() * 2).checked_sub(1)?, level as i64)?)
     }
 }
 
-- 
2.43.0


From 5b061f5973fd9b93d4d1ca866ac4a0b94990945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:37 +0000
Subject: [PATCH 13/17] fix: wavelet matrix range queries return None for
 reversed ranges

---
 src/wavelet/mod.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index 7a246ca..b03c05f 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -458,6 +458,7 @@ impl WaveletMatrix {
     pub fn rank_range(&self, range: Range<usize>, symbol: &BitVec) -> Option<usize> {
         if range.start >= self.len()
             || range.end > self.len()
+            || range.start > range.end
             || symbol.len() != self.bits_per_element()
         {
             None
@@ -518,7 +519,11 @@ impl WaveletMatrix {
     /// ```
     #[must_use]
     pub fn rank_range_u64(&self, range: Range<usize>, symbol: u64) -> Option<usize> {
-        if range.start >= self.len() || range.end > self.len() || self.bits_per_element() > 64 {
+        if range.start >= self.len()
+            || range.end > self.len()
+            || range.start > range.end
+            || self.bits_per_element() > 64
+        {
             None
         } else {
             Some(self.rank_range_u64_unchecked(range, symbol))
@@ -1103,7 +1108,7 @@ impl WaveletMatrix {
     /// ```
     #[must_use]
     pub fn quantile(&self, range: Range<usize>, k: usize) -> Option<BitVec> {
-        if range.start >= self.len() || range.end > self.len() || k >= range.end - range.start {
+        if range.end > self.len() || k >= range.len() {
             None
         } else {
             Some(self.quantile_unchecked(range, k))
@@ -1232,11 +1237,7 @@ impl WaveletMatrix {
     /// ```
     #[must_use]
     pub fn quantile_u64(&self, range: Range<usize>, k: usize) -> Option<u64> {
-        if range.start >= self.len()
-            || range.end > self.len()
-            || self.bits_per_element() > 64
-            || k >= range.end - range.start
-        {
+        if range.end > self.len() || self.bits_per_element() > 64 || k >= range.len() {
             None
         } else {
             Some(self.quantile_u64_unchecked(range, k))
-- 
2.43.0


From ab53496b59b533e29f12ef484dca7e1e6ed787bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:37 +0000
Subject: [PATCH 14/17] fix: wavelet matrix select does not overflow for huge
 ranks

---
 src/wavelet/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index b03c05f..c7d5364 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -791,7 +791,7 @@ impl WaveletMatrix {
             }
         }
 
-        let mut range_end = range_start + rank;
+        let mut range_end = range_start.saturating_add(rank);
 
         for (level, data) in self.data.iter().enumerate().rev() {
             if symbol.get_unchecked((self.bits_per_element() - 1) - level) == 0 {
@@ -871,7 +871,7 @@ impl WaveletMatrix {
             }
         }
 
-        let mut range_end = range_start + rank;
+        let mut range_end = range_start.saturating_add(rank);
 
         for (level, data) in self.data.iter().enumerate().rev() {
             if (symbol >> ((self.bits_per_element() - 1) - level)) & 1 == 0 {
-- 
2.43.0


From 3dd1b19b3925357cda9517cfd899ea931cee581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:51 +0000
Subject: [PATCH 15/17] fix: wavelet matrix heap size includes the level
 descriptors

---
 src/wavelet/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index c7d5364..7e063d5 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -2060,6 +2060,7 @@ impl WaveletMatrix {
     #[must_use]
     pub fn heap_size(&self) -> usize {
         self.data.iter().map(RsVec::heap_size).sum::<usize>()
+            + self.data.len() * mem::size_of::<RsVec>()
     }
 }
 
-- 
2.43.0


From 5fc647af1fac9b91cdffb16df9f03abb3d8eda0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:52 +0000
Subject: [PATCH 16/17] fix: range minimum queries with clamped ranges do not
 panic on empty ranges

---
 src/rmq/binary_rmq/mod.rs | 6 +++---
 src/rmq/fast_rmq/mod.rs   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rmq/binary_rmq/mod.rs b/src/rmq/binary_rmq/mod.rs
index b6cfda3..246fe6e 100644
--- a/src/rmq/binary_rmq/mod.rs
+++ b/src/rmq/binary_rmq/mod.rs
@@ -124,17 +124,17 @@ impl BinaryRmq {
     pub fn range_min_with_range<T: RangeBounds<usize>>(&self, range: T) -> usize {
         let start = match range.start_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i + 1,
+            Bound::Excluded(i) => i.saturating_add(1),
             Bound::Unbounded => 0,
         }
         .clamp(0, self.len() - 1);
 
         let end = match range.end_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i - 1,
+            Bound::Excluded(i) => i.saturating_sub(1),
             Bound::Unbounded => self.len() - 1,
         }
-        .clamp(0, self.len() - 1);
+        .clamp(start, self.len() - 1);
         self.range_min(start, end)
     }
 
diff --git a/src/rmq/fast_rmq/mod.rs b/src/rmq/fast_rmq/mod.rs
index eb6d8ed..50a66de 100644
--- a/src/rmq/fast_rmq/mod.rs
+++ b/src/rmq/fast_rmq/mod.rs
@@ -171,17 +171,17 @@ impl FastRmq {
     pub fn range_min_with_range<T: RangeBounds<usize>>(&self, range: T) -> usize {
         let start = match range.start_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i + 1,
+            Bound::Excluded(i) => i.saturating_add(1),
             Bound::Unbounded => 0,
         }
         .clamp(0, self.len() - 1);
 
         let end = match range.end_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i - 1,
+            Bound::Excluded(i) => i.saturating_sub(1),
             Bound::Unbounded => self.len() - 1,
         }
-        .clamp(0, self.len() - 1);
+        .clamp(start, self.len() - 1);
         self.range_min(start, end)
     }
 
-- 
2.43.0


From 681dd2ab3297a9261b64979357f7cbc40dead46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:19 +0000
Subject: [PATCH 17/17] fix: the rightmost node of level 0 is found in trees
 with a single node

---
 src/trees/bp/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index ad6fe29..98dc927 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -715,6 +715,11 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
     }
 
     fn level_rightmost(&self, level: u64) -> Option<Self::NodeHandle> {
+        // the backward search cannot find the root of a tree that has no other nodes
+        if level == 0 {
+            return self.root();
+        }
+
         #[allow(clippy::cast_possible_wrap)]
         // if the level exceeds 2^63, we accept that the result is wrong
         self.open(self.bwd_search((self.size() * 2).checked_sub(1)?, level as i64)?)
-- 
2.43.0

