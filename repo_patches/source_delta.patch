From 796072ad5dd3b3f0ad0a4be12972d1ff81800977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:34 +0000
Subject: [PATCH 1/8] fix: keep safe bit slice access inside the backing store

BitSlice::new and Iter::new are safe and accept any bounds, but the checked
accessors and the iterator used unchecked access on the backing store. A view
with bounds beyond its backing store read or wrote out of bounds.
---
 succinct_neo/src/bit_vec/mod.rs               | 4 ++--
 succinct_neo/src/bit_vec/slice/mod.rs         | 2 +-
 succinct_neo/src/bit_vec/slice/trait_impls.rs | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/succinct_neo/src/bit_vec/mod.rs b/succinct_neo/src/bit_vec/mod.rs
index 789e891..59cfd77 100644
--- a/succinct_neo/src/bit_vec/mod.rs
+++ b/succinct_neo/src/bit_vec/mod.rs
@@ -94,7 +94,7 @@ impl BitModify for BitVec {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.size)
         }
-        unsafe { self.set_bit_unchecked(index, value) }
+        self.data.set_bit(index, value)
     }
 
     #[inline]
@@ -107,7 +107,7 @@ impl BitModify for BitVec {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.size)
         }
-        unsafe { self.flip_bit_unchecked(index) }
+        self.data.flip_bit(index)
     }
 }
 
diff --git a/succinct_neo/src/bit_vec/slice/mod.rs b/succinct_neo/src/bit_vec/slice/mod.rs
index 1e9e16a..dddd1dd 100644
--- a/succinct_neo/src/bit_vec/slice/mod.rs
+++ b/succinct_neo/src/bit_vec/slice/mod.rs
@@ -54,7 +54,7 @@ impl<Backing> BitSlice<Backing> {
     /// assert_eq!(false, slice.get_bit(3));
     /// ```
     pub fn new(backing: Backing, start: usize, end: usize) -> Self {
-        debug_assert!(
+        assert!(
             start <= end,
             "end index must be greater or equal to the start index"
         );
diff --git a/succinct_neo/src/bit_vec/slice/trait_impls.rs b/succinct_neo/src/bit_vec/slice/trait_impls.rs
index 95a3015..31c8e67 100644
--- a/succinct_neo/src/bit_vec/slice/trait_impls.rs
+++ b/succinct_neo/src/bit_vec/slice/trait_impls.rs
@@ -19,7 +19,7 @@ impl<Backing: BitGet> BitGet for BitSlice<Backing> {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.len())
         }
-        unsafe { self.get_bit_unchecked(index) }
+        self.backing.get_bit(self.start + index)
     }
 }
 
@@ -34,7 +34,7 @@ impl<Backing: BitModify> BitModify for BitSlice<Backing> {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.len())
         }
-        unsafe { self.set_bit_unchecked(index, value) }
+        self.backing.set_bit(self.start + index, value)
     }
 
     #[inline]
@@ -47,7 +47,7 @@ impl<Backing: BitModify> BitModify for BitSlice<Backing> {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.len())
         }
-        unsafe { self.flip_bit_unchecked(index) }
+        self.backing.flip_bit(self.start + index)
     }
 }
 
@@ -58,7 +58,7 @@ impl<Backing: BitGet> Iterator for Iter<Backing> {
         if self.current >= self.end {
             return None;
         }
-        let v = unsafe { self.backing.get_bit_unchecked(self.current) };
+        let v = self.backing.get_bit(self.current);
         self.current += 1;
         Some(v)
     }
-- 
2.43.0


From 3070573e1071eb33da5752f684e03202779b3f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:34 +0000
Subject: [PATCH 2/8] fix: reject slice bounds that overflow

An inclusive end or exclusive start of usize::MAX wrapped around without
overflow checks, so the call returned a wrong slice instead of panicking.
---
 succinct_neo/src/bit_vec/slice/slicing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/succinct_neo/src/bit_vec/slice/slicing.rs b/succinct_neo/src/bit_vec/slice/slicing.rs
index eca194f..f552d5f 100644
--- a/succinct_neo/src/bit_vec/slice/slicing.rs
+++ b/succinct_neo/src/bit_vec/slice/slicing.rs
@@ -64,13 +64,13 @@ impl<Backing> BitSlice<Backing> {
     /// ```
     pub fn slice(&self, r: impl RangeBounds<usize>) -> BitSlice<&Backing> {
         let start = match r.start_bound() {
-            Bound::Excluded(&s) => s + 1,
+            Bound::Excluded(&s) => s.checked_add(1).expect("left bound out of range"),
             Bound::Included(&s) => s,
             Bound::Unbounded => 0,
         };
         let end = match r.end_bound() {
             Bound::Excluded(&e) => e,
-            Bound::Included(&e) => e + 1,
+            Bound::Included(&e) => e.checked_add(1).expect("right bound out of range"),
             Bound::Unbounded => self.len(),
         };
 
@@ -163,13 +163,13 @@ impl<Backing> BitSlice<Backing> {
     /// ```
     pub fn slice_mut(&mut self, r: impl RangeBounds<usize>) -> BitSlice<&mut Backing> {
         let start = match r.start_bound() {
-            Bound::Excluded(&s) => s + 1,
+            Bound::Excluded(&s) => s.checked_add(1).expect("left bound out of range"),
             Bound::Included(&s) => s,
             Bound::Unbounded => 0,
         };
         let end = match r.end_bound() {
             Bound::Excluded(&e) => e,
-            Bound::Included(&e) => e + 1,
+            Bound::Included(&e) => e.checked_add(1).expect("right bound out of range"),
             Bound::Unbounded => self.len(),
         };
 
-- 
2.43.0


From 7456fc0738f090e03315f79466e230bcc0813143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:34 +0000
Subject: [PATCH 3/8] fix: report exact size hints from ExactSizeIterator
 implementations

The iterators implemented ExactSizeIterator::len but kept the default
size_hint, so len() on adapters such as zip or enumerate panicked. A bit
iterator created with start > end also underflowed in len().
---
 succinct_neo/src/bit_vec/slice/trait_impls.rs | 6 +++++-
 succinct_neo/src/int_vec/mod.rs               | 8 ++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/succinct_neo/src/bit_vec/slice/trait_impls.rs b/succinct_neo/src/bit_vec/slice/trait_impls.rs
index 31c8e67..b734a54 100644
--- a/succinct_neo/src/bit_vec/slice/trait_impls.rs
+++ b/succinct_neo/src/bit_vec/slice/trait_impls.rs
@@ -62,11 +62,15 @@ impl<Backing: BitGet> Iterator for Iter<Backing> {
         self.current += 1;
         Some(v)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<Backing: BitGet> ExactSizeIterator for Iter<Backing> {
     fn len(&self) -> usize {
-        self.end - self.current
+        self.end.saturating_sub(self.current)
     }
 }
 
diff --git a/succinct_neo/src/int_vec/mod.rs b/succinct_neo/src/int_vec/mod.rs
index 2d07b9e..9818634 100644
--- a/succinct_neo/src/int_vec/mod.rs
+++ b/succinct_neo/src/int_vec/mod.rs
@@ -200,6 +200,10 @@ impl Iterator for IntoIter {
         self.i += 1;
         Some(res)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl ExactSizeIterator for IntoIter {
@@ -225,6 +229,10 @@ impl Iterator for Iter<'_> {
         self.i += 1;
         Some(res)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl ExactSizeIterator for Iter<'_> {
-- 
2.43.0


From 117c0d6b0ac858c06d65cdfd1f796cb6479d7f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:34 +0000
Subject: [PATCH 4/8] fix: keep rank queries inside the bit vector

rank(len) read one word past the end when the length was a multiple of the
word size. rank on an empty vector or with an index past the end read
arbitrary memory.
---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index d82cff9..3eb261d 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -215,6 +215,14 @@ impl<'a, T> FlatPopcount<'a, T> {
 
 impl<T> RankSupport for FlatPopcount<'_, T> {
     fn rank<const TARGET: bool>(&self, index: usize) -> usize {
+        if index > self.len() {
+            panic!("index is {index} but length is {}", self.len())
+        }
+        // Nothing precedes the first bit (an empty bit vector has no index entries)
+        if index == 0 {
+            return 0;
+        }
+
         let l1_index = index >> L1_BLOCK_SIZE_EXP;
         let l2_index = (index >> L2_BLOCK_SIZE_EXP) & 0b0111;
         // The index inside of the L2 block
@@ -234,9 +242,11 @@ impl<T> RankSupport for FlatPopcount<'_, T> {
         }
 
         // Add the rest bits
-        unsafe {
-            ones += (raw_backing.get_unchecked(word_start + full_remaining_words) & ((1 << rest_bits) - 1))
+        if rest_bits > 0 {
+            unsafe {
+                ones += (raw_backing.get_unchecked(word_start + full_remaining_words) & ((1 << rest_bits) - 1))
                 .count_ones() as usize
+            }
         }
 
         if TARGET {
-- 
2.43.0


From 7fac0072f52655671937c3239f876381e205a686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:34 +0000
Subject: [PATCH 5/8] fix: stop select at the end of the index

select accepted a rank equal to the number of ones. The block search also read
one entry past the end of the index when the result was in the last block.
---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index 3eb261d..a29b121 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -259,7 +259,7 @@ impl<T> RankSupport for FlatPopcount<'_, T> {
 
 impl<Strat: SelectStrategy> SelectSupport<true> for FlatPopcount<'_, Strat> {
     fn select(&self, mut rank: usize) -> Option<usize> {
-        if rank > self.number_of_ones {
+        if rank >= self.number_of_ones {
             return None;
         }
         let mut l1_index = self.sampled_ones.get(rank >> 13);
@@ -268,6 +268,9 @@ impl<Strat: SelectStrategy> SelectSupport<true> for FlatPopcount<'_, Strat> {
         // Find the l1 block that contains the 1 we need
         while l1 <= rank && l1_index < self.l1_index.len() {
             l1_index += 1;
+            if l1_index == self.l1_index.len() {
+                break;
+            }
             l1 = unsafe { self.l1(l1_index) };
         }
         l1_index -= 1;
-- 
2.43.0


From c0cfaac70231de31abdd0a0b85080978792dc452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:34 +0000
Subject: [PATCH 6/8] fix: export SelectSupport

The trait was private, so select could not be called from other crates.
---
 succinct_neo/src/rank_select/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/succinct_neo/src/rank_select/mod.rs b/succinct_neo/src/rank_select/mod.rs
index e5d5323..82ee5f2 100644
--- a/succinct_neo/src/rank_select/mod.rs
+++ b/succinct_neo/src/rank_select/mod.rs
@@ -1,5 +1,5 @@
 pub mod flat_popcount;
 mod traits;
 
-pub use traits::RankSupport;
+pub use traits::{RankSupport, SelectSupport};
 pub use flat_popcount::FlatPopcount;
-- 
2.43.0


From 7d6ecb939acc3f180f013bff356e2e6e807b9365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:34 +0000
Subject: [PATCH 7/8] fix: support word-sized integers in IntVec and reject
 other widths

A width of 64 overflowed the mask shifts and never started a new block. Widths
above 64 silently corrupted neighbouring values without overflow checks.
---
 succinct_neo/src/int_vec/mod.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/succinct_neo/src/int_vec/mod.rs b/succinct_neo/src/int_vec/mod.rs
index 9818634..9e131b0 100644
--- a/succinct_neo/src/int_vec/mod.rs
+++ b/succinct_neo/src/int_vec/mod.rs
@@ -21,6 +21,10 @@ impl IntVec {
     #[inline]
     pub fn with_capacity(width: usize, capacity: usize) -> Self {
         let block_size = Self::block_width();
+        assert!(
+            width > 0 && width <= block_size,
+            "width must be between 1 and {block_size} but is {width}"
+        );
         let num_blocks = (capacity * width) / block_size;
 
         let mut temp = Self {
@@ -41,7 +45,7 @@ impl IntVec {
 
     #[inline]
     const fn mask(&self) -> usize {
-        (1 << self.width) - 1
+        usize::MAX >> (Self::block_width() - self.width)
     }
 
     /// Calculates the current offset inside the last used block where the next integer would be
@@ -52,13 +56,16 @@ impl IntVec {
     }
 
     pub fn push(&mut self, v: usize) {
-        if v >= (1 << self.width) {
+        if v > self.mask() {
             panic!("value too large for {}-bit integer", self.width)
         }
         let offset = self.current_offset();
         let mask = self.mask();
         if offset == 0 {
             *self.data.last_mut().unwrap() |= v & mask;
+            if self.width == Self::block_width() {
+                self.data.push(0);
+            }
             self.size += 1;
             return;
         }
@@ -115,7 +122,7 @@ impl IntAccess for IntVec {
         let index_offset = (index * self.width) % Self::block_width();
 
         // If we're on the border between blocks
-        if index_offset + self.width >= Self::block_width() {
+        if index_offset + self.width > Self::block_width() {
             let fitting_bits = Self::block_width() - index_offset;
             let remaining_bits = self.width - fitting_bits;
             let lo = self.data[index_block] >> index_offset;
@@ -124,7 +131,7 @@ impl IntAccess for IntVec {
             return (hi << fitting_bits) | lo;
         }
 
-        let mask = (1 << self.width) - 1;
+        let mask = self.mask();
         (self.data[index_block] >> index_offset) & mask
     }
 
@@ -132,20 +139,20 @@ impl IntAccess for IntVec {
         if index >= self.len() {
             panic!("length is {} but index is {index}", self.len())
         }
-        if value >= (1 << self.width) {
+        if value > self.mask() {
             panic!("value {value} too large for {}-bit integer", self.width)
         }
         unsafe { self.set_unchecked(index, value) }
     }
 
     unsafe fn set_unchecked(&mut self, index: usize, value: usize) {
-        let mask = (1 << self.width) - 1;
+        let mask = self.mask();
         let value = value & mask;
         let index_block = (index * self.width) / Self::block_width();
         let index_offset = (index * self.width) % Self::block_width();
 
         // If we're on the border between blocks
-        if index_offset + self.width >= Self::block_width() {
+        if index_offset + self.width > Self::block_width() {
             let fitting_bits = Self::block_width() - index_offset;
             unsafe {
                 let lower_block = self.data.get_unchecked_mut(index_block);
-- 
2.43.0


From f21f94163f4217e35d1b8b9da9dfd12a05ec5911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:13:07 +0000
Subject: [PATCH 8/8] fix: count L2 blocks with a machine word

The block counter of the rank index had defaulted to a 32-bit signed integer and overflowed while
building the index of a bit vector with 2^31 or more L2 blocks.
---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index a29b121..2f98979 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -94,7 +94,7 @@ impl<'a, T> FlatPopcount<'a, T> {
         let raw_bv = self.backing.raw();
 
         let mut current_l1 = 0u128;
-        let mut i = 0;
+        let mut i = 0usize;
         for l2_block in raw_bv.chunks(8) {
             let offset = i & 0b0111;
             // In this case this is the last L2 block of this L1 block and we don't store its
-- 
2.43.0

