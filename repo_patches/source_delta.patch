From 8c2fe4b445a636891c7a5e8299d9fa4d1a4b179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 01/24] fix: by-value insert into a vec of fixed-alignment
 elements used the index as a byte offset

---
 src/inner/aligned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index a8f2705..fc921db 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -251,7 +251,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
             let start_offset = self.start_offset_of_unchecked(index);
             let how_much_to_move = self.byte_len().unchecked_sub(start_offset);
 
-            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(index);
+            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
             ptr::copy(
                 start_ptr,
-- 
2.43.0


From 279a2c5682b90e34136ac48bebce2595ad7837b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 02/24] fix: by-value insert into a vec of dynamically aligned
 elements used the index as a byte offset

---
 src/inner/unaligned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index da84c87..242b3a0 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -606,7 +606,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             let start_offset = self.start_offset_of_unchecked(index);
             let how_much_to_move = self.unaligned_byte_len().unchecked_sub(start_offset);
 
-            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(index);
+            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
             ptr::copy(
                 start_ptr,
-- 
2.43.0


From b7fb0e72a626695e9fd90b9c4ec66546e79dcb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 03/24] fix: insert at the end of a vec whose last element is
 followed by padding underflowed a size

---
 src/inner/unaligned.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 242b3a0..e8ccecd 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -604,7 +604,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         // SAFETY: preconditions of function
         unsafe {
             let start_offset = self.start_offset_of_unchecked(index);
-            let how_much_to_move = self.unaligned_byte_len().unchecked_sub(start_offset);
+            let how_much_to_move = self.aligned_byte_len().unchecked_sub(start_offset);
 
             let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
@@ -691,10 +691,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 // SAFETY: getting pointer to element
                 let ptr_to_elem = unsafe { self.ptr.cast::<u8>().as_ptr().add(start_offset.get()) };
 
-                let unaligned_len = self.unaligned_byte_len();
+                let aligned_len = self.aligned_byte_len();
 
                 // SAFETY: by precondition of function
-                let num_bytes_to_shift = unsafe { unaligned_len.unchecked_sub(start_offset) };
+                let num_bytes_to_shift = unsafe { aligned_len.unchecked_sub(start_offset) };
 
                 let shifter_backer = ElementShifterBacker {
                     ptr_to_index: ptr_to_elem,
-- 
2.43.0


From d02c8af8dd3040aeac1666c04b8545f6956c7f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 04/24] fix: removing the last element after one followed by
 padding underflowed a size

---
 src/inner/unaligned.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index e8ccecd..cadd672 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -827,10 +827,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             }
         }
 
-        let unaligned_len = self.unaligned_byte_len();
+        let aligned_len = self.aligned_byte_len();
 
         // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { unaligned_len.unchecked_sub(start_offset) };
+        let how_much_to_move = unsafe { aligned_len.unchecked_sub(start_offset) };
 
         // SAFETY: copying elements back where they belong
         unsafe {
-- 
2.43.0


From a2a7d76f2adbf2fddeee0a9ddaa0a36197407c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 05/24] fix: unsizing a vec recorded the start of each element
 as its end

---
 src/inner/aligned.rs   | 2 +-
 src/inner/unaligned.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index fc921db..9021eb1 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -661,7 +661,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 metadata,
                 // SAFETY: can't overflow, as otherwise allocation would be overflowing
                 end_offset: unsafe {
-                    ValidSize::new_unchecked(index.unchecked_mul(mem::size_of::<S>()))
+                    ValidSize::new_unchecked((index + 1).unchecked_mul(mem::size_of::<S>()))
                 },
             })
             .collect();
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index cadd672..f12ff93 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -1052,7 +1052,9 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 metadata,
                 // SAFETY: can't overflow, as otherwise allocation would be overflowing
                 end_offset: unsafe {
-                    ValidSizeUnaligned::new_unchecked(index.unchecked_mul(mem::size_of::<S>()))
+                    ValidSizeUnaligned::new_unchecked(
+                        (index + 1).unchecked_mul(mem::size_of::<S>()),
+                    )
                 },
             })
             .collect();
-- 
2.43.0


From 7810ccf47945daeb4163df2aa553b787adff4f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 06/24] fix: nth(0) on an iterator already advanced started
 from offset 0

---
 src/inner/aligned.rs   |  9 ++++-----
 src/inner/unaligned.rs | 16 ++++++++--------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 9021eb1..7371584 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -730,11 +730,10 @@ macro_rules! iter_ref {
 
             #[inline]
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
-                let start_offset = n
-                    .checked_sub(1)
-                    .and_then(|n| self.elems_info.nth(n))
-                    .copied()
-                    .map_or(ValidSize::ZERO, |e_i| e_i.end_offset);
+                let start_offset = match n.checked_sub(1) {
+                    None => self.start_offset,
+                    Some(n) => self.elems_info.nth(n)?.end_offset,
+                };
 
                 let ElementInfo {
                     metadata,
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index f12ff93..4a1ed2e 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -1127,14 +1127,14 @@ macro_rules! iter_ref {
 
             #[inline]
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
-                let start_offset = n
-                    .checked_sub(1)
-                    .and_then(|n| self.elems_info.nth(n))
-                    .copied()
-                    // SAFETY: offset comes from the vec
-                    .map_or(ValidSizeUnaligned::ZERO, |e_i| unsafe {
-                        e_i.end_offset.unchecked_pad_to(self.align)
-                    });
+                let start_offset = match n.checked_sub(1) {
+                    None => self.start_offset,
+                    Some(n) => {
+                        let e_i = self.elems_info.nth(n)?;
+                        // SAFETY: offset comes from the vec
+                        unsafe { e_i.end_offset.unchecked_pad_to(self.align) }
+                    }
+                };
 
                 let ElementInfo {
                     metadata,
-- 
2.43.0


From f393f8fda94b503e11029ebc1948a857415c566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 07/24] fix: next_back yielding the last remaining element of
 an advanced iterator started from offset 0

---
 src/inner/aligned.rs   | 2 +-
 src/inner/unaligned.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 7371584..3b9a175 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -775,7 +775,7 @@ macro_rules! iter_ref {
                     .elems_info
                     .as_slice()
                     .last()
-                    .map_or(ValidSize::ZERO, |e_i| e_i.end_offset);
+                    .map_or(self.start_offset, |e_i| e_i.end_offset);
 
                 // SAFETY: end of element can't be smaller than start
                 let size_of_val = unsafe { end_offset.unchecked_sub(start_offset) };
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 4a1ed2e..b15aec6 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -1181,7 +1181,7 @@ macro_rules! iter_ref {
                     .as_slice()
                     .last()
                     // SAFETY: offset comes from the vec
-                    .map_or(ValidSizeUnaligned::ZERO, |e_i| unsafe {
+                    .map_or(self.start_offset, |e_i| unsafe {
                         e_i.end_offset.unchecked_pad_to(self.align)
                     });
 
-- 
2.43.0


From ca2d38a783139447a96da8c1a288901c121bbefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 08/24] fix: reserving a larger alignment without any bytes was
 forgotten

---
 src/inner/unaligned.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index b15aec6..e42f18c 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -470,6 +470,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 }
             } else {
                 self.ptr = new_align.dangling_thin();
+                self.align = new_align;
             }
         }
         Ok(())
-- 
2.43.0


From 0eb5da54dc816b6b7e6c9072d2156ceffaec57c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 09/24] fix: shrinking the alignment moved elements without
 recording where they went

---
 src/inner/unaligned.rs | 58 +++++++++++++-----------------------------
 1 file changed, 18 insertions(+), 40 deletions(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index e42f18c..7e1fc12 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -251,54 +251,32 @@ impl<T: ?Sized> UnalignedVecInner<T> {
 
         debug_assert!(self.len() > 1 && new_align < old_align);
 
-        // We compute the new offset of each element, along with the difference from the old offset.
-        // Then, we copy the eement over.
+        // We compute the old and new start offset of each element,
+        // then we move the element to its new place and record where it now ends.
         //
-        // This is a lot simpler than `realign_up`, we can do everyting in a single pass.
-
-        let mut shift_back = ValidSizeUnaligned::ZERO;
-        for &[
-            ElementInfo {
-                end_offset: prev_new_end_offset,
-                ..
-            },
-            ElementInfo {
-                end_offset: old_end_offset,
-                ..
-            },
-        ] in self.elems_info.array_windows::<2>()
-        {
-            // SAFETY: shift must be smaller than size of allocation up to this point
-            let new_end_offset = unsafe { old_end_offset.unchecked_sub(shift_back) };
-
-            // SAFETY: can't overflow, or else unshifted allocation would have overflowed
-            let new_start_offset = unsafe { prev_new_end_offset.unchecked_pad_to(new_align) };
-
-            // SAFETY: shift must be smaller than size of allocation up to this point
-            let old_start_offset = unsafe { new_start_offset.unchecked_sub(shift_back) };
-
-            // SAFETY: End offset >= start offset
-            let size_of_val = unsafe { new_end_offset.unchecked_sub(new_start_offset) };
-
-            // SAFETY: moving element to new correct position, as computed above
+        // This is a lot simpler than `realign_up`, we can do everyting in a single pass:
+        // elements only ever move towards the start.
+
+        let mut prev_old_end_offset = ValidSizeUnaligned::ZERO;
+        let mut prev_new_end_offset = ValidSizeUnaligned::ZERO;
+        for ElementInfo { end_offset, .. } in self.elems_info.iter_mut() {
+            // SAFETY: old offsets are valid, and new ones can't be greater
+            // as `new_align < old_align`.
             unsafe {
+                let old_start_offset = prev_old_end_offset.unchecked_pad_to(old_align);
+                let new_start_offset = prev_new_end_offset.unchecked_pad_to(new_align);
+                let size_of_val = end_offset.unchecked_sub(old_start_offset);
+
                 ptr::copy(
                     self.ptr.as_ptr().cast::<u8>().add(old_start_offset.get()),
                     self.ptr.as_ptr().cast::<u8>().add(new_start_offset.get()),
                     size_of_val.get(),
                 );
-            }
 
-            // SAFETY: pads can't overfolow as otherwise old offsets would be invalid.
-            // Sub can't overflow as new_align < old_align.
-            // Add can't overflow as we can't shift more than the entire size of the allocation.
-            shift_back = unsafe {
-                shift_back.unchecked_add(
-                    new_end_offset
-                        .unchecked_pad_to(old_align)
-                        .unchecked_sub(new_end_offset.unchecked_pad_to(new_align)),
-                )
-            };
+                prev_old_end_offset = *end_offset;
+                prev_new_end_offset = new_start_offset.unchecked_add(size_of_val);
+                *end_offset = prev_new_end_offset;
+            }
         }
     }
 }
-- 
2.43.0


From 2ef440234254c52a7e729e8200adf903fd33ef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 10/24] fix: shrinking the byte capacity could leave it short
 of a multiple of the alignment

---
 src/inner/unaligned.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 7e1fc12..54294ad 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -490,6 +490,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             new_aligned_byte_len,
         );
 
+        // SAFETY: `old_byte_capacity` is a multiple of `old_align >= new_align`, so this
+        // can't exceed it
+        let new_byte_capacity = unsafe { new_byte_capacity.unchecked_pad_to(new_align) };
+
         debug_assert!(new_byte_capacity <= old_byte_capacity);
 
         if new_byte_capacity < old_byte_capacity || new_align < old_align {
-- 
2.43.0


From 822634e4cff3f00baf6797e8cc85433fb8dea536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 11/24] fix: a failing try_reserve tripped over its own success
 assertion

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 203b052..95f0f05 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -582,7 +582,9 @@ impl<T: ?Sized> UnsizedVec<T> {
             .inner
             .try_reserve_additional_bytes_align(needed_bytes, align);
 
-        debug_assert!(self.byte_capacity() >= self.byte_len() + additional_bytes);
+        debug_assert!(
+            result.is_err() || self.byte_capacity() >= self.byte_len() + additional_bytes
+        );
 
         result
     }
-- 
2.43.0


From 316c062740220076e275d0ca244d7a1f9e30bd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 12/24] fix: byte capacities of sized elements mixed up bytes
 and elements, and divided by zero for ZSTs

---
 src/inner/sized.rs | 16 ++++++++++++----
 src/lib.rs         |  5 ++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 0c661b7..79580e0 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -69,12 +69,15 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         additional_bytes: usize,
         _align: (),
     ) -> Result<(), TryReserveError> {
+        // Zero-sized elements never need any bytes.
+        if additional_bytes == 0 || mem::size_of::<T>() == 0 {
+            return Ok(());
+        }
+
         // SAFETY: capacity >= len
         let free = unsafe { self.capacity().unchecked_sub(self.len()) };
-        let needed = additional_bytes
-            .saturating_add(free)
-            .div_ceil(mem::size_of::<T>());
-        Ok(self.try_reserve_exact(needed.saturating_sub(free))?)
+        let additional = additional_bytes.div_ceil(mem::size_of::<T>());
+        Ok(self.try_reserve_exact(free.saturating_add(additional))?)
     }
 
     #[inline]
@@ -84,6 +87,11 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         min_byte_capacity: usize,
         _align: (),
     ) {
+        // The capacity of a vec of zero-sized elements can't shrink.
+        if mem::size_of::<T>() == 0 {
+            return;
+        }
+
         let min_capacity = cmp::max(
             min_capacity,
             min_byte_capacity.div_ceil(mem::size_of::<T>()),
diff --git a/src/lib.rs b/src/lib.rs
index 95f0f05..0afe664 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -583,7 +583,10 @@ impl<T: ?Sized> UnsizedVec<T> {
             .try_reserve_additional_bytes_align(needed_bytes, align);
 
         debug_assert!(
-            result.is_err() || self.byte_capacity() >= self.byte_len() + additional_bytes
+            result.is_err()
+                || self.unused_byte_cap() >= additional_bytes
+                // only possible for zero-sized elements, which need no bytes
+                || self.capacity() == usize::MAX
         );
 
         result
-- 
2.43.0


From 771dca7064773425e72bdef2bbcd973707f3cb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 13/24] fix: adding through an emplacable, and reserving
 exactly, ignored the spare byte capacity

---
 src/inner.rs           | 50 ++++++++++++++++++++++++++++++++++++++++++
 src/inner/aligned.rs   | 10 ++-------
 src/inner/unaligned.rs | 12 +++-------
 src/lib.rs             | 45 ++++---------------------------------
 4 files changed, 59 insertions(+), 58 deletions(-)

diff --git a/src/inner.rs b/src/inner.rs
index 4257f49..851d369 100644
--- a/src/inner.rs
+++ b/src/inner.rs
@@ -3,6 +3,7 @@
 //! implement.
 
 use core::{
+    cmp,
     hash::Hash,
     iter::FusedIterator,
     marker::Unsize,
@@ -138,6 +139,55 @@ pub(super) trait UnsizedVecProvider<T: ?Sized> {
         align: Self::Align,
     ) -> Result<(), TryReserveError>;
 
+    /// Try to reserve capacity for at least `additional` more elements,
+    /// `additional_bytes` more bytes, and alignment `align`.
+    /// Takes existing unused capacity into account.
+    /// May overallocate, to make repeated calls amortized O(1).
+    fn try_reserve_amortized(
+        &mut self,
+        additional: usize,
+        additional_bytes: usize,
+        align: Self::Align,
+    ) -> Result<(), TryReserveError> {
+        self.try_reserve(additional)?;
+
+        debug_assert!(self.capacity() >= self.len() + additional);
+
+        let byte_cap = self.byte_capacity();
+
+        // SAFETY: len <= cap
+        let unused_byte_cap = unsafe { byte_cap.unchecked_sub(self.byte_len()) };
+
+        let needed_bytes = additional_bytes.saturating_sub(unused_byte_cap);
+
+        let optimist_bytes = if needed_bytes > 0 {
+            cmp::max(needed_bytes, byte_cap)
+        } else {
+            0
+        };
+
+        // First we try to double capacities.
+        // if that fails, we try again with only what we really need.
+        if optimist_bytes > needed_bytes {
+            let result = self.try_reserve_additional_bytes_align(optimist_bytes, align);
+
+            if result.is_ok() {
+                return result;
+            }
+        }
+
+        let result = self.try_reserve_additional_bytes_align(needed_bytes, align);
+
+        debug_assert!(
+            result.is_err()
+                || self.byte_capacity() - self.byte_len() >= additional_bytes
+                // only possible for zero-sized elements, which need no bytes
+                || self.capacity() == usize::MAX
+        );
+
+        result
+    }
+
     fn shrink_capacity_bytes_align_to(
         &mut self,
         min_capacity: usize,
diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 3b9a175..6e61455 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -317,10 +317,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 // SAFETY: by `Emplacer::new` preconditions
                 let size_of_val = unsafe { ValidSize::<T>::new_unchecked(size_of_val.get()) };
 
-                let reserve_result = self
-                    .try_reserve(1)
-                    .and_then(|()| self.try_reserve_additional_bytes_align(layout.size(), ()));
-                unwrap_try_reserve_result(reserve_result);
+                unwrap_try_reserve_result(self.try_reserve_amortized(1, layout.size(), ()));
 
                 // SAFETY: precondition of function
                 let start_offset = unsafe { self.start_offset_of_unchecked(index) };
@@ -503,10 +500,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 // SAFETY: by `Emplacer::new` preconditions
                 let size_of_val = unsafe { ValidSize::<T>::new_unchecked(size_of_val.get()) };
 
-                let reserve_result = self
-                    .try_reserve(1)
-                    .and_then(|()| self.try_reserve_additional_bytes_align(layout.size(), ()));
-                unwrap_try_reserve_result(reserve_result);
+                unwrap_try_reserve_result(self.try_reserve_amortized(1, layout.size(), ()));
 
                 let start_offset = self.byte_len();
 
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 54294ad..a9221f9 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -656,12 +656,8 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             &mut |layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
                 let (unaligned_size_of_val, align_of_val) = decompose(layout);
 
-                let reserve_result = self.try_reserve(1).and_then(|()| {
-                    self.try_reserve_additional_bytes_align(
-                        unaligned_size_of_val.get(),
-                        align_of_val,
-                    )
-                });
+                let reserve_result =
+                    self.try_reserve_amortized(1, unaligned_size_of_val.get(), align_of_val);
                 unwrap_try_reserve_result(reserve_result);
 
                 let aligned_size_of_val =
@@ -862,9 +858,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             &mut |layout: Layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
                 let (size_of_val, align_of_val) = decompose(layout);
 
-                let reserve_result = self.try_reserve(1).and_then(|()| {
-                    self.try_reserve_additional_bytes_align(layout.size(), align_of_val)
-                });
+                let reserve_result = self.try_reserve_amortized(1, layout.size(), align_of_val);
                 unwrap_try_reserve_result(reserve_result);
 
                 let start_offset = self.aligned_byte_len();
diff --git a/src/lib.rs b/src/lib.rs
index 0afe664..e7fdac1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -550,46 +550,8 @@ impl<T: ?Sized> UnsizedVec<T> {
         additional_bytes: usize,
         align: usize,
     ) -> Result<(), TryReserveError> {
-        self.try_reserve(additional)?;
-
-        debug_assert!(self.capacity() >= self.len() + additional);
-
-        let align = to_align::<T>(align);
-
-        let byte_cap = self.byte_capacity();
-
-        let needed_bytes = additional_bytes.saturating_sub(self.unused_byte_cap());
-
-        let optimist_bytes = if needed_bytes > 0 {
-            cmp::max(needed_bytes, byte_cap)
-        } else {
-            0
-        };
-
-        // First we try to double capacities.
-        // if that fails, we try again with only what we really need.
-        if optimist_bytes > needed_bytes {
-            let result = self
-                .inner
-                .try_reserve_additional_bytes_align(optimist_bytes, align);
-
-            if result.is_ok() {
-                return result;
-            }
-        }
-
-        let result = self
-            .inner
-            .try_reserve_additional_bytes_align(needed_bytes, align);
-
-        debug_assert!(
-            result.is_err()
-                || self.unused_byte_cap() >= additional_bytes
-                // only possible for zero-sized elements, which need no bytes
-                || self.capacity() == usize::MAX
-        );
-
-        result
+        self.inner
+            .try_reserve_amortized(additional, additional_bytes, to_align::<T>(align))
     }
 
     /// Reserves capacity for at least `additional` more elements to be inserted
@@ -667,9 +629,10 @@ impl<T: ?Sized> UnsizedVec<T> {
     ) -> Result<(), TryReserveError> {
         self.inner.try_reserve(additional)?;
         let align = to_align::<T>(align);
+        let needed_bytes = additional_bytes.saturating_sub(self.unused_byte_cap());
 
         self.inner
-            .try_reserve_additional_bytes_align(additional_bytes, align)
+            .try_reserve_additional_bytes_align(needed_bytes, align)
     }
 
     /// Shrinks all the capacities of the vec as much as possible.
-- 
2.43.0


From c885cd64f4747359446e4a993bf5f688c8857328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 14/24] fix: exact reservation reserved amortised element
 capacity, and extend reserved exactly

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e7fdac1..3b454a5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -627,7 +627,7 @@ impl<T: ?Sized> UnsizedVec<T> {
         additional_bytes: usize,
         align: usize,
     ) -> Result<(), TryReserveError> {
-        self.inner.try_reserve(additional)?;
+        self.inner.try_reserve_exact(additional)?;
         let align = to_align::<T>(align);
         let needed_bytes = additional_bytes.saturating_sub(self.unused_byte_cap());
 
@@ -1394,7 +1394,7 @@ where
             vec: &mut UnsizedVec<T>,
             iter: I,
         ) {
-            vec.reserve_exact(iter.size_hint().0);
+            vec.reserve(iter.size_hint().0);
             for emplacable in iter {
                 vec.push_with(emplacable);
             }
-- 
2.43.0


From 65aabf6fce89ebedf88748a5d676c2a0429061ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 15/24] fix: shrink_to did nothing for sized elements

---
 src/inner.rs           | 3 +++
 src/inner/aligned.rs   | 5 +++++
 src/inner/sized.rs     | 5 +++++
 src/inner/unaligned.rs | 5 +++++
 src/lib.rs             | 6 +-----
 5 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/inner.rs b/src/inner.rs
index 851d369..db56ab6 100644
--- a/src/inner.rs
+++ b/src/inner.rs
@@ -188,6 +188,9 @@ pub(super) trait UnsizedVecProvider<T: ?Sized> {
         result
     }
 
+    /// Shrink the elementwise capacity only.
+    fn shrink_to(&mut self, min_capacity: usize);
+
     fn shrink_capacity_bytes_align_to(
         &mut self,
         min_capacity: usize,
diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 6e61455..c2e2c98 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -204,6 +204,11 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
         Ok(())
     }
 
+    #[inline]
+    fn shrink_to(&mut self, min_capacity: usize) {
+        self.elems_info.shrink_to(min_capacity);
+    }
+
     #[inline]
     fn shrink_capacity_bytes_align_to(
         &mut self,
diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 79580e0..e0e67f2 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -80,6 +80,11 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         Ok(self.try_reserve_exact(free.saturating_add(additional))?)
     }
 
+    #[inline]
+    fn shrink_to(&mut self, min_capacity: usize) {
+        self.shrink_to(min_capacity);
+    }
+
     #[inline]
     fn shrink_capacity_bytes_align_to(
         &mut self,
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index a9221f9..9730f0f 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -454,6 +454,11 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         Ok(())
     }
 
+    #[inline]
+    fn shrink_to(&mut self, min_capacity: usize) {
+        self.elems_info.shrink_to(min_capacity);
+    }
+
     fn shrink_capacity_bytes_align_to(
         &mut self,
         min_capacity: usize,
diff --git a/src/lib.rs b/src/lib.rs
index 3b454a5..0e32111 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -655,11 +655,7 @@ impl<T: ?Sized> UnsizedVec<T> {
     /// [`shrink_capacity_bytes_to`]: UnsizedVec::shrink_capacity_bytes_to
     #[inline]
     pub fn shrink_to(&mut self, min_capacity: usize) {
-        self.inner.shrink_capacity_bytes_align_to(
-            min_capacity,
-            usize::MAX,
-            to_align::<T>(1 << (usize::BITS - 1)),
-        );
+        self.inner.shrink_to(min_capacity);
     }
 
     /// Shrinks the elementwise and byte capacities of the vector with
-- 
2.43.0


From 46fff1f53dfcd2d4541a7d538bb461eea43fe126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 16/24] fix: the alignment of CStr was taken to be that of a
 reference

---
 src/marker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/marker.rs b/src/marker.rs
index 4eda8c9..11ace36 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -39,5 +39,5 @@ unsafe impl Aligned for str {
 
 // SAFETY: All `CStrs`s have the same alignment
 unsafe impl Aligned for CStr {
-    const ALIGN: ValidAlign = ValidAlign::new(mem::align_of_val(&c"")).unwrap();
+    const ALIGN: ValidAlign = ValidAlign::new(mem::align_of_val(c"")).unwrap();
 }
-- 
2.43.0


From 3b592ea6b51a30d03dbe6c4d0334cad237aa1970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 17/24] fix: removing an element whose destructor panics left
 it in the vec, to be dropped again

---
 src/inner/aligned.rs   | 10 ++++++++++
 src/inner/sized.rs     |  9 +++++++++
 src/inner/unaligned.rs | 10 ++++++++++
 3 files changed, 29 insertions(+)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index c2e2c98..ae5ad38 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -435,8 +435,18 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 let wide_ptr: *mut T =
                     ptr::from_raw_parts_mut(thin_ptr_to_elem.cast_mut(), metadata);
 
+                // If the destructor panics, the metadata won't be adjusted,
+                // so the vec must not contain the dropped element.
+                let old_len = self.elems_info.len();
+
+                // SAFETY: `index < old_len`
+                unsafe { self.elems_info.set_len(index) };
+
                 // SAFETY: We forget the element right after by copying over it and adjusting vec metadata
                 unsafe { wide_ptr.drop_in_place() }
+
+                // SAFETY: no panic, the infos are still there
+                unsafe { self.elems_info.set_len(old_len) };
             }
         });
 
diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index e0e67f2..7c5652e 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -220,9 +220,18 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
             } else {
                 let typed_ptr_to_elem: *mut T = thin_ptr_to_elem.cast_mut().cast();
 
+                // If the destructor panics, the elements won't be copied back,
+                // so the vec must not contain the dropped element.
+
+                // SAFETY: `index <= new_len`
+                unsafe { self.set_len(index) };
+
                 // SAFETY: we adusted vec metadata earlier, and copy elements back right after,
                 // so this won't be double-dropped
                 unsafe { typed_ptr_to_elem.drop_in_place() }
+
+                // SAFETY: no panic, the elements are still there
+                unsafe { self.set_len(new_len) };
             }
         });
 
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 9730f0f..f90453b 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -789,8 +789,18 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                         );
                     }
                 } else {
+                    // If the destructor panics, the metadata won't be adjusted,
+                    // so the vec must not contain the dropped element.
+                    let old_len = self.elems_info.len();
+
+                    // SAFETY: `index < old_len`
+                    unsafe { self.elems_info.set_len(index) };
+
                     // SAFETY: we adjust vec metadata right after, so this won't be double-dropped
                     unsafe { wide_ptr_to_elem.cast_mut().drop_in_place() }
+
+                    // SAFETY: no panic, the infos are still there
+                    unsafe { self.elems_info.set_len(old_len) };
                 }
             },
         );
-- 
2.43.0


From a14b009f4a95276780f22f5e252f8d07237c09a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 18/24] fix: slices of zero-sized values lost their length

---
 src/helper.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 626647a..92cf78c 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -1,7 +1,7 @@
 pub(crate) mod valid_align;
 pub(crate) mod valid_size;
 
-use core::{alloc::Layout, hash::Hash, mem, ptr::Pointee};
+use core::{alloc::Layout, hash::Hash, ptr::Pointee};
 
 use crate::marker::Aligned;
 
@@ -13,17 +13,12 @@ pub(crate) trait MetadataFromSize: Aligned {
     fn from_size(size: ValidSizeUnaligned) -> <Self as Pointee>::Metadata;
 }
 
+// Not implemented for `[T]`: when `T` is zero-sized,
+// the length of the slice can't be derived from its size.
 impl<T> MetadataFromSize for T {
     fn from_size(_: ValidSizeUnaligned) -> <Self as Pointee>::Metadata {}
 }
 
-impl<T> MetadataFromSize for [T] {
-    fn from_size(size: ValidSizeUnaligned) -> <Self as Pointee>::Metadata {
-        debug_assert!(size.get() != 0 || size == ValidSizeUnaligned::ZERO);
-        size.get().checked_div(mem::size_of::<T>()).unwrap_or(0)
-    }
-}
-
 #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub(crate) struct FullMetadataRemainder<T: Copy + Send + Sync + Ord + Hash + Unpin>(T);
 
-- 
2.43.0


From a1985d060d8be8af538e613284ed0ce0b2cbb10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 19/24] fix: emplacing a slice of Copy values copied the
 reference instead of the values

---
 emplacable/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index a624aa7..a6ffadd 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -774,7 +774,7 @@ impl<T: Copy> CopyToBuf for T {
         // SAFETY: copying value where it belongs. safe to write to
         // `buf` by preconditions of function
         unsafe {
-            ptr::copy_nonoverlapping(addr_of!(slice).cast(), buf, slice.len());
+            ptr::copy_nonoverlapping(slice.as_ptr(), buf, slice.len());
         }
     }
 }
-- 
2.43.0


From 84ddf53d1b5eb241ddb07e824cb75c2dba040e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 20/24] fix: emplacing a Vec used its capacity for the layout
 of the emplaced slice

---
 emplacable/src/lib.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index a6ffadd..35eafa3 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -1081,10 +1081,16 @@ impl<T> IntoEmplacable<[T]> for Vec<T> {
             let len = vec.len();
             let capacity = vec.capacity();
             // SAFETY: values come from the vec
-            let layout = unsafe {
-                Layout::from_size_align_unchecked(
-                    capacity.unchecked_mul(mem::size_of::<T>()),
-                    mem::align_of::<T>(),
+            let (layout, alloc_layout) = unsafe {
+                (
+                    Layout::from_size_align_unchecked(
+                        len.unchecked_mul(mem::size_of::<T>()),
+                        mem::align_of::<T>(),
+                    ),
+                    Layout::from_size_align_unchecked(
+                        capacity.unchecked_mul(mem::size_of::<T>()),
+                        mem::align_of::<T>(),
+                    ),
                 )
             };
 
@@ -1107,10 +1113,10 @@ impl<T> IntoEmplacable<[T]> for Vec<T> {
                 }
             });
 
-            if layout.size() > 0 {
+            if alloc_layout.size() > 0 {
                 // SAFETY: deallocating what the `Vec` allocated. The `Vec` is in a `ManuallyDrop`,
                 // so no double-drop
-                unsafe { alloc::dealloc(ptr.cast(), layout) }
+                unsafe { alloc::dealloc(ptr.cast(), alloc_layout) }
             }
         };
 
-- 
2.43.0


From e8a4ac6fed1a7f0b429d9eb9f08a53ee21e929df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 21/24] fix: a value given to with_emplacable_for was dropped
 again when the closure panicked

---
 emplacable/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index 35eafa3..6875946 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -101,7 +101,7 @@ use core::{
     mem::{self, ManuallyDrop, MaybeUninit},
     ops::FnMut,
     pin::Pin,
-    ptr::{self, addr_of, Pointee},
+    ptr::{self, addr_of, addr_of_mut, Pointee},
 };
 #[cfg(feature = "std")]
 use std::{
@@ -377,10 +377,15 @@ where
         f(emplacable)
     }
 
-    // SAFETY: we `forget_unsized` val immediately after this call
-    let ret = unsafe { with_emplacable_for_inner(&mut val, &mut f) };
+    let val_ptr = addr_of_mut!(val);
+
+    // `f` may panic after having moved the value out,
+    // so it has to be forgotten beforehand.
     mem::forget_unsized(val);
-    ret
+
+    // SAFETY: the memory of `val` stays valid until this function returns,
+    // and `val` was forgotten, so it won't be dropped
+    unsafe { with_emplacable_for_inner(&mut *val_ptr, &mut f) }
 }
 
 /// Alias of [`for<'a> FnOnce(&'a mut Emplacer<T>)`](Emplacer<T>).
-- 
2.43.0


From 0046a94c5161d2213b7da4163991f123e2e13f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:54 +0000
Subject: [PATCH 22/24] fix: box_new_with leaked the block when the emplacable
 panicked after the value was written

---
 emplacable/src/lib.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index 6875946..edcbea4 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -1429,12 +1429,14 @@ where
 
     let mut uninit_box = MaybeUninit::uninit();
 
+    // If `closure` or `emplacable` panics and triggers an unwind,
+    // this will be dropped, which will call `dealloc` on `ptr`
+    // and ensure no memory is leaked.
+    let mut maybe_deallocer = None;
+
     let emplacer_closure =
         &mut |layout: Layout, meta, closure: &mut dyn FnMut(*mut PhantomData<T>)| {
-            // If `closure` panics and triggers an unwind,
-            // this will be dropped, which will call `dealloc` on `ptr`
-            // and ensure no memory is leaked.
-            let deallocer = PointerDeallocer {
+            let deallocer = maybe_deallocer.insert(PointerDeallocer {
                 ptr: if layout.size() == 0 {
                     ptr::without_provenance_mut(layout.align())
                 } else {
@@ -1442,11 +1444,11 @@ where
                     unsafe { alloc::alloc(layout) }
                 },
                 layout,
-            };
+            });
 
             if deallocer.ptr.is_null() {
                 // Don't want to deallocate a raw pointer
-                mem::forget(deallocer);
+                mem::forget(maybe_deallocer.take());
                 alloc::handle_alloc_error(layout);
             }
 
@@ -1456,10 +1458,6 @@ where
             // SAFETY: Pointer either is to 0-sized allocation or comes from global allocator
             let init_box = unsafe { Box::from_raw(wide_ptr) };
 
-            // Now that we've succesfully initialized the box,
-            // we don't want to deallocate its memory.
-            mem::forget(deallocer);
-
             uninit_box.write(init_box);
         };
 
@@ -1469,6 +1467,10 @@ where
     let emplacing_clousre = emplacable.into_fn();
     emplacing_clousre(emplacer);
 
+    // Now that we've succesfully initialized the box,
+    // we don't want to deallocate its memory.
+    mem::forget(maybe_deallocer);
+
     // SAFETY: if `unsized_ret` respected `EmplacingClosure`'s safety contract,
     // then `uninit_box` should be initialized.
     unsafe { uninit_box.assume_init() }
-- 
2.43.0


From 55b0cbeac294908a27597e1302b15680460d5b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 23/24] fix: insert_with into a vec of sized elements
 reallocated on every call

---
 src/inner/sized.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 7c5652e..5c98095 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -152,7 +152,7 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
 
         let emplacer_closure =
             &mut move |_, (), inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
-                let reserve_result = <Self as UnsizedVecProvider<T>>::try_reserve_exact(self, 1);
+                let reserve_result = <Self as UnsizedVecProvider<T>>::try_reserve(self, 1);
                 unwrap_try_reserve_result(reserve_result);
 
                 // SAFETY: by precondition of function
-- 
2.43.0


From 475961984089d53201d570061d1f69c6e1e8f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 24/24] cfg(miri): build under the interpreter, which passes no
 unsized values

---
 emplacable/src/lib.rs |  3 ++-
 src/lib.rs            | 10 +++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index edcbea4..09c3eb0 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -71,12 +71,13 @@
     clippy::std_instead_of_core
 )]
 #![allow(internal_features)] // for `unsized_fn_params`
+#![cfg_attr(not(miri), feature(min_specialization))]
+#![cfg_attr(miri, feature(specialization), allow(incomplete_features))]
 #![feature(
     allocator_api,
     closure_lifetime_binder,
     forget_unsized,
     impl_trait_in_assoc_type,
-    min_specialization,
     ptr_metadata,
     type_alias_impl_trait,
     unsize,
diff --git a/src/lib.rs b/src/lib.rs
index 0e32111..fa5c3ff 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -98,7 +98,9 @@ use core::{
     mem,
     ops::{Index, IndexMut},
 };
-use emplacable::{Emplacable, EmplacableFn, Emplacer, unsize};
+#[cfg(not(miri))]
+use emplacable::unsize;
+use emplacable::{Emplacable, EmplacableFn, Emplacer};
 
 use inner::{Align, Size, UnsizedVecImpl, UnsizedVecProvider};
 
@@ -776,7 +778,10 @@ impl<T: ?Sized> UnsizedVec<T> {
     where
         S: Unsize<T>,
     {
+        #[cfg(not(miri))]
         self.insert(index, unsize!(value, (S) -> T));
+        #[cfg(miri)] // which cannot pass unsized values
+        self.insert_with(index, Emplacable::<S, _>::from(value).unsize());
     }
 
     /// Inserts an element at position `index` within the vector, shifting all
@@ -926,7 +931,10 @@ impl<T: ?Sized> UnsizedVec<T> {
     /// ```
     #[inline]
     pub fn push_unsize<S: Unsize<T>>(&mut self, value: S) {
+        #[cfg(not(miri))]
         self.push(unsize!(value, (S) -> T));
+        #[cfg(miri)] // which cannot pass unsized values
+        self.push_with(Emplacable::<S, _>::from(value).unsize());
     }
 
     /// Appends an element to the back of a collection.
-- 
2.43.0

