From 8a88e6fdb9ec6e26ed12629bb056fed607abe3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 01/20] fix: Cursor::try_write_front wrote exactly when there
 was no unfilled slot

---
 src/iter/cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/cursor.rs b/src/iter/cursor.rs
index 12e5385..77f658c 100644
--- a/src/iter/cursor.rs
+++ b/src/iter/cursor.rs
@@ -233,10 +233,10 @@ impl<'a, T, S: ?Sized + Storage<T>> Cursor<'a, T, S> {
     #[inline]
     pub fn try_write_front(&mut self, value: T) -> Result<(), T> {
         if self.is_write_front_empty() {
+            Err(value)
+        } else {
             unsafe { self.raw.write_front(value) }
             Ok(())
-        } else {
-            Err(value)
         }
     }
 
-- 
2.43.0


From 721f30d40f3eeaa73b7a83e04fb0db550fcbe061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 02/20] fix: remove, try_remove and swap_remove accepted index
 == len and read past the end

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fc6e8ed..7cb2c5f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1114,7 +1114,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
             panic!("Tried to remove an element at {}, but length is {}", index, len);
         }
 
-        if index > self.len() {
+        if index >= self.len() {
             remove_fail(index, self.len())
         }
 
@@ -1169,7 +1169,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
             panic!("Tried to remove an element at {}, but length is {}", index, len);
         }
 
-        if index > self.len() {
+        if index >= self.len() {
             swap_remove_fail(index, self.len())
         }
 
@@ -1284,7 +1284,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     ///
     /// Guaranteed to not panic/abort/allocate
     pub fn try_remove(&mut self, index: usize) -> Option<T> {
-        if self.len() < index {
+        if index >= self.len() {
             None
         } else {
             // Safety
-- 
2.43.0


From 24eeae688c04536a88b812515a42b79e944a2310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 03/20] fix: try_pop_array popped from vectors holding fewer
 than N elements

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7cb2c5f..fe4947f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1268,7 +1268,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     /// Guaranteed to not panic/abort/allocate
     #[cfg(any(doc, feature = "nightly"))]
     pub fn try_pop_array<const N: usize>(&mut self) -> Option<[T; N]> {
-        if self.is_empty() {
+        if self.len() < N {
             None
         } else {
             // Safety
-- 
2.43.0


From 9d54dddee6bebe8e4da553cf5668af05bad5992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 04/20] fix: removing exactly the last N elements as an array
 panicked with debug assertions on

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fe4947f..cdc9cdc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1490,7 +1490,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
 
         let len = self.len();
         debug_assert!(
-            len > N,
+            len >= N,
             "Tried to remove {} elements from a {} length vector! This is UB in release mode",
             N,
             len,
@@ -1561,7 +1561,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
             len,
         );
         debug_assert!(
-            len.wrapping_sub(index) > N,
+            len.wrapping_sub(index) >= N,
             "Tried to remove {} elements from a {} length vector! This is UB in release mode",
             N,
             len,
-- 
2.43.0


From 7d251aaafc7838732ca535a7cb771c8a49237589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 05/20] fix: ArrayVec::from_array created an empty vector and
 leaked the array

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cdc9cdc..bd84db7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -498,7 +498,7 @@ impl<T, const N: usize> ArrayVec<T, N> {
     /// Create a new full `ArrayVec`
     pub const fn from_array(array: [T; N]) -> Self {
         Self {
-            len: 0,
+            len: N,
             mark: PhantomData,
             storage: raw::UninitBuffer::new(array),
         }
-- 
2.43.0


From aeec7288d954317e6a0aee9dfd321df9ad233c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 06/20] fix: ArrayVec::into_array always panicked for
 zero-sized elements

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bd84db7..9955479 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -510,7 +510,7 @@ impl<T, const N: usize> ArrayVec<T, N> {
     ///
     /// Panics if the the collection is not full
     pub fn into_array(self) -> [T; N] {
-        assert!(self.is_full());
+        assert!(self.len() == N);
         let this = core::mem::ManuallyDrop::new(self);
         unsafe { Storage::<[T; N]>::as_ptr(&this.storage).read() }
     }
-- 
2.43.0


From e932d27e1d416c739a8f86606d7a76866f94612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 07/20] fix: grow of Copy elements (nightly) overwrote the
 front and exposed uninitialized memory

---
 src/extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extension.rs b/src/extension.rs
index 59d1598..562631a 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -98,7 +98,7 @@ where
         unsafe {
             self.set_len_unchecked(len.wrapping_add(additional));
         }
-        let mut ptr = self.storage.as_mut_ptr();
+        let mut ptr = unsafe { self.storage.as_mut_ptr().add(len) };
 
         for _ in 0..additional {
             unsafe {
-- 
2.43.0


From 16da7eac1f6a196c8af588f2015c6e570ab3399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 08/20] fix: dropping a RawCursor after finish moved the tail
 twice, duplicating elements

---
 src/iter/raw_cursor.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index aebccdf..3cf4227 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -75,6 +75,7 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 let back_len = self.old_vec_len.wrapping_sub(self.write_back as usize);
                 let len = front_len + back_len;
                 self.vec.as_mut().set_len_unchecked(len);
+                self.old_vec_len = len;
             } else {
                 let start = self.vec.as_mut().as_mut_ptr();
                 let range = start..start.add(self.old_vec_len);
@@ -88,7 +89,15 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 }
 
                 self.vec.as_mut().set_len_unchecked(len);
+                self.old_vec_len = len;
             }
+
+            // Every element is in its final place, and there are no unfilled slots left.
+            // So that finishing again (for example on drop) doesn't move the elements
+            // after the cursor a second time
+            self.read_front = self.write_front;
+            self.read_back = self.write_front;
+            self.write_back = self.write_front;
         }
     }
 
@@ -676,6 +685,10 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 let back_len = range.end.offset_from(self.write_back) as usize;
                 let len = front_len + back_len;
 
+                // only the elements before the unfilled slots are guaranteed to be initialized
+                // if the `RawCursor` is leaked
+                self.vec.as_mut().set_len_unchecked(front_len);
+
                 if len + space > capacity {
                     let wf = self.write_front.offset_from(range.start) as usize;
                     let wb = self.write_back.offset_from(range.start) as usize;
-- 
2.43.0


From 5c9b8d8e5f4eb3c3f87f89278a5487bee0ac9a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 09/20] fix: splice at the end of a non-empty vector lost the
 replacement elements

---
 src/iter/raw_cursor.rs | 10 ++++++++--
 src/iter/splice.rs     |  3 +--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index 3cf4227..df0e621 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -110,8 +110,14 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
         }
     }
 
-    /// Get a mutable reference to the underlying vector
-    pub(crate) unsafe fn vec_mut(&mut self) -> &mut GenericVec<T, S> { unsafe { self.vec.as_mut() } }
+    /// Finish this `RawCursor` and get a mutable reference to the underlying vector
+    ///
+    /// The `RawCursor` will not touch the vector again, so it's fine to change the vector
+    pub(crate) unsafe fn finish_into_vec(&mut self) -> &mut GenericVec<T, S> {
+        self.finish();
+        self.old_vec_len = 0;
+        unsafe { self.vec.as_mut() }
+    }
 
     /// The number of remaining elements in range of this `RawCursor`
     ///
diff --git a/src/iter/splice.rs b/src/iter/splice.rs
index 658764b..bf55194 100644
--- a/src/iter/splice.rs
+++ b/src/iter/splice.rs
@@ -37,8 +37,7 @@ impl<T, S: ?Sized + Storage<T>, I: Iterator<Item = T>> Drop for Splice<'_, T, S,
         }
 
         if raw.at_back_of_vec() {
-            self.raw.finish();
-            unsafe { self.raw.vec_mut().extend(replace_with) }
+            unsafe { self.raw.finish_into_vec().extend(replace_with) }
             return
         }
 
-- 
2.43.0


From 9f0bb0714d1570d71f290e1373c24f0dbe117b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 10/20] fix: Heap deallocated storage that was never allocated
 (crash) and allocated zero bytes

---
 src/raw/heap/nightly.rs | 7 ++++++-
 src/raw/heap/stable.rs  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/raw/heap/nightly.rs b/src/raw/heap/nightly.rs
index 01482e7..1b127b7 100644
--- a/src/raw/heap/nightly.rs
+++ b/src/raw/heap/nightly.rs
@@ -34,6 +34,11 @@ enum OnFailure {
 
 impl<T, A: ?Sized + Allocator> Drop for Heap<T, A> {
     fn drop(&mut self) {
+        // nothing was allocated
+        if self.capacity == 0 || size_of::<T>() == 0 {
+            return
+        }
+
         unsafe {
             let layout = Layout::new::<T>();
             let layout = Layout::from_size_align_unchecked(layout.size() * self.capacity, layout.align());
@@ -155,7 +160,7 @@ unsafe impl<T, U, A: ?Sized + Allocator> Storage<U> for Heap<T, A> {
 
 impl<T, A: Default + Allocator> Heap<T, A> {
     fn with_capacity(capacity: usize) -> Self {
-        if core::mem::size_of::<T>() == 0 {
+        if capacity == 0 || core::mem::size_of::<T>() == 0 {
             return Self::default()
         }
 
diff --git a/src/raw/heap/stable.rs b/src/raw/heap/stable.rs
index db7732b..9d62bc2 100644
--- a/src/raw/heap/stable.rs
+++ b/src/raw/heap/stable.rs
@@ -29,6 +29,11 @@ enum OnFailure {
 
 impl<T> Drop for Heap<T> {
     fn drop(&mut self) {
+        // nothing was allocated
+        if self.capacity == 0 || size_of::<T>() == 0 {
+            return
+        }
+
         unsafe {
             let layout = Layout::new::<T>();
             let layout = Layout::from_size_align_unchecked(layout.size() * self.capacity, layout.align());
@@ -135,7 +140,7 @@ pub fn repeat(layout: Layout, n: usize) -> Result<Layout, ()> {
 
 impl<T> Heap<T> {
     fn with_capacity(capacity: usize) -> Self {
-        if core::mem::size_of::<T>() == 0 {
+        if capacity == 0 || core::mem::size_of::<T>() == 0 {
             return Self::new()
         }
 
-- 
2.43.0


From d34fc1df5df0f445cf2487efb8ea63447ea2dfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 11/20] fix: converting a capacity between element sizes
 truncated, so a huge reserve did nothing

---
 src/raw/capacity.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/raw/capacity.rs b/src/raw/capacity.rs
index b37f5d0..8631cf5 100644
--- a/src/raw/capacity.rs
+++ b/src/raw/capacity.rs
@@ -57,11 +57,13 @@ pub(in crate::raw) const fn capacity(old_capacity: usize, size_self: usize, size
         Round::Down => size,
     };
 
-    // this can't overflow pow2(n)
-    //
-    // size = 0..=(pow2(2 * n) - pow2(n) - 1)
-    // size / size_other = 0..=(pow2(2 * n) - pow2(n) - 1) / pow2(n)
-    //                   = 0..=(pow2(n) - 1 - 1 / pow2(n)) < pow2(n)
-    //
-    (size / (size_other as PointerNext)) as usize
+    let count = size / (size_other as PointerNext);
+
+    // `count` doesn't have to fit in a `usize` if `size_self > size_other`. In that case
+    // `usize::MAX` is more than any storage can hold.
+    if count > usize::MAX as PointerNext {
+        usize::MAX
+    } else {
+        count as usize
+    }
 }
-- 
2.43.0


From a86e9ff495fec750860d82a185ae9ac2d35ce84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 12/20] fix: storages of zero-sized items claimed to have
 reserved space for sized elements

---
 src/raw/heap/nightly.rs | 11 ++++++-----
 src/raw/heap/stable.rs  | 11 ++++++-----
 src/raw/slice.rs        |  6 +++---
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/raw/heap/nightly.rs b/src/raw/heap/nightly.rs
index 1b127b7..cd7b834 100644
--- a/src/raw/heap/nightly.rs
+++ b/src/raw/heap/nightly.rs
@@ -142,16 +142,17 @@ unsafe impl<T, U, A: ?Sized + Allocator> Storage<U> for Heap<T, A> {
     fn as_mut_ptr(&mut self) -> *mut U { self.ptr.as_ptr().cast() }
 
     fn reserve(&mut self, new_capacity: usize) {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if self.capacity < new_capacity {
+        if Storage::<U>::capacity(self) < new_capacity {
+            let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
             let _ = self.reserve_slow(new_capacity, OnFailure::Abort);
         }
     }
 
     fn try_reserve(&mut self, new_capacity: usize) -> bool {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if self.capacity < new_capacity {
-            self.reserve_slow(new_capacity, OnFailure::Error)
+        if Storage::<U>::capacity(self) < new_capacity {
+            let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
+            // no number of zero-sized `T`s can hold a `U`
+            size_of::<T>() != 0 && self.reserve_slow(new_capacity, OnFailure::Error)
         } else {
             true
         }
diff --git a/src/raw/heap/stable.rs b/src/raw/heap/stable.rs
index 9d62bc2..269d4f4 100644
--- a/src/raw/heap/stable.rs
+++ b/src/raw/heap/stable.rs
@@ -83,16 +83,17 @@ unsafe impl<T, U> Storage<U> for Heap<T> {
     fn as_mut_ptr(&mut self) -> *mut U { self.ptr.as_ptr().cast() }
 
     fn reserve(&mut self, new_capacity: usize) {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if self.capacity < new_capacity {
+        if Storage::<U>::capacity(self) < new_capacity {
+            let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
             let _ = self.reserve_slow(new_capacity, OnFailure::Abort);
         }
     }
 
     fn try_reserve(&mut self, new_capacity: usize) -> bool {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if self.capacity < new_capacity {
-            self.reserve_slow(new_capacity, OnFailure::Error)
+        if Storage::<U>::capacity(self) < new_capacity {
+            let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
+            // no number of zero-sized `T`s can hold a `U`
+            size_of::<T>() != 0 && self.reserve_slow(new_capacity, OnFailure::Error)
         } else {
             true
         }
diff --git a/src/raw/slice.rs b/src/raw/slice.rs
index d58085c..7cfe2c0 100644
--- a/src/raw/slice.rs
+++ b/src/raw/slice.rs
@@ -54,9 +54,9 @@ unsafe impl<T, U> Storage<U> for UninitSlice<T> {
     fn as_mut_ptr(&mut self) -> *mut U { self.0.as_mut_ptr().cast() }
 
     fn reserve(&mut self, new_capacity: usize) {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if new_capacity > self.0.len() {
-            fixed_capacity_reserve_error(self.0.len(), new_capacity)
+        let capacity = Storage::<U>::capacity(self);
+        if new_capacity > capacity {
+            fixed_capacity_reserve_error(capacity, new_capacity)
         }
     }
 
-- 
2.43.0


From 22dc9b03bb8616f6802c9e4c41d5d07e6732a464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 13/20] fix: try_reserve panicked or broke the contract of
 Layout on huge requests

---
 src/raw/heap/nightly.rs |  8 ++++++--
 src/raw/heap/stable.rs  | 13 +++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/raw/heap/nightly.rs b/src/raw/heap/nightly.rs
index cd7b834..128d215 100644
--- a/src/raw/heap/nightly.rs
+++ b/src/raw/heap/nightly.rs
@@ -197,9 +197,13 @@ impl<T, A: ?Sized + Allocator> Heap<T, A> {
 
         // grow by at least doubling
         let new_capacity = new_capacity
-            .max(self.capacity.checked_mul(2).expect("Could not grow further"))
+            .max(self.capacity.saturating_mul(2))
             .max(super::INIT_ALLOC_CAPACITY);
-        let layout = Layout::new::<T>().repeat(new_capacity).expect("Invalid layout").0;
+        let layout = match (Layout::new::<T>().repeat(new_capacity), &on_failure) {
+            (Ok((layout, _)), _) => layout,
+            (Err(_), OnFailure::Abort) => panic!("Invalid layout"),
+            (Err(_), OnFailure::Error) => return false,
+        };
 
         let ptr = if self.capacity == 0 {
             self.allocator.allocate(layout)
diff --git a/src/raw/heap/stable.rs b/src/raw/heap/stable.rs
index 269d4f4..bed5705 100644
--- a/src/raw/heap/stable.rs
+++ b/src/raw/heap/stable.rs
@@ -134,6 +134,11 @@ pub fn repeat(layout: Layout, n: usize) -> Result<Layout, ()> {
     let padded_size = layout.size() + padding_needed_for(layout, layout.align());
     let alloc_size = padded_size.checked_mul(n).ok_or(())?;
 
+    // no allocation can be larger than `isize::MAX` bytes
+    if alloc_size > isize::MAX as usize {
+        return Err(())
+    }
+
     // SAFETY: self.align is already known to be valid and alloc_size has been
     // padded already.
     unsafe { Ok(Layout::from_size_align_unchecked(alloc_size, layout.align())) }
@@ -175,9 +180,13 @@ impl<T> Heap<T> {
 
         // grow by at least doubling
         let new_capacity = new_capacity
-            .max(self.capacity.checked_mul(2).expect("Could not grow further"))
+            .max(self.capacity.saturating_mul(2))
             .max(super::INIT_ALLOC_CAPACITY);
-        let layout = repeat(Layout::new::<T>(), new_capacity).expect("Invalid layout");
+        let layout = match (repeat(Layout::new::<T>(), new_capacity), &on_failure) {
+            (Ok(layout), _) => layout,
+            (Err(_), OnFailure::Abort) => panic!("Invalid layout"),
+            (Err(_), OnFailure::Error) => return false,
+        };
 
         let ptr = if self.capacity == 0 {
             unsafe { alloc(layout) }
-- 
2.43.0


From 522e1368d9e015474a5284e7d46e9a7d0b9dc551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 14/20] fix: RawCursor::reserve overflowed and handed out slots
 outside of the storage

---
 src/iter/raw_cursor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index df0e621..3653af8 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -695,14 +695,16 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 // if the `RawCursor` is leaked
                 self.vec.as_mut().set_len_unchecked(front_len);
 
-                if len + space > capacity {
+                let new_len = len.checked_add(space).expect("Tried to reserve too much space");
+
+                if new_len > capacity {
                     let wf = self.write_front.offset_from(range.start) as usize;
                     let wb = self.write_back.offset_from(range.start) as usize;
                     let rf = self.read_front.offset_from(range.start) as usize;
                     let rb = self.read_back.offset_from(range.start) as usize;
 
                     let vec = self.vec.as_mut();
-                    vec.storage.reserve(len + space);
+                    vec.storage.reserve(new_len);
 
                     let start = vec.as_mut_ptr();
                     self.write_front = start.add(wf);
-- 
2.43.0


From 82f5accf2010df9646d1de29a23b2e1faa759fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 15/20] fix: vectors of zero-sized elements claimed more
 capacity than their storage has

---
 src/iter/raw_cursor.rs | 12 +++++++++++-
 src/lib.rs             |  8 +-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index 3653af8..03d1736 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -673,8 +673,18 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 let write_space = (self.write_back as usize).wrapping_sub(self.write_front as usize);
 
                 if let Some(increase_by) = space.checked_sub(write_space) {
+                    let new_len = self
+                        .old_vec_len
+                        .checked_add(increase_by)
+                        .expect("Tried to reserve too much space");
+                    let vec = self.vec.as_mut();
+
+                    if new_len > vec.capacity() {
+                        vec.storage.reserve(new_len);
+                    }
+
                     self.write_back = (self.write_back as usize).wrapping_add(increase_by) as _;
-                    self.old_vec_len += increase_by;
+                    self.old_vec_len = new_len;
                 }
             } else {
                 let write_space = self.write_back.offset_from(self.write_front) as usize;
diff --git a/src/lib.rs b/src/lib.rs
index 9955479..2c53551 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -665,13 +665,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     pub fn len(&self) -> usize { self.len }
 
     /// Returns the number of elements the vector can hold without reallocating or panicing.
-    pub fn capacity(&self) -> usize {
-        if core::mem::size_of::<T>() == 0 {
-            isize::MAX as usize
-        } else {
-            self.storage.capacity()
-        }
-    }
+    pub fn capacity(&self) -> usize { self.storage.capacity() }
 
     /// Returns true if and only if the vector contains no elements.
     pub fn is_empty(&self) -> bool { self.len() == 0 }
-- 
2.43.0


From f8c4c4996f86f314117542bad695611a5537d4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 16/20] fix: splice of zero-sized elements leaked the
 replacement elements on panic

---
 src/iter/splice.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/iter/splice.rs b/src/iter/splice.rs
index bf55194..eb9baa3 100644
--- a/src/iter/splice.rs
+++ b/src/iter/splice.rs
@@ -1,7 +1,5 @@
 use crate::{iter::RawCursor, Storage};
 
-use core::mem::ManuallyDrop;
-
 /// This struct is created by [`GenericVec::splice`](crate::GenericVec::splice).
 /// See its documentation for more.
 pub struct Splice<'a, T, S, I>
@@ -27,11 +25,13 @@ impl<T, S: ?Sized + Storage<T>, I: Iterator<Item = T>> Drop for Splice<'_, T, S,
 
         if let Some(storage) = crate::raw::ZeroSized::TRY_NEW {
             unsafe {
-                let mut vec = ManuallyDrop::new(crate::ZSVec::with_storage(storage));
+                // if anything panics before the elements are handed over to the `RawCursor`
+                // then `vec` will drop them
+                let mut vec = crate::ZSVec::with_storage(storage);
                 vec.extend(replace_with);
-                let len = vec.len();
-                raw.reserve(len);
+                raw.reserve(vec.len());
                 raw.write_slice_front(vec.as_slice());
+                core::mem::forget(vec);
                 return
             }
         }
-- 
2.43.0


From 1c50139328e1999e6d5d51b0183cfafff697910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 17/20] fix: from_raw_parts did not check that the storage can
 hold the elements

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 2c53551..78dad92 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -608,6 +608,7 @@ impl<T, S: Storage<T>> GenericVec<T, S> {
     /// If the given storage cannot hold type `T`, then this method will panic
     #[cfg(not(feature = "nightly"))]
     pub unsafe fn from_raw_parts(len: usize, storage: S) -> Self {
+        assert!(S::IS_ALIGNED, "The storage must be aligned to `T`");
         Self {
             storage,
             len,
@@ -631,6 +632,7 @@ impl<T, S: Storage<T>> GenericVec<T, S> {
     ///
     /// If the given storage cannot hold type `T`, then this method will panic
     pub const unsafe fn from_raw_parts(len: usize, storage: S) -> Self {
+        assert!(S::IS_ALIGNED, "The storage must be aligned to `T`");
         Self {
             storage,
             len,
-- 
2.43.0


From a9eb0ef5c28b03c5dac34c3299968b1c0350281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 18/20] fix: docs of is_write_front_empty and
 is_write_back_empty said the opposite

---
 src/iter/cursor.rs     | 4 ++--
 src/iter/raw_cursor.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/iter/cursor.rs b/src/iter/cursor.rs
index 77f658c..dfccb3e 100644
--- a/src/iter/cursor.rs
+++ b/src/iter/cursor.rs
@@ -31,12 +31,12 @@ impl<'a, T, S: ?Sized + Storage<T>> Cursor<'a, T, S> {
     #[inline]
     pub fn is_write_empty(&self) -> bool { self.raw.is_write_empty() }
 
-    /// Returns true if there is an unfilled slot at the front
+    /// Returns true if there are no unfilled slots at the front
     /// of the `Cursor`
     #[inline]
     pub fn is_write_front_empty(&self) -> bool { self.raw.is_write_front_empty() }
 
-    /// Returns true if there is an unfilled slot at the back
+    /// Returns true if there are no unfilled slots at the back
     /// of the `Cursor`
     #[inline]
     pub fn is_write_back_empty(&self) -> bool { self.raw.is_write_back_empty() }
diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index 03d1736..09a58eb 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -140,13 +140,13 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
     #[inline]
     pub fn is_write_empty(&self) -> bool { self.write_back == self.write_front }
 
-    /// Returns true if there is an unfilled slot at the front
+    /// Returns true if there are no unfilled slots at the front
     /// of the `RawCursor`
     pub fn is_write_front_empty(&self) -> bool {
         self.is_write_empty() || (self.write_front == self.read_front && !self.is_empty())
     }
 
-    /// Returns true if there is an unfilled slot at the back
+    /// Returns true if there are no unfilled slots at the back
     /// of the `RawCursor`
     pub fn is_write_back_empty(&self) -> bool {
         self.is_write_empty() || (self.write_back == self.read_back && !self.is_empty())
-- 
2.43.0


From 87a3d4648a8fceeeec8f4894dd5bc36715121d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 19/20] hook: compile the nightly feature with current
 compilers (cfg generic_vec_modern_nightly)

---
 src/impls.rs          |  3 +++
 src/lib.rs            | 13 +++++++++++--
 src/modern_nightly.rs | 11 +++++++++++
 3 files changed, 25 insertions(+), 2 deletions(-)
 create mode 100644 src/modern_nightly.rs

diff --git a/src/impls.rs b/src/impls.rs
index 6100bf1..160e23c 100644
--- a/src/impls.rs
+++ b/src/impls.rs
@@ -12,6 +12,9 @@ use core::{
 #[cfg(feature = "alloc")]
 use std::vec::Vec;
 
+#[cfg(all(feature = "alloc", feature = "nightly", generic_vec_modern_nightly))]
+use crate::modern_nightly::VecIntoRawPartsWithAlloc;
+
 impl<T, S: StorageWithCapacity<T>> Clone for GenericVec<T, S>
 where
     T: Clone,
diff --git a/src/lib.rs b/src/lib.rs
index 78dad92..d08e7c0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,10 +1,10 @@
 #![cfg_attr(not(any(doc, feature = "std")), no_std)]
 #![cfg_attr(
-    any(doc, feature = "nightly"),
+    all(any(doc, feature = "nightly"), not(generic_vec_modern_nightly)),
     feature(min_const_generics, unsafe_block_in_unsafe_fn)
 )]
 #![cfg_attr(
-    any(doc, feature = "nightly"),
+    all(any(doc, feature = "nightly"), not(generic_vec_modern_nightly)),
     feature(
         trusted_len,
         min_specialization,
@@ -18,6 +18,13 @@
         doc_cfg,
     )
 )]
+// verification hook: the same feature set for the current nightly, where the other features were
+// stabilized or renamed
+#![cfg_attr(
+    all(any(doc, feature = "nightly"), generic_vec_modern_nightly),
+    allow(incomplete_features),
+    feature(trusted_len, specialization, exact_size_is_empty, allocator_api, alloc_layout_extra, doc_cfg)
+)]
 #![cfg_attr(feature = "nightly", forbid(unsafe_op_in_unsafe_fn))]
 #![allow(unused_unsafe)]
 #![forbid(missing_docs, clippy::missing_safety_doc)]
@@ -198,6 +205,8 @@ use core::{
 
 mod extension;
 mod impls;
+#[cfg(all(feature = "alloc", feature = "nightly", generic_vec_modern_nightly))]
+mod modern_nightly;
 mod slice;
 
 pub mod iter;
diff --git a/src/modern_nightly.rs b/src/modern_nightly.rs
new file mode 100644
index 0000000..8b3834b
--- /dev/null
+++ b/src/modern_nightly.rs
@@ -0,0 +1,11 @@
+//! verification hook: names of the standard library that changed since the pinned nightly
+
+use std::{alloc::Allocator, vec::Vec};
+
+pub trait VecIntoRawPartsWithAlloc<T, A> {
+    fn into_raw_parts_with_alloc(self) -> (*mut T, usize, usize, A);
+}
+
+impl<T, A: Allocator> VecIntoRawPartsWithAlloc<T, A> for Vec<T, A> {
+    fn into_raw_parts_with_alloc(self) -> (*mut T, usize, usize, A) { self.into_raw_parts_with_allocator() }
+}
-- 
2.43.0


From 3806fa9a85159dde01062df90424317f443cd149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:37 +0000
Subject: [PATCH 20/20] fix: spare capacity writers of zero-sized elements
 accepted more items than the vector has room for

---
 src/raw/slice.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/raw/slice.rs b/src/raw/slice.rs
index 7cfe2c0..9e19f75 100644
--- a/src/raw/slice.rs
+++ b/src/raw/slice.rs
@@ -47,7 +47,14 @@ impl<T> UninitSlice<T> {
 unsafe impl<T, U> Storage<U> for UninitSlice<T> {
     const IS_ALIGNED: bool = align_of::<T>() >= align_of::<U>();
 
-    fn capacity(&self) -> usize { capacity(self.0.len(), size_of::<T>(), size_of::<U>(), Round::Down) }
+    fn capacity(&self) -> usize {
+        if size_of::<T>() == 0 && size_of::<U>() == 0 {
+            // the slots have no size, but there is still a fixed number of them
+            self.0.len()
+        } else {
+            capacity(self.0.len(), size_of::<T>(), size_of::<U>(), Round::Down)
+        }
+    }
 
     fn as_ptr(&self) -> *const U { self.0.as_ptr().cast() }
 
-- 
2.43.0

