From f4481ae500ea8e98f4cd976ab10728f2c641f1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 01/33] fix: compare lengths when comparing VecDyn, Slice and
 SliceMut for equality

---
 src/slice.rs   | 18 +++++++++++-------
 src/vec_dyn.rs |  8 +++++---
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index bffca3a..8a2445b 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -30,9 +30,11 @@ pub type SliceDrop<'a> = Slice<'a, DropVTable>;
 
 impl<'a, V: ?Sized + HasDrop + HasPartialEq> PartialEq for Slice<'a, V> {
     fn eq(&self, other: &Self) -> bool {
-        self.iter()
-            .zip(other.iter())
-            .all(|(this, that)| this == that)
+        self.len() == other.len()
+            && self
+                .iter()
+                .zip(other.iter())
+                .all(|(this, that)| this == that)
     }
 }
 
@@ -345,10 +347,12 @@ pub type SliceMutDrop<'a> = SliceMut<'a, DropVTable>;
 
 impl<'a, V: ?Sized + HasDrop + HasPartialEq> PartialEq for SliceMut<'a, V> {
     fn eq(&self, other: &Self) -> bool {
-        self.reborrow()
-            .iter()
-            .zip(other.reborrow().iter())
-            .all(|(this, that)| this == that)
+        self.len() == other.len()
+            && self
+                .reborrow()
+                .iter()
+                .zip(other.reborrow().iter())
+                .all(|(this, that)| this == that)
     }
 }
 
diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index d0cc0e2..0bfc318 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -123,9 +123,11 @@ impl<V: ?Sized + Clone + HasDrop + HasClone> Clone for VecDyn<V> {
 
 impl<V: ?Sized + HasDrop + HasPartialEq> PartialEq for VecDyn<V> {
     fn eq(&self, other: &Self) -> bool {
-        self.iter()
-            .zip(other.iter())
-            .all(|(this, that)| this == that)
+        self.len() == other.len()
+            && self
+                .iter()
+                .zip(other.iter())
+                .all(|(this, that)| this == that)
     }
 }
 
-- 
2.43.0


From b7b066732d72d3e9422a6fc3267f151dab22b4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 02/33] fix: grow untyped vectors by whole elements so capacity
 is never torn

---
 src/vec_void.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index b6ec5f4..3caed7f 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -215,10 +215,19 @@ impl VecVoid {
     pub(crate) fn reserve(&mut self, additional: usize) {
         fn reserve<T: 'static>(buf: &mut VecVoid, additional: usize) {
             let size = buf.elem.size;
+            // Capacity must always be a whole number of elements, so the amortized growth is
+            // computed here in terms of elements (as opposed to alignment sized chunks).
+            let additional = if additional > buf.cap - buf.len {
+                let required = buf.len.checked_add(additional).expect("capacity overflow");
+                required.max(buf.cap.saturating_mul(2)) - buf.len
+            } else {
+                additional
+            };
+            let additional = additional.checked_mul(size).expect("capacity overflow");
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.reserve(additional * size);
+                    v.reserve_exact(additional);
                 })
             };
         }
@@ -257,6 +266,9 @@ impl VecVoid {
         debug_assert_eq!(self.elem.alignment, other.elem.alignment);
         debug_assert_eq!(self.elem.size, other.elem.size);
 
+        // Ensures that capacity grows by a whole number of elements.
+        self.reserve(other.len);
+
         eval_align!(self.elem.alignment; append::<_>(self, other));
     }
 
@@ -275,6 +287,9 @@ impl VecVoid {
             }
         }
 
+        // Ensures that capacity grows by a whole number of elements.
+        self.reserve(1);
+
         eval_align!(self.elem.alignment; push::<_>(self, val));
     }
 
@@ -309,6 +324,9 @@ impl VecVoid {
             }
         }
 
+        // Ensures that capacity grows by a whole number of elements.
+        self.reserve(len.saturating_sub(self.len));
+
         eval_align!(self.elem.alignment; resize_with::<_, I>(self, len, init));
     }
 
-- 
2.43.0


From e84db14b0a48dec96a054c68eb1830b288d9b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:14 +0000
Subject: [PATCH 03/33] fix: push all bytes of an untyped value instead of one
 alignment sized chunk

---
 src/vec_void.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index 3caed7f..d389a3e 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -274,23 +274,20 @@ impl VecVoid {
 
     #[inline]
     pub(crate) fn push(&mut self, val: &[MaybeUninit<u8>]) {
-        fn push<T: 'static + Copy>(buf: &mut VecVoid, val: &[MaybeUninit<u8>]) {
-            // SAFETY: Memory layout is ensured to be correct by eval_align.
-            unsafe {
-                buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    // SAFETY: T here is one of the T# so it's copy. The
-                    // following is effectively a move and doesn't rely on the
-                    // "actual" type being Copy.
-                    let val_t = *(val.as_ptr() as *const T);
-                    v.push(val_t);
-                });
-            }
-        }
+        let num_bytes = self.elem.num_bytes();
+        assert_eq!(val.len(), num_bytes);
 
         // Ensures that capacity grows by a whole number of elements.
         self.reserve(1);
 
-        eval_align!(self.elem.alignment; push::<_>(self, val));
+        // SAFETY: There is enough capacity for one more element and `val` has the size of one
+        // element. The following is effectively a move and doesn't rely on the "actual" type
+        // being Copy.
+        unsafe {
+            let dst = (self.ptr as *mut MaybeUninit<u8>).add(self.len * num_bytes);
+            std::ptr::copy_nonoverlapping(val.as_ptr(), dst, num_bytes);
+        }
+        self.len += 1;
     }
 
     /// Resize this `VecVoid` using a given per element initializer.
-- 
2.43.0


From 20a259fd6fa78f0386c5a21169c7a5152d6dc4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:16 +0000
Subject: [PATCH 04/33] fix: free the box of a value pushed to VecDyn with the
 value's alignment

---
 src/vec_dyn.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 0bfc318..0557296 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -434,8 +434,10 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
         if value.value_type_id() == self.element_type_id() {
             // Prevent the value from being dropped at the end of this scope since it will be later
             // dropped by this container. The remaining fields like vtable will be dropped here.
-            let (bytes, _, _, _) = value.into_raw_parts();
+            let (mut bytes, _, alignment, _) = value.into_raw_parts();
             self.data.data.push(&*bytes);
+            // The box must be deallocated with the alignment it was allocated with.
+            bytes.drop_as_aligned(alignment);
             Some(self)
         } else {
             None
-- 
2.43.0


From e370ac5196ec005aa4836881a4c7f313702b2432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 05/33] fix: do not reuse the allocation of a differently typed
 VecVoid in clone_from

---
 src/vec_void.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index d389a3e..4a01fca 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -70,6 +70,12 @@ impl Clone for VecVoid {
                 out.apply_aligned_unchecked(|out: &mut Vec<T>| out.clone_from(&src))
             }
         }
+        // The allocation can only be reused for elements of the same type, and only if it doesn't
+        // need to grow, since capacity must remain a whole number of elements.
+        if self.elem != source.elem || self.cap < source.len {
+            *self = source.clone();
+            return;
+        }
         eval_align!(self.elem.alignment; clone_from::<_>(self, source))
     }
 }
-- 
2.43.0


From 5a66cb46725cb8c74b58fadf106dd534b9e0ef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:15 +0000
Subject: [PATCH 06/33] fix: keep vectors intact when an operation on them
 panics

---
 src/vec_dyn.rs  |  3 +-
 src/vec_void.rs | 92 +++++++++++++++++++++++++++++--------------------
 2 files changed, 55 insertions(+), 40 deletions(-)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 0557296..1adde80 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -459,12 +459,11 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
     {
         if self.element_type_id() == value.value_type_id() {
             let VecCopy { data, vtable } = &mut *self.data;
-            let new_len = data.len() + 1;
             // This does not leak because the copied bytes are guaranteed to be dropped by self.
             // This will also not cause a double free since the bytes in self are not dropped by
             // clone_into_raw_fn unlike clone_from_fn.
             unsafe {
-                data.resize_with(new_len, |uninit_val| {
+                data.push_with(|uninit_val| {
                     vtable.clone_into_raw_fn()(value.bytes, uninit_val);
                 });
             }
diff --git a/src/vec_void.rs b/src/vec_void.rs
index 4a01fca..2a966d0 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -87,6 +87,30 @@ impl Default for VecVoid {
     }
 }
 
+/// Puts a typed `Vec` back into the `VecVoid` it was taken from, even if the function modifying it
+/// panics.
+struct RestoreGuard<'a, T: 'static> {
+    target: &'a mut VecVoid,
+    vec: ManuallyDrop<Vec<T>>,
+    elem: ElemInfo,
+}
+
+impl<'a, T: 'static> Drop for RestoreGuard<'a, T> {
+    fn drop(&mut self) {
+        // Number of `T`s per element. This is 1 unless `T` is one of the alignment sized types.
+        let scale = self.elem.num_bytes() / size_of::<T>();
+        // Capacity is expected to always represent a whole number of elements.
+        assert_eq!(self.vec.capacity() % scale, 0);
+        // Replaced default VecVoid value can be safely ignored.
+        *self.target = VecVoid {
+            ptr: self.vec.as_mut_ptr() as *mut (),
+            len: self.vec.len() / scale,
+            cap: self.vec.capacity() / scale,
+            elem: self.elem,
+        };
+    }
+}
+
 impl VecVoid {
     /// Returns the length of this vector.
     pub(crate) fn len(&self) -> usize {
@@ -181,12 +205,14 @@ impl VecVoid {
         &mut self,
         f: impl FnOnce(&mut Vec<T>) -> U,
     ) -> U {
-        let orig_elem = self.elem;
-        let mut v = std::mem::take(self).into_aligned_vec_unchecked::<T>();
-        let out = f(&mut v); // May allocate/deallocate
-                             // Returned default VecVoid value can be safely ignored
-        let _ = std::mem::replace(self, VecVoid::from_vec_override(v, orig_elem));
-        out
+        let elem = self.elem;
+        let v = std::mem::take(self).into_aligned_vec_unchecked::<T>();
+        let mut guard = RestoreGuard {
+            target: self,
+            vec: ManuallyDrop::new(v),
+            elem,
+        };
+        f(&mut guard.vec) // May allocate/deallocate
     }
 
     /// Apply a function to this vector as if it was a `Vec<T>` where `T` is
@@ -196,11 +222,14 @@ impl VecVoid {
         &mut self,
         f: impl FnOnce(&mut Vec<T>) -> U,
     ) -> U {
-        let mut v = std::mem::take(self).into_vec_unchecked::<T>();
-        let out = f(&mut v); // May allocate/deallocate
-                             // Returned default VecVoid can be safely ignored.
-        let _ = std::mem::replace(self, VecVoid::from_vec(v));
-        out
+        let elem = self.elem;
+        let v = std::mem::take(self).into_vec_unchecked::<T>();
+        let mut guard = RestoreGuard {
+            target: self,
+            vec: ManuallyDrop::new(v),
+            elem,
+        };
+        f(&mut guard.vec) // May allocate/deallocate
     }
 
     #[inline]
@@ -296,41 +325,28 @@ impl VecVoid {
         self.len += 1;
     }
 
-    /// Resize this `VecVoid` using a given per element initializer.
+    /// Push an element to this `VecVoid` using the given initializer.
+    ///
+    /// The length of this `VecVoid` is not changed if `init` panics.
+    ///
+    /// # Safety
+    ///
+    /// `init` must initialize all bytes of the element it is given.
     #[cfg(feature = "traits")]
     #[inline]
-    pub(crate) unsafe fn resize_with<I>(&mut self, len: usize, init: I)
+    pub(crate) unsafe fn push_with<I>(&mut self, init: I)
     where
         I: FnOnce(&mut [MaybeUninit<u8>]),
     {
-        fn resize_with<T: 'static + Default + Copy + std::fmt::Debug, Init>(
-            buf: &mut VecVoid,
-            len: usize,
-            init: Init,
-        ) where
-            Init: FnOnce(&mut [MaybeUninit<u8>]),
-        {
-            let size = buf.elem.size;
-            let num_bytes = buf.elem.num_bytes();
-            // SAFETY: Memory layout is ensured to be correct by eval_align.
-            unsafe {
-                buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    // SAFETY: T here is one of the T# so it's copy.
-                    let orig_len = v.len();
-                    v.resize_with(len * size, Default::default);
-                    let byte_slice = std::slice::from_raw_parts_mut(
-                        (&mut v[orig_len..]).as_mut_ptr() as *mut MaybeUninit<u8>,
-                        num_bytes,
-                    );
-                    init(byte_slice);
-                });
-            }
-        }
+        let num_bytes = self.elem.num_bytes();
 
         // Ensures that capacity grows by a whole number of elements.
-        self.reserve(len.saturating_sub(self.len));
+        self.reserve(1);
 
-        eval_align!(self.elem.alignment; resize_with::<_, I>(self, len, init));
+        // There is enough capacity for one more element.
+        let dst = (self.ptr as *mut MaybeUninit<u8>).add(self.len * num_bytes);
+        init(std::slice::from_raw_parts_mut(dst, num_bytes));
+        self.len += 1;
     }
 
     #[inline]
-- 
2.43.0


From e68db31b54529ad2b12eb287086763df5fb19ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 07/33] fix: shorten VecDyn before dropping elements so
 panicking drops are not repeated

---
 src/vec_dyn.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 1adde80..2fa743d 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -49,7 +49,7 @@
 use std::{
     any::{Any, TypeId},
     fmt,
-    mem::ManuallyDrop,
+    mem::{ManuallyDrop, MaybeUninit},
     slice,
 };
 
@@ -258,13 +258,25 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
     /// Clear the data buffer without destroying its type information.
     #[inline]
     pub fn clear(&mut self) {
-        // Drop all elements manually.
+        self.drop_tail(0);
+    }
+
+    /// Shorten this vector to `new_len` elements, dropping the rest.
+    ///
+    /// This function does nothing if `new_len` is not smaller than the current length.
+    fn drop_tail(&mut self, new_len: usize) {
+        let VecCopy { data, vtable, .. } = &mut *self.data;
+        let len = data.len();
+        let num_bytes = data.elem.num_bytes();
+        // The elements are dropped only after they become inaccessible, otherwise they could be
+        // dropped again if one of the calls below panics.
+        data.truncate(new_len);
+        // SAFETY: the trailing elements are still initialized and truncating doesn't reallocate.
         unsafe {
-            let VecCopy { data, vtable, .. } = &mut *self.data;
-            for elem_bytes in data.byte_chunks_mut() {
-                vtable.drop_fn()(elem_bytes);
+            for i in new_len..len {
+                let elem_ptr = (data.ptr as *mut MaybeUninit<u8>).add(i * num_bytes);
+                vtable.drop_fn()(slice::from_raw_parts_mut(elem_ptr, num_bytes));
             }
-            data.clear();
         }
     }
 
@@ -686,15 +698,7 @@ impl<V: ?Sized + HasDrop + HasClone> VecDyn<V> {
             }
         } else {
             // Drop trailing elements manually.
-            unsafe {
-                let VecCopy { data, vtable, .. } = &mut *self.data;
-                for elem_bytes in data.byte_chunks_mut().skip(new_len) {
-                    vtable.drop_fn()(elem_bytes);
-                }
-            }
-
-            // Truncate data
-            self.data.data.truncate(new_len);
+            self.drop_tail(new_len);
         }
         Some(self)
     }
-- 
2.43.0


From 609817b5b9afcf5f4ddf5b518844aeda2449ea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 08/33] fix: drop the contents of a value when its downcast
 fails

---
 src/value.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index b527308..c3cbae5 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -367,15 +367,15 @@ impl<V: ?Sized + HasDrop> Value<Box<[MaybeUninit<u8>]>, V> {
     /// Downcast this value reference into a boxed `T` type. Return `None` if the downcast fails.
     #[inline]
     pub fn downcast<T: 'static>(self) -> Option<Box<T>> {
+        if !self.is::<T>() {
+            // The value is dropped here together with its contents.
+            return None;
+        }
         // Override the Drop implementation, since we don't actually want to drop the contents
         // here, just the vtable.
         let mut s = ManuallyDrop::new(self);
-        let output = if s.is::<T>() {
-            // This is safe since we check that self.bytes represents a `T`.
-            Some(unsafe { Bytes::box_from_box_bytes(ManuallyDrop::take(&mut s.bytes)) })
-        } else {
-            None
-        };
+        // This is safe since we checked that self.bytes represents a `T`.
+        let output = Some(unsafe { Bytes::box_from_box_bytes(ManuallyDrop::take(&mut s.bytes)) });
         // We are done with self, dropping the remaining fields here to avoid memory leaks.
         // This is safe since `s` will not be used again.
         unsafe {
@@ -390,15 +390,15 @@ impl<V: ?Sized + HasDrop> Value<MaybeUninit<usize>, V> {
     /// Downcast this value reference into a boxed `T` type. Return `None` if the downcast fails.
     #[inline]
     pub fn downcast<T: 'static>(self) -> Option<T> {
+        if !self.is::<T>() {
+            // The value is dropped here together with its contents.
+            return None;
+        }
         // Override the Drop implementation, since we don't actually want to drop the contents
         // here, just the vtable.
         let mut s = ManuallyDrop::new(self);
-        // This is safe since we check that self.bytes represent a `T`.
-        let output = if s.is::<T>() {
-            unsafe { Bytes::try_from_usize(ManuallyDrop::take(&mut s.bytes)) }
-        } else {
-            None
-        };
+        // This is safe since we checked that self.bytes represent a `T`.
+        let output = unsafe { Bytes::try_from_usize(ManuallyDrop::take(&mut s.bytes)) };
         // We are done with self, dropping the remaining fields here to avoid memory leaks.
         // This is safe since `s` will not be used again.
         unsafe {
-- 
2.43.0


From 2ed6de86a311543dd59221d1d01060dd2d70fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:45 +0000
Subject: [PATCH 09/33] fix: drop values that do not fit into a SmallValue

---
 src/value.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index c3cbae5..67544b3 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -114,9 +114,10 @@ impl<V: HasDrop> SmallValue<V> {
     where
         V: VTable<T>,
     {
-        // Prevent drop of value when it goes out of scope.
-        let val = ManuallyDrop::new(value);
-        val.try_into_usize().map(|usized_value| Value {
+        let usized_value = value.try_into_usize()?;
+        // The value has been moved into `usized_value`, so it must not be dropped here.
+        std::mem::forget(value);
+        Some(Value {
             bytes: ManuallyDrop::new(usized_value),
             type_id: TypeId::of::<T>(),
             alignment: std::mem::align_of::<T>(),
-- 
2.43.0


From 07f520583a5bb0ceb0e26755c43adea9002ff148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:46 +0000
Subject: [PATCH 10/33] fix: drop the elements of VecDyn when into_vec is
 called with the wrong type

---
 src/vec_dyn.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 2fa743d..51ceb37 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -363,6 +363,8 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
     /// This function helps the compiler determine the type `T` automatically.
     #[inline]
     pub fn into_vec<T: Elem>(self) -> Option<Vec<T>> {
+        // On type mismatch this vector is dropped here along with its elements.
+        self.check_ref::<T>()?;
         // This is safe because self.data will not be used after this call, and the resulting
         // Vec<T> will drop all elements correctly.
         unsafe {
-- 
2.43.0


From 3df439f388119571c46d2a278a0f181cb1098583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 11/33] fix: check bounds in VecCopy::get_ref and get_mut in
 release builds

---
 src/vec_copy.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index 13b0615..0ce342c 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -567,7 +567,7 @@ impl<V: ?Sized> VecCopy<V> {
     /// Get a reference to a value stored in this container at index `i`.
     #[inline]
     pub fn get_ref(&self, i: usize) -> CopyValueRef<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         // This call is safe since our buffer guarantees that the given bytes have the
         // corresponding TypeId.
         let num_bytes = self.data.elem.num_bytes();
@@ -587,7 +587,7 @@ impl<V: ?Sized> VecCopy<V> {
     /// Get a mutable reference to a value stored in this container at index `i`.
     #[inline]
     pub fn get_mut(&mut self, i: usize) -> CopyValueMut<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         let num_bytes = self.data.elem.num_bytes();
         unsafe {
             CopyValueMut::from_raw_parts(
-- 
2.43.0


From cc96fee76fa09bcecccc4e8650c823a95c367878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 12/33] fix: reject indices and ranges whose byte offsets
 overflow

---
 src/index_slice.rs | 19 ++++++++++++++-----
 src/lib.rs         | 11 +++++++----
 src/slice_copy.rs  | 10 +++++++---
 src/vec_copy.rs    |  3 +--
 src/vec_void.rs    |  2 ++
 5 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/index_slice.rs b/src/index_slice.rs
index 2e7b881..fba37e2 100644
--- a/src/index_slice.rs
+++ b/src/index_slice.rs
@@ -3,15 +3,24 @@ use std::ops;
 /// A helper trait to scale a standard Rust range by a given scale.
 ///
 /// This allows us to use all of Rust's range types for indexing out `Slice`s.
+///
+/// # Panics
+///
+/// Scaling panics if a bound of the scaled range cannot be represented.
 pub trait ScaleRange {
     fn scale_range(self, scale: usize) -> Self;
 }
 
+#[inline]
+fn scale_index(index: usize, scale: usize) -> usize {
+    index.checked_mul(scale).expect("range out of bounds")
+}
+
 impl ScaleRange for ops::Range<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.start *= scale;
-        self.end *= scale;
+        self.start = scale_index(self.start, scale);
+        self.end = scale_index(self.end, scale);
         self
     }
 }
@@ -19,7 +28,7 @@ impl ScaleRange for ops::Range<usize> {
 impl ScaleRange for ops::RangeTo<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.end *= scale;
+        self.end = scale_index(self.end, scale);
         self
     }
 }
@@ -27,7 +36,7 @@ impl ScaleRange for ops::RangeTo<usize> {
 impl ScaleRange for ops::RangeFrom<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.start *= scale;
+        self.start = scale_index(self.start, scale);
         self
     }
 }
@@ -50,7 +59,7 @@ impl ScaleRange for ops::RangeInclusive<usize> {
 impl ScaleRange for ops::RangeToInclusive<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.end *= scale;
+        self.end = scale_index(self.end, scale);
         self
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 1c52faa..4821cec 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -195,7 +195,9 @@ pub(crate) trait ElementBytes {
     /// Get a range of byte indices representing the given element index.
     #[inline]
     fn index_byte_range(&self, i: usize) -> std::ops::Range<usize> {
-        i * self.element_size()..(i + 1) * self.element_size()
+        let size = self.element_size();
+        let start = i.checked_mul(size).expect("index out of bounds");
+        start..start.checked_add(size).expect("index out of bounds")
     }
 
     /// Index into an immutable slice of bytes.
@@ -226,19 +228,20 @@ pub(crate) trait ElementBytesMut: ElementBytes {
         if i == j {
             return;
         }
-        let element_size = self.element_size();
         let r_rng = self.index_byte_range(0);
         if i < j {
             let l_rng = self.index_byte_range(i);
+            let mid = self.index_byte_range(j).start;
             // SAFETY: it is safe to swap aligned data since we have unique access.
             unsafe {
-                let (l, r) = self.bytes_mut().split_at_mut(element_size * j);
+                let (l, r) = self.bytes_mut().split_at_mut(mid);
                 l[l_rng].swap_with_slice(&mut r[r_rng])
             }
         } else {
             let l_rng = self.index_byte_range(j);
+            let mid = self.index_byte_range(i).start;
             unsafe {
-                let (l, r) = self.bytes_mut().split_at_mut(element_size * i);
+                let (l, r) = self.bytes_mut().split_at_mut(mid);
                 l[l_rng].swap_with_slice(&mut r[r_rng])
             }
         }
diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index 7e0cc62..1c56686 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -279,11 +279,12 @@ impl<'a, V: ?Sized> SliceCopy<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(elem.num_bytes() * chunk_size)
+        data.chunks_exact(elem.num_bytes().saturating_mul(chunk_size))
             .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
     pub fn split_at(&self, mid: usize) -> (SliceCopy<V>, SliceCopy<V>) {
+        assert!(mid <= self.len());
         let &SliceCopy {
             data,
             elem,
@@ -624,6 +625,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
     /// ```
     #[inline]
     pub fn rotate_left(&mut self, mid: usize) {
+        assert!(mid <= self.len());
         self.data.rotate_left(mid * self.element_size());
     }
 
@@ -642,6 +644,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
     /// ```
     #[inline]
     pub fn rotate_right(&mut self, k: usize) {
+        assert!(k <= self.len());
         self.data.rotate_right(k * self.element_size());
     }
 
@@ -687,7 +690,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(elem.num_bytes() * chunk_size)
+        data.chunks_exact(elem.num_bytes().saturating_mul(chunk_size))
             .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -698,11 +701,12 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact_mut(elem.num_bytes() * chunk_size)
+        data.chunks_exact_mut(elem.num_bytes().saturating_mul(chunk_size))
             .map(move |data| unsafe { SliceCopyMut::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
     pub fn split_at(&mut self, mid: usize) -> (SliceCopyMut<V>, SliceCopyMut<V>) {
+        assert!(mid <= self.len());
         let &mut SliceCopyMut {
             ref mut data,
             elem,
diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index 0ce342c..f517316 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -870,8 +870,7 @@ impl VecVoid {
     #[inline]
     pub fn get_bytes(&self, i: usize) -> &[MaybeUninit<u8>] {
         debug_assert!(i < self.len());
-        let element_size = self.element_size();
-        &self.bytes()[i * element_size..(i + 1) * element_size]
+        self.index_byte_slice(i)
     }
 
     /// Get a mutable reference to the byte slice of the `i`'th element of the buffer.
diff --git a/src/vec_void.rs b/src/vec_void.rs
index 2a966d0..6db028d 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -361,6 +361,7 @@ impl VecVoid {
             }
         }
 
+        assert!(n <= self.len);
         eval_align!(limited_stack, self.elem.alignment; rotate_left::<_>(self, n));
     }
 
@@ -376,6 +377,7 @@ impl VecVoid {
             }
         }
 
+        assert!(n <= self.len);
         eval_align!(limited_stack, self.elem.alignment; rotate_right::<_>(self, n));
     }
 
-- 
2.43.0


From 2f3bff55b66d6327d1fdffa2255fad6f69caab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:07 +0000
Subject: [PATCH 13/33] fix: include all of the last element in inclusive
 ranges of untyped slices

---
 src/index_slice.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/index_slice.rs b/src/index_slice.rs
index fba37e2..2e1955d 100644
--- a/src/index_slice.rs
+++ b/src/index_slice.rs
@@ -49,17 +49,30 @@ impl ScaleRange for ops::RangeFull {
     }
 }
 
+/// Scale the inclusive end index of a range, such that it includes all of the scaled element.
+#[inline]
+fn scale_inclusive_end(end: usize, scale: usize) -> usize {
+    let len = end.checked_add(1).expect("range out of bounds");
+    // Wraps only if `scale` is zero, in which case the range is out of bounds.
+    scale_index(len, scale).wrapping_sub(1)
+}
+
 impl ScaleRange for ops::RangeInclusive<usize> {
     #[inline]
     fn scale_range(self, scale: usize) -> Self {
-        self.start() * scale..=self.end() * scale
+        if self.is_empty() && self.start() <= self.end() {
+            // This iterator has been exhausted, it represents an empty range at its end.
+            let end = scale_inclusive_end(*self.end(), scale);
+            return end + 1..=end;
+        }
+        scale_index(*self.start(), scale)..=scale_inclusive_end(*self.end(), scale)
     }
 }
 
 impl ScaleRange for ops::RangeToInclusive<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.end = scale_index(self.end, scale);
+        self.end = scale_inclusive_end(self.end, scale);
         self
     }
 }
-- 
2.43.0


From a0c84f3e8573d4ed31be5e40e35f02dea19001b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:09 +0000
Subject: [PATCH 14/33] fix: do not let untyped slices outlive the slice they
 are created from

---
 src/slice.rs      | 2 +-
 src/slice_copy.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index 8a2445b..e731f95 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -47,7 +47,7 @@ impl<'a, V: ?Sized + HasDrop + HasDebug> fmt::Debug for Slice<'a, V> {
 impl<'a, V: HasDrop> Slice<'a, V> {
     /// Construct a `Slice` from a given typed slice by reusing the provided memory.
     #[inline]
-    pub fn from_slice<T: Elem>(slice: &[T]) -> Self
+    pub fn from_slice<T: Elem>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index 1c56686..86f97f2 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -29,7 +29,7 @@ where
 impl<'a, V> SliceCopy<'a, V> {
     /// Construct a `SliceCopy` from a given typed slice by reusing the provided memory.
     #[inline]
-    pub fn from_slice<T: CopyElem>(slice: &[T]) -> Self
+    pub fn from_slice<T: CopyElem>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
@@ -39,7 +39,7 @@ impl<'a, V> SliceCopy<'a, V> {
 
     /// It is unsafe to call this for `T` that is not `Copy`.
     #[inline]
-    pub(crate) unsafe fn from_slice_non_copy<T: Any>(slice: &[T]) -> Self
+    pub(crate) unsafe fn from_slice_non_copy<T: Any>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
-- 
2.43.0


From df1bbdc41c0ed24a780e22f28fc9638f5d14a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:04 +0000
Subject: [PATCH 15/33] fix: make conversions of slices to and from dynamic
 vtables usable

---
 src/lib.rs   | 10 +++++-----
 src/slice.rs |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4821cec..a9b2b53 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -98,17 +98,17 @@ macro_rules! from_dyn {
 
         from_dyn::<$vtable>
     }};
-    (@slice $slice:ident < dyn $trait:path >) => {{
-        fn from_dyn<'a, V: ?Sized + HasDrop + std::any::Any>(slice: $crate::$slice<'a, V>) -> $crate::$slice<'a, $vtable> {
+    (@slice $slice:ident < dyn $trait:path as $vtable:path >) => {{
+        fn from_dyn<'a, V: $trait>(slice: $crate::$slice<'a, dyn $trait>) -> $crate::$slice<'a, V> {
             unsafe {
                 let (data, elem, vtable) = slice.into_raw_parts();
                 match vtable {
                     $crate::VTableRef::Ref(v) => {
-                        let updated_vtable: &$vtable = v.downcast_ref().unwrap();
+                        let updated_vtable: &V = v.downcast_ref().unwrap();
                         $slice::from_raw_parts(data, elem, updated_vtable)
                     }
                     $crate::VTableRef::Box(v) => {
-                        let updated_vtable: Box<$vtable> = v.downcast().unwrap();
+                        let updated_vtable: Box<V> = v.downcast().ok().unwrap();
                         $slice::from_raw_parts(data, elem, updated_vtable)
                     }
                     // $crate::VTableRef::Rc(v) => {
@@ -119,7 +119,7 @@ macro_rules! from_dyn {
             }
         }
 
-        from_dyn
+        from_dyn::<$vtable>
     }};
 }
 
diff --git a/src/slice.rs b/src/slice.rs
index e731f95..673f5eb 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -381,7 +381,7 @@ impl<'a, V: ?Sized + HasDrop> SliceMut<'a, V> {
     /// This function exists mainly to enable the `into_dyn` macro until `CoerceUnsized` is
     /// stabilized.
     #[inline]
-    pub fn into_raw_parts(self) -> (&'a [MaybeUninit<u8>], ElemInfo, VTableRef<'a, V>) {
+    pub fn into_raw_parts(self) -> (&'a mut [MaybeUninit<u8>], ElemInfo, VTableRef<'a, V>) {
         let SliceCopyMut { data, elem, vtable } = self.data;
         (data, elem, vtable)
     }
-- 
2.43.0


From 4940702dc974458c004c5c1ed6be8a5a567e4eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:42 +0000
Subject: [PATCH 16/33] fix: require Eq for untyped values and the built-in
 vtable that claim it

---
 src/traits.rs | 2 +-
 src/value.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 79db2c4..c535f37 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -190,7 +190,7 @@ impl<T: DropBytes + PartialEqBytes> VTable<T> for PartialEqVTable {
     }
 }
 
-impl<T: DropBytes + PartialEqBytes> VTable<T> for EqVTable {
+impl<T: DropBytes + PartialEqBytes + Eq> VTable<T> for EqVTable {
     fn build_vtable() -> Self {
         EqVTable(T::drop_bytes, T::eq_bytes)
     }
diff --git a/src/value.rs b/src/value.rs
index 67544b3..af5d9b9 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -349,7 +349,7 @@ impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasPartialEq> Partial
     }
 }
 
-impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasPartialEq> Eq for Value<B, V> {}
+impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasEq> Eq for Value<B, V> {}
 
 impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasHash> Hash for Value<B, V> {
     #[inline]
-- 
2.43.0


From e01df84f4b69d7481bd1f932d469f0ff676b4937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:44 +0000
Subject: [PATCH 17/33] fix: make SendVTable and SyncVTable stand for Send and
 Sync types

---
 src/traits.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index c535f37..fbad3cd 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -202,13 +202,13 @@ impl<T: DropBytes + HashBytes> VTable<T> for HashVTable {
     }
 }
 
-impl<T: DropBytes> VTable<T> for SendVTable {
+impl<T: DropBytes + Send> VTable<T> for SendVTable {
     fn build_vtable() -> Self {
         SendVTable(T::drop_bytes)
     }
 }
 
-impl<T: DropBytes> VTable<T> for SyncVTable {
+impl<T: DropBytes + Sync> VTable<T> for SyncVTable {
     fn build_vtable() -> Self {
         SyncVTable(T::drop_bytes)
     }
@@ -275,6 +275,12 @@ impl HasPartialEq for EqVTable {
 
 impl HasEq for EqVTable {}
 
+// SAFETY: `SendVTable` can only be built for types that are `Send`.
+unsafe impl HasSend for SendVTable {}
+
+// SAFETY: `SyncVTable` can only be built for types that are `Sync`.
+unsafe impl HasSync for SyncVTable {}
+
 impl HasDebug for DebugVTable {
     fn fmt_fn(&self) -> &FmtFn {
         &self.1
-- 
2.43.0


From 2de40196095dcdcebf5c4f8c73c00bca3620b419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 18/33] fix: send shared references to other threads only if
 the referenced values are Sync

---
 src/slice.rs |  3 ++-
 src/value.rs | 13 +++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index 673f5eb..fab3aad 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -329,7 +329,8 @@ where
     }
 }
 
-unsafe impl<'a, V: ?Sized + HasDrop + HasSend> Send for Slice<'a, V> {}
+// As with `&[T]`, a shared slice is `Send` only if its elements are `Sync`.
+unsafe impl<'a, V: ?Sized + HasDrop + HasSync> Send for Slice<'a, V> {}
 unsafe impl<'a, V: ?Sized + HasDrop + HasSync> Sync for Slice<'a, V> {}
 
 /*
diff --git a/src/value.rs b/src/value.rs
index af5d9b9..5c3e4f8 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -411,8 +411,8 @@ impl<V: ?Sized + HasDrop> Value<MaybeUninit<usize>, V> {
 }
 
 macro_rules! impl_value_ref_traits {
-    ($value_ref:ident : $($maybe_drop:ident)*) => {
-        unsafe impl<'a, V: ?Sized + HasSend $( + $maybe_drop)*> Send for $value_ref<'a, V> {}
+    ($value_ref:ident : $send_bound:ident $($maybe_drop:ident)*) => {
+        unsafe impl<'a, V: ?Sized + $send_bound $( + $maybe_drop)*> Send for $value_ref<'a, V> {}
         unsafe impl<'a, V: ?Sized + HasSync $( + $maybe_drop)*> Sync for $value_ref<'a, V> {}
 
         impl<'a, V: ?Sized + HasHash $( + $maybe_drop)*> Hash for $value_ref<'a, V> {
@@ -449,8 +449,9 @@ macro_rules! impl_value_ref_traits {
 }
 
 // Impl value ref traits for CopyValue types.
-impl_value_ref_traits!(CopyValueMut:);
-impl_value_ref_traits!(CopyValueRef:);
+// As with references, a shared value reference is `Send` only if the value is `Sync`.
+impl_value_ref_traits!(CopyValueMut: HasSend);
+impl_value_ref_traits!(CopyValueRef: HasSync);
 
 /// A generic value reference into a buffer.
 #[derive(Clone)]
@@ -464,7 +465,7 @@ where
     pub(crate) vtable: VTableRef<'a, V>,
 }
 
-impl_value_ref_traits!(ValueRef: HasDrop);
+impl_value_ref_traits!(ValueRef: HasSync HasDrop);
 
 impl<'a, V: HasDrop> ValueRef<'a, V> {
     /// Create a new `ValueRef` from a typed reference.
@@ -624,7 +625,7 @@ where
     pub(crate) vtable: VTableRef<'a, V>,
 }
 
-impl_value_ref_traits!(ValueMut: HasDrop);
+impl_value_ref_traits!(ValueMut: HasSend HasDrop);
 
 impl<'a, V: HasDrop> ValueMut<'a, V> {
     /// Create a new `ValueRef` from a typed reference.
-- 
2.43.0


From 4127ed12cdf727a31be27f68e74996f926c51131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:17 +0000
Subject: [PATCH 19/33] fix: extend VecCopy when copying from a larger slice as
 documented

---
 src/vec_copy.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index f517316..8ea9bfa 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -280,11 +280,14 @@ impl<V: ?Sized> VecCopy<V> {
     /// already stored in this `VecCopy`.
     #[inline]
     pub fn copy_from_slice<T: CopyElem>(&mut self, slice: &[T]) -> Option<&mut Self> {
-        let mut this_slice = self.as_mut_slice();
-        match this_slice.copy_from_slice(slice) {
-            Some(_) => Some(self),
-            None => None,
+        let len = self.check_ref::<T>()?.len();
+        let (slice, extra) = slice.split_at(slice.len().min(len));
+        self.as_mut_slice_as::<T>()?.copy_from_slice(slice);
+        self.data.reserve(extra.len());
+        for &value in extra {
+            self.push_as(value);
         }
+        Some(self)
     }
 
     /// Clear the data buffer without destroying its type information.
-- 
2.43.0


From 5a5e055754b5e47acc495e155a4eb71d0d03fd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 20/33] fix: do not read padding and pointer bytes of untyped
 elements as integers

---
 src/elem.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/elem.rs b/src/elem.rs
index 3430ea9..c00b0f8 100644
--- a/src/elem.rs
+++ b/src/elem.rs
@@ -4,19 +4,20 @@
 
 use std::{
     any::{Any, TypeId},
-    mem::{align_of, size_of},
+    mem::{align_of, size_of, MaybeUninit},
 };
 
 macro_rules! generate_aligned_types {
     ($($t:ident($n:expr),)*) => {
 	$(
+	    // The bytes may be padding or parts of pointers, so they must not be read as integers.
 	    #[derive(Copy, Clone, Debug)]
 	    #[repr(C, align($n))]
-	    pub(crate) struct $t([u8; $n]);
+	    pub(crate) struct $t([MaybeUninit<u8>; $n]);
 
         impl Default for $t {
             fn default() -> Self {
-                $t([0_u8; $n])
+                $t([MaybeUninit::new(0_u8); $n])
             }
         }
 	)*
-- 
2.43.0


From db341d1cebdeecbd7e7c27862cecb8e53f072a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:10 +0000
Subject: [PATCH 21/33] fix: inherit the supertraits of supertraits in
 dync_trait

---
 dync-derive/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dync-derive/src/lib.rs b/dync-derive/src/lib.rs
index dc373ad..7cb1c7b 100644
--- a/dync-derive/src/lib.rs
+++ b/dync-derive/src/lib.rs
@@ -428,6 +428,8 @@ pub fn dync_trait(
 
     fill_trait_map_from_item_trait(&item_trait, &mut trait_map);
 
+    flatten_inheritance(&item_trait, &mut trait_map);
+
     fill_drop_for_inheritance(&mut trait_map);
 
     //fill_inherited_impls(&mut impls, &config, &trait_inheritance);
-- 
2.43.0


From f50ae451e53fc435930cc8a82d7688dda8eb2a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:45 +0000
Subject: [PATCH 22/33] fix: only the type of plain data can be taken over by
 VecCopy::with_type_from

---
 src/meta.rs     | 13 +++++++++++++
 src/vec_copy.rs | 13 +++++++++++--
 src/vec_dyn.rs  |  2 +-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/meta.rs b/src/meta.rs
index e99eb06..a635bac 100644
--- a/src/meta.rs
+++ b/src/meta.rs
@@ -109,3 +109,16 @@ impl<'a, V> From<&'a VecCopy<V>> for Meta<VTableRef<'a, V>> {
         }
     }
 }
+
+/// Containers and values of plain data, which can tell a `VecCopy` what type to store.
+///
+/// # Safety
+///
+/// The metadata must describe a type that is `Copy`.
+pub unsafe trait CopyMeta<'a, V: 'a>: Into<Meta<VTableRef<'a, V>>> {}
+
+// SAFETY: All of these can only be made for types that are `Copy`.
+unsafe impl<'a, V> CopyMeta<'a, V> for CopyValueRef<'a, V> {}
+unsafe impl<'a, V> CopyMeta<'a, V> for SliceCopy<'a, V> {}
+unsafe impl<'a, V> CopyMeta<'a, V> for SliceCopyMut<'a, V> {}
+unsafe impl<'a, V> CopyMeta<'a, V> for &'a VecCopy<V> {}
diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index 8ea9bfa..f9687a6 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -183,12 +183,21 @@ impl<V> VecCopy<V> {
 impl<V: ?Sized> VecCopy<V> {
     /// Construct a `VecCopy` with the same type as the given buffer without copying its data.
     #[inline]
-    pub fn with_type_from<'a>(other: impl Into<crate::meta::Meta<VTableRef<'a, V>>>) -> Self
+    pub fn with_type_from<'a>(other: impl crate::meta::CopyMeta<'a, V>) -> Self
     where
         V: Clone + 'a,
     {
-        let mut other = other.into();
+        Self::with_meta(other.into())
+    }
 
+    /// Construct a `VecCopy` of the described type.
+    ///
+    /// This is used for `VecDyn` as well, so the type need not be `Copy`.
+    #[inline]
+    pub(crate) fn with_meta(mut other: crate::meta::Meta<VTableRef<V>>) -> Self
+    where
+        V: Clone,
+    {
         fn new<T: 'static>(elem: &mut ElemInfo) -> VecVoid {
             unsafe { VecVoid::from_vec_override(Vec::<T>::with_capacity(elem.size), *elem) }
         }
diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 51ceb37..b80e7cd 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -197,7 +197,7 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
         V: Clone + 'a,
     {
         VecDyn {
-            data: ManuallyDrop::new(VecCopy::with_type_from(other.into())),
+            data: ManuallyDrop::new(VecCopy::with_meta(other.into())),
         }
     }
 
-- 
2.43.0


From 49eaf0b0086e7785792f732bab3c65ea9c91ed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:47 +0000
Subject: [PATCH 23/33] fix: the parts of Meta cannot be exchanged

---
 src/meta.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/meta.rs b/src/meta.rs
index a635bac..918e8ac 100644
--- a/src/meta.rs
+++ b/src/meta.rs
@@ -16,8 +16,23 @@ use crate::traits::*;
 /// Note that here V would typically represent a pointer type.
 #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
 pub struct Meta<V> {
-    pub elem: ElemInfo,
-    pub vtable: V,
+    // These belong together: a table is only valid for elements of the type it was built for.
+    pub(crate) elem: ElemInfo,
+    pub(crate) vtable: V,
+}
+
+impl<V> Meta<V> {
+    /// Get the information about the element type.
+    #[inline]
+    pub fn elem(&self) -> ElemInfo {
+        self.elem
+    }
+
+    /// Get a reference to the virtual function table.
+    #[inline]
+    pub fn vtable(&self) -> &V {
+        &self.vtable
+    }
 }
 
 #[cfg(feature = "traits")]
-- 
2.43.0


From 9aa6d580c54ab81616b877a96e3ba60505be55f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:37 +0000
Subject: [PATCH 24/33] fix: plain slices and iterators over views cross
 threads only when certified

---
 src/copy_value.rs | 11 +++++++
 src/lib.rs        |  1 +
 src/slice.rs      | 31 ++++++++++++--------
 src/slice_copy.rs | 73 +++++++++++++++++++++++++++++++++++------------
 src/threads.rs    | 52 +++++++++++++++++++++++++++++++++
 src/vec_copy.rs   |  5 ++--
 src/vec_dyn.rs    |  5 ++--
 7 files changed, 144 insertions(+), 34 deletions(-)
 create mode 100644 src/threads.rs

diff --git a/src/copy_value.rs b/src/copy_value.rs
index 756001f..f42d3ab 100644
--- a/src/copy_value.rs
+++ b/src/copy_value.rs
@@ -138,6 +138,17 @@ where
     pub(crate) vtable: VTableRef<'a, V>,
 }
 
+#[cfg(not(feature = "traits"))]
+mod uncertified {
+    use super::*;
+    use crate::threads::*;
+
+    unsafe impl<'a, V: ?Sized + HasSync> Send for CopyValueRef<'a, V> {}
+    unsafe impl<'a, V: ?Sized + HasSync> Sync for CopyValueRef<'a, V> {}
+    unsafe impl<'a, V: ?Sized + HasSend> Send for CopyValueMut<'a, V> {}
+    unsafe impl<'a, V: ?Sized + HasSync> Sync for CopyValueMut<'a, V> {}
+}
+
 impl<'a, V> CopyValueRef<'a, V> {
     /// Create a new `CopyValueRef` from a typed reference.
     #[inline]
diff --git a/src/lib.rs b/src/lib.rs
index a9b2b53..cb935c4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -20,6 +20,7 @@ mod copy_value;
 mod vtable;
 
 mod meta;
+mod threads;
 
 #[cfg(feature = "traits")]
 pub mod traits;
diff --git a/src/slice.rs b/src/slice.rs
index fab3aad..7ad1c6c 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -8,6 +8,7 @@ use std::{
 use crate::elem::ElemInfo;
 use crate::index_slice::*;
 use crate::slice_copy::*;
+use crate::threads::Views;
 use crate::traits::*;
 use crate::value::*;
 use crate::vtable::*;
@@ -223,10 +224,12 @@ impl<'a, V: ?Sized + HasDrop> Slice<'a, V> {
         V: Clone,
     {
         let SliceCopy { data, elem, vtable } = self.data;
-        data.chunks_exact(elem.num_bytes())
-            .map(move |bytes| unsafe {
-                ValueRef::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.clone())
-            })
+        Views::new(
+            data.chunks_exact(elem.num_bytes())
+                .map(move |bytes| unsafe {
+                    ValueRef::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.clone())
+                }),
+        )
     }
 
     #[inline]
@@ -575,10 +578,12 @@ impl<'a, V: ?Sized + HasDrop> SliceMut<'a, V> {
             elem,
             ref vtable,
         } = self.data;
-        data.chunks_exact_mut(elem.num_bytes())
-            .map(move |bytes| unsafe {
-                ValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.as_ref())
-            })
+        Views::new(
+            data.chunks_exact_mut(elem.num_bytes())
+                .map(move |bytes| unsafe {
+                    ValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.as_ref())
+                }),
+        )
     }
 
     // TODO: Determine if we can instead implement IntoIterator or explain why not and silence the clippy warning.
@@ -588,10 +593,12 @@ impl<'a, V: ?Sized + HasDrop> SliceMut<'a, V> {
         V: Clone,
     {
         let SliceCopyMut { data, elem, vtable } = self.data;
-        data.chunks_exact_mut(elem.num_bytes())
-            .map(move |bytes| unsafe {
-                ValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.clone())
-            })
+        Views::new(
+            data.chunks_exact_mut(elem.num_bytes())
+                .map(move |bytes| unsafe {
+                    ValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.clone())
+                }),
+        )
     }
 
     #[inline]
diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index 86f97f2..b4f46d2 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -7,6 +7,7 @@ use std::{
 use crate::copy_value::*;
 use crate::elem::ElemInfo;
 use crate::index_slice::*;
+use crate::threads::*;
 use crate::vtable::*;
 use crate::CopyElem;
 use crate::{ElementBytes, ElementBytesMut};
@@ -26,6 +27,10 @@ where
     pub(crate) vtable: VTableRef<'a, V>,
 }
 
+// As with references, a shared slice is `Send` only if its elements are `Sync`.
+unsafe impl<'a, V: ?Sized + HasSync> Send for SliceCopy<'a, V> {}
+unsafe impl<'a, V: ?Sized + HasSync> Sync for SliceCopy<'a, V> {}
+
 impl<'a, V> SliceCopy<'a, V> {
     /// Construct a `SliceCopy` from a given typed slice by reusing the provided memory.
     #[inline]
@@ -266,10 +271,17 @@ impl<'a, V: ?Sized> SliceCopy<'a, V> {
         V: Clone,
     {
         let SliceCopy { data, elem, vtable } = self;
-        data.chunks_exact(elem.num_bytes())
-            .map(move |bytes| unsafe {
-                CopyValueRef::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.clone())
-            })
+        Views::new(
+            data.chunks_exact(elem.num_bytes())
+                .map(move |bytes| unsafe {
+                    CopyValueRef::from_raw_parts(
+                        bytes,
+                        elem.type_id,
+                        elem.alignment,
+                        vtable.clone(),
+                    )
+                }),
+        )
     }
 
     #[inline]
@@ -279,8 +291,10 @@ impl<'a, V: ?Sized> SliceCopy<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(elem.num_bytes().saturating_mul(chunk_size))
-            .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
+        Views::new(
+            data.chunks_exact(elem.num_bytes().saturating_mul(chunk_size))
+                .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) }),
+        )
     }
 
     pub fn split_at(&self, mid: usize) -> (SliceCopy<V>, SliceCopy<V>) {
@@ -390,6 +404,9 @@ where
     pub(crate) vtable: VTableRef<'a, V>,
 }
 
+unsafe impl<'a, V: ?Sized + HasSend> Send for SliceCopyMut<'a, V> {}
+unsafe impl<'a, V: ?Sized + HasSync> Sync for SliceCopyMut<'a, V> {}
+
 impl<'a, V> SliceCopyMut<'a, V> {
     /// Construct a `SliceCopyMut` from a given typed slice by reusing the provided memory.
     #[inline]
@@ -664,10 +681,17 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact_mut(elem.num_bytes())
-            .map(move |bytes| unsafe {
-                CopyValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.as_ref())
-            })
+        Views::new(
+            data.chunks_exact_mut(elem.num_bytes())
+                .map(move |bytes| unsafe {
+                    CopyValueMut::from_raw_parts(
+                        bytes,
+                        elem.type_id,
+                        elem.alignment,
+                        vtable.as_ref(),
+                    )
+                }),
+        )
     }
 
     // TODO: Determine if we can instead implement IntoIterator or explain why not and silence the clippy warning.
@@ -677,10 +701,17 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
         V: Clone,
     {
         let SliceCopyMut { data, elem, vtable } = self;
-        data.chunks_exact_mut(elem.num_bytes())
-            .map(move |bytes| unsafe {
-                CopyValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.clone())
-            })
+        Views::new(
+            data.chunks_exact_mut(elem.num_bytes())
+                .map(move |bytes| unsafe {
+                    CopyValueMut::from_raw_parts(
+                        bytes,
+                        elem.type_id,
+                        elem.alignment,
+                        vtable.clone(),
+                    )
+                }),
+        )
     }
 
     #[inline]
@@ -690,8 +721,10 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(elem.num_bytes().saturating_mul(chunk_size))
-            .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
+        Views::new(
+            data.chunks_exact(elem.num_bytes().saturating_mul(chunk_size))
+                .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) }),
+        )
     }
 
     #[inline]
@@ -701,8 +734,12 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact_mut(elem.num_bytes().saturating_mul(chunk_size))
-            .map(move |data| unsafe { SliceCopyMut::from_raw_parts(data, elem, vtable.as_ref()) })
+        Views::new(
+            data.chunks_exact_mut(elem.num_bytes().saturating_mul(chunk_size))
+                .map(move |data| unsafe {
+                    SliceCopyMut::from_raw_parts(data, elem, vtable.as_ref())
+                }),
+        )
     }
 
     pub fn split_at(&mut self, mid: usize) -> (SliceCopyMut<V>, SliceCopyMut<V>) {
diff --git a/src/threads.rs b/src/threads.rs
new file mode 100644
index 0000000..ca04a88
--- /dev/null
+++ b/src/threads.rs
@@ -0,0 +1,52 @@
+//! What decides whether untyped views may cross threads.
+
+use std::marker::PhantomData;
+
+#[cfg(feature = "traits")]
+pub use crate::traits::{HasSend, HasSync};
+
+// Without traits there is nothing to certify that the hidden type may cross threads.
+#[cfg(not(feature = "traits"))]
+pub unsafe trait HasSend {}
+#[cfg(not(feature = "traits"))]
+pub unsafe trait HasSync {}
+
+/// An iterator over untyped views, which may cross threads only if the views may.
+pub(crate) struct Views<I: Iterator> {
+    iter: I,
+    views: PhantomData<I::Item>,
+}
+
+impl<I: Iterator> Views<I> {
+    #[inline]
+    pub(crate) fn new(iter: I) -> Self {
+        Views {
+            iter,
+            views: PhantomData,
+        }
+    }
+}
+
+impl<I: Iterator> Iterator for Views<I> {
+    type Item = I::Item;
+
+    #[inline]
+    fn next(&mut self) -> Option<I::Item> {
+        self.iter.next()
+    }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
+
+    #[inline]
+    fn nth(&mut self, n: usize) -> Option<I::Item> {
+        self.iter.nth(n)
+    }
+
+    #[inline]
+    fn fold<B, F: FnMut(B, I::Item) -> B>(self, init: B, f: F) -> B {
+        self.iter.fold(init, f)
+    }
+}
diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index f9687a6..ec00e8d 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -32,6 +32,7 @@ use num_traits::{cast, NumCast, Zero};
 use crate::copy_value::*;
 use crate::elem::*;
 use crate::slice_copy::*;
+use crate::threads::Views;
 use crate::vec_void::*;
 use crate::vtable::*;
 use crate::{ElementBytes, ElementBytesMut};
@@ -667,9 +668,9 @@ impl<V: ?Sized> VecCopy<V> {
         let element_alignment = data.elem.alignment;
         let vtable = vtable.as_ref();
         unsafe {
-            data.byte_chunks_mut().map(move |bytes| {
+            Views::new(data.byte_chunks_mut().map(move |bytes| {
                 CopyValueMut::from_raw_parts(bytes, element_type_id, element_alignment, vtable)
-            })
+            }))
         }
     }
 
diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index b80e7cd..ee88ed8 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -62,6 +62,7 @@ use num_traits::{cast, NumCast, Zero};
 
 use crate::meta::*;
 use crate::slice::*;
+use crate::threads::Views;
 use crate::traits::*;
 use crate::value::*;
 use crate::vec_void::VecVoid;
@@ -561,9 +562,9 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
         let element_type_id = data.elem.type_id;
         let element_alignment = data.elem.alignment;
         unsafe {
-            data.byte_chunks_mut().map(move |bytes| {
+            Views::new(data.byte_chunks_mut().map(move |bytes| {
                 ValueMut::from_raw_parts(bytes, element_type_id, element_alignment, vtable)
-            })
+            }))
         }
     }
 
-- 
2.43.0


From b1452825fa6231773a35546bdd78943bcfb9ff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:19 +0000
Subject: [PATCH 25/33] fix: plain vectors may cross threads when certified

---
 src/vec_copy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index ec00e8d..92190d5 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -32,7 +32,7 @@ use num_traits::{cast, NumCast, Zero};
 use crate::copy_value::*;
 use crate::elem::*;
 use crate::slice_copy::*;
-use crate::threads::Views;
+use crate::threads::*;
 use crate::vec_void::*;
 use crate::vtable::*;
 use crate::{ElementBytes, ElementBytesMut};
@@ -63,6 +63,9 @@ where
     pub(crate) vtable: Ptr<V>,
 }
 
+unsafe impl<V: ?Sized + HasSend> Send for VecCopy<V> {}
+unsafe impl<V: ?Sized + HasSync> Sync for VecCopy<V> {}
+
 impl<V> VecCopy<V> {
     /// Construct an empty `VecCopy` with a specific type.
     #[inline]
-- 
2.43.0


From 5380a0f8c607fcf32e9e1df030d4ccd593e2e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:51 +0000
Subject: [PATCH 26/33] fix: metadata of plain data without a table can still
 make a VecCopy

---
 src/meta.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meta.rs b/src/meta.rs
index 918e8ac..fd82309 100644
--- a/src/meta.rs
+++ b/src/meta.rs
@@ -137,3 +137,5 @@ unsafe impl<'a, V> CopyMeta<'a, V> for CopyValueRef<'a, V> {}
 unsafe impl<'a, V> CopyMeta<'a, V> for SliceCopy<'a, V> {}
 unsafe impl<'a, V> CopyMeta<'a, V> for SliceCopyMut<'a, V> {}
 unsafe impl<'a, V> CopyMeta<'a, V> for &'a VecCopy<V> {}
+// SAFETY: Without a table there are only containers and values of plain data.
+unsafe impl<'a> CopyMeta<'a, ()> for Meta<VTableRef<'a, ()>> {}
-- 
2.43.0


From 9f1eebb26d0cffebba089ee4137f4bbdca00317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:14 +0000
Subject: [PATCH 27/33] fix: a table only certifies a marker trait that the
 type actually implements

dync_trait recognizes supertraits by name. With another trait called Send (or Sync, or Eq) in
scope, the generated table could be built for types that don't implement the actual one, and
containers using it could then be sent to another thread.
---
 dync-derive/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dync-derive/src/lib.rs b/dync-derive/src/lib.rs
index 7cb1c7b..baecf93 100644
--- a/dync-derive/src/lib.rs
+++ b/dync-derive/src/lib.rs
@@ -588,6 +588,18 @@ fn construct_dync_items(
         })
         .collect::<Punctuated<Expr, Token![,]>>();
 
+    // Traits without methods are recognized by their name alone, which could refer to another trait
+    // where this one is declared. So make sure that the actual traits are implemented.
+    let mut marker_bounds = TokenStream::new();
+    for super_trait_key in trait_data.super_traits.iter() {
+        match super_trait_key {
+            Trait::Eq => marker_bounds.append_all(quote! { + ::std::cmp::Eq }),
+            Trait::Send => marker_bounds.append_all(quote! { + ::std::marker::Send }),
+            Trait::Sync => marker_bounds.append_all(quote! { + ::std::marker::Sync }),
+            _ => {}
+        }
+    }
+
     let crate_name_ident = Ident::new(&crate_name, Span::call_site());
 
     let mut res = has_impls;
@@ -596,7 +608,7 @@ fn construct_dync_items(
     });
     res.push(vtable_def);
     res.push(parse_quote! {
-        impl<T: #trait_name + 'static> #crate_name_ident::VTable<T> for #vtable_name {
+        impl<T: #trait_name #marker_bounds + 'static> #crate_name_ident::VTable<T> for #vtable_name {
             #[inline]
             fn build_vtable() -> #vtable_name {
                 #vtable_name(#vtable_constructor)
-- 
2.43.0


From d15855a4c78d955adeed7130799126b8c54968e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:20 +0000
Subject: [PATCH 28/33] fix: refuse Self and type parameters in method
 signatures only where they are used unsupported

The checks for unsupported uses were inverted: dync_trait_method refused tuples,
arrays and function pointers that mention no Self, and left Self untranslated
inside of them (as well as behind references and in generic arguments).
---
 dync-derive/src/lib.rs | 109 +++++++++++++++++++++++++++++------------
 1 file changed, 79 insertions(+), 30 deletions(-)

diff --git a/dync-derive/src/lib.rs b/dync-derive/src/lib.rs
index baecf93..02297a4 100644
--- a/dync-derive/src/lib.rs
+++ b/dync-derive/src/lib.rs
@@ -1001,16 +1001,19 @@ fn process_generics(ty: Type, generics: &GenericsMap) -> Type {
 // Convert Self type into a the given type or pass through
 fn process_generic_type_path(ty: TypePath, generics: &GenericsMap, owned: bool) -> Type {
     if ty.path.leading_colon.is_some() || ty.path.segments.len() != 1 {
+        check_for_unsupported_generics_in_path(&ty.path, generics);
         return Type::Path(ty);
     }
 
     let seg = ty.path.segments.first().unwrap();
     if !seg.arguments.is_empty() {
+        check_for_unsupported_generics_in_path(&ty.path, generics);
         return Type::Path(ty);
     }
 
     // Generic types wouldn't have arguments.
     if let Some(bounds) = generics.get(&seg.ident) {
+        check_for_unsupported_generics_in_bounds(bounds, generics);
         if owned {
             syn::parse(quote! { Box<dyn #bounds> }.into()).unwrap()
         } else {
@@ -1025,7 +1028,10 @@ fn process_generic_type_path(ty: TypePath, generics: &GenericsMap, owned: bool)
 fn generic_ref_to_trait_object(ty: Type, generics: &GenericsMap) -> Type {
     match ty {
         Type::Path(path) => process_generic_type_path(path, generics, false),
-        other => other,
+        other => {
+            check_for_unsupported_generics(&other, generics);
+            other
+        }
     }
 }
 
@@ -1044,17 +1050,10 @@ fn check_for_unsupported_generics(ty: &Type, generics: &GenericsMap) {
         Type::Group(group) => check_for_unsupported_generics(&group.elem, generics),
         Type::Paren(paren) => check_for_unsupported_generics(&paren.elem, generics),
         Type::Path(path) => {
-            assert!(
-                path.qself.is_none(),
-                "qualified paths not supported by dync_trait"
-            );
-            if path.path.leading_colon.is_none() && path.path.segments.len() == 1 {
-                let seg = path.path.segments.first().unwrap();
-                assert!(
-                    seg.arguments.is_empty() && seg.ident == "Self",
-                    "using Self in this context is not supported by dync_trait"
-                );
+            if let Some(qself) = &path.qself {
+                check_for_unsupported_generics(&qself.ty, generics);
             }
+            check_for_unsupported_generics_in_path(&path.path, generics);
         }
         Type::Ptr(ptr) => check_for_unsupported_generics(&ptr.elem, generics),
         Type::Reference(reference) => check_for_unsupported_generics(&reference.elem, generics),
@@ -1064,10 +1063,56 @@ fn check_for_unsupported_generics(ty: &Type, generics: &GenericsMap) {
                 check_for_unsupported_generics(elem, generics);
             }
         }
+        Type::TraitObject(object) => {
+            check_for_unsupported_generics_in_bounds(&object.bounds, generics)
+        }
         _ => {}
     }
 }
 
+fn check_for_unsupported_generics_in_path(path: &Path, generics: &GenericsMap) {
+    assert!(
+        path.leading_colon.is_some() || !generics.contains_key(&path.segments[0].ident),
+        "using type parameters in this context is not supported by dync_trait"
+    );
+    for_each_type_argument(path, &|ty| check_for_unsupported_generics(ty, generics));
+}
+
+fn check_for_unsupported_generics_in_bounds(
+    bounds: &Punctuated<TypeParamBound, Token![+]>,
+    generics: &GenericsMap,
+) {
+    for bound in bounds.iter() {
+        if let TypeParamBound::Trait(bound) = bound {
+            check_for_unsupported_generics_in_path(&bound.path, generics);
+        }
+    }
+}
+
+// Call the given function on each type in the arguments of the given path.
+fn for_each_type_argument(path: &Path, f: &dyn Fn(&Type)) {
+    for seg in path.segments.iter() {
+        match &seg.arguments {
+            PathArguments::None => {}
+            PathArguments::AngleBracketed(args) => {
+                for arg in args.args.iter() {
+                    match arg {
+                        GenericArgument::Type(ty) => f(ty),
+                        GenericArgument::Binding(binding) => f(&binding.ty),
+                        _ => {}
+                    }
+                }
+            }
+            PathArguments::Parenthesized(args) => {
+                args.inputs.iter().for_each(|ty| f(ty));
+                if let ReturnType::Type(_, output_ty) = &args.output {
+                    f(output_ty);
+                }
+            }
+        }
+    }
+}
+
 fn type_to_bytes(ty: Type) -> Type {
     // It is quite difficult to convert occurances of Self in a function signature to the
     // corresponding byte representation because of composability of types. Each type containing
@@ -1135,13 +1180,11 @@ fn self_type_path_into(path: TypePath, into_ty: Type) -> Type {
         if seg.arguments.is_empty() // Self types wouldn't have arguments.
             && seg.ident == "Self"
         {
-            into_ty
-        } else {
-            Type::Path(path)
+            return into_ty;
         }
-    } else {
-        Type::Path(path)
     }
+    check_for_unsupported_self_in_path(&path.path);
+    Type::Path(path)
 }
 
 // Convert reference or pointer to self into a reference to bytes or pass through
@@ -1151,10 +1194,21 @@ fn self_to_byte_slice(ty: Type) -> Type {
             path,
             syn::parse(quote! { [std::mem::MaybeUninit<u8>] }.into()).unwrap(),
         ),
-        other => other,
+        other => {
+            check_for_unsupported_self(&other);
+            other
+        }
     }
 }
 
+fn check_for_unsupported_self_in_path(path: &Path) {
+    assert!(
+        !path.is_ident("Self"),
+        "using Self in this context is not supported by dync_trait"
+    );
+    for_each_type_argument(path, &check_for_unsupported_self);
+}
+
 // Check if there are instances of Self in the given type, and panic if there are.
 fn check_for_unsupported_self(ty: &Type) {
     match ty {
@@ -1169,19 +1223,7 @@ fn check_for_unsupported_self(ty: &Type) {
         }
         Type::Group(group) => check_for_unsupported_self(&group.elem),
         Type::Paren(paren) => check_for_unsupported_self(&paren.elem),
-        Type::Path(path) => {
-            assert!(
-                path.qself.is_none(),
-                "qualified paths not supported by dync_trait"
-            );
-            if path.path.leading_colon.is_none() && path.path.segments.len() == 1 {
-                let seg = path.path.segments.first().unwrap();
-                assert!(
-                    seg.arguments.is_empty() && seg.ident == "Self",
-                    "using Self in this context is not supported by dync_trait"
-                );
-            }
-        }
+        Type::Path(path) => check_for_unsupported_self_in_path(&path.path),
         Type::Ptr(ptr) => check_for_unsupported_self(&ptr.elem),
         Type::Reference(reference) => check_for_unsupported_self(&reference.elem),
         Type::Slice(slice) => check_for_unsupported_self(&slice.elem),
@@ -1190,6 +1232,13 @@ fn check_for_unsupported_self(ty: &Type) {
                 check_for_unsupported_self(elem);
             }
         }
+        Type::TraitObject(object) => {
+            for bound in object.bounds.iter() {
+                if let TypeParamBound::Trait(bound) = bound {
+                    check_for_unsupported_self_in_path(&bound.path);
+                }
+            }
+        }
         _ => {}
     }
 }
-- 
2.43.0


From c4744eba5d93e86763aa8f40727728f1accdb016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:06 +0000
Subject: [PATCH 29/33] fix: parenthesize trait objects with several bounds in
 byte method signatures

---
 dync-derive/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dync-derive/src/lib.rs b/dync-derive/src/lib.rs
index 02297a4..fd1004f 100644
--- a/dync-derive/src/lib.rs
+++ b/dync-derive/src/lib.rs
@@ -1016,6 +1016,9 @@ fn process_generic_type_path(ty: TypePath, generics: &GenericsMap, owned: bool)
         check_for_unsupported_generics_in_bounds(bounds, generics);
         if owned {
             syn::parse(quote! { Box<dyn #bounds> }.into()).unwrap()
+        } else if bounds.len() > 1 {
+            // `&dyn A + B` would be ambiguous.
+            syn::parse(quote! { (dyn #bounds) }.into()).unwrap()
         } else {
             syn::parse(quote! { dyn #bounds }.into()).unwrap()
         }
-- 
2.43.0


From e8f93dec6a8dcf866fbc0485bbc3384a3afdc90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:49 +0000
Subject: [PATCH 30/33] fix: accept raw identifiers as names of byte methods

---
 dync-derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dync-derive/src/lib.rs b/dync-derive/src/lib.rs
index fd1004f..13b6e50 100644
--- a/dync-derive/src/lib.rs
+++ b/dync-derive/src/lib.rs
@@ -844,8 +844,8 @@ fn dync_fn_sig(sig: Signature) -> Signature {
         "variadic functions not supported by dync_trait"
     );
 
-    let dync_name = format!("{}_bytes", sig.ident);
-    let dync_ident = Ident::new(&dync_name, sig.ident.span());
+    // Raw identifiers like `r#type` become `type_bytes`.
+    let dync_ident = quote::format_ident!("{}_bytes", sig.ident);
 
     let mut generics = GenericsMap::new();
 
-- 
2.43.0


From 59e8ec5ad099fe2b4f1ad7f0a0dd7882e16e6c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:35 +0000
Subject: [PATCH 31/33] fix: drop ?Sized when a type parameter of a byte method
 becomes a trait object

---
 dync-derive/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dync-derive/src/lib.rs b/dync-derive/src/lib.rs
index 13b6e50..c3b63bc 100644
--- a/dync-derive/src/lib.rs
+++ b/dync-derive/src/lib.rs
@@ -865,7 +865,19 @@ fn dync_fn_sig(sig: Signature) -> Signature {
                     ty.eq_token.is_none() && ty.default.is_none(),
                     "default type parameters are not supported by dync_trait"
                 );
-                generics.insert(ty.ident.clone(), ty.bounds.clone());
+                // Trait objects are unsized with or without `?Sized`, which they can't have as a bound.
+                let bounds = ty
+                    .bounds
+                    .iter()
+                    .filter(|bound| match bound {
+                        TypeParamBound::Trait(bound) => {
+                            !matches!(bound.modifier, TraitBoundModifier::Maybe(_))
+                        }
+                        _ => true,
+                    })
+                    .cloned()
+                    .collect();
+                generics.insert(ty.ident.clone(), bounds);
             }
             GenericParam::Lifetime(_) => {
                 panic!("lifetime parameters in trait functions are not supported by dync_trait");
-- 
2.43.0


From a0445fa196fce842edda1556f224580495dab5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:24 +0000
Subject: [PATCH 32/33] fix: SliceMut::into_raw_parts and
 SliceCopyMut::into_raw_parts are unsafe, since they hand out the bytes for
 writing

---
 src/slice.rs      | 7 ++++++-
 src/slice_copy.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index 7ad1c6c..2aebc67 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -384,8 +384,13 @@ impl<'a, V: ?Sized + HasDrop> SliceMut<'a, V> {
     ///
     /// This function exists mainly to enable the `into_dyn` macro until `CoerceUnsized` is
     /// stabilized.
+    ///
+    /// # Safety
+    ///
+    /// This function is marked as unsafe since the returned bytes may be modified
+    /// arbitrarily, which may potentially produce malformed values.
     #[inline]
-    pub fn into_raw_parts(self) -> (&'a mut [MaybeUninit<u8>], ElemInfo, VTableRef<'a, V>) {
+    pub unsafe fn into_raw_parts(self) -> (&'a mut [MaybeUninit<u8>], ElemInfo, VTableRef<'a, V>) {
         let SliceCopyMut { data, elem, vtable } = self.data;
         (data, elem, vtable)
     }
diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index b4f46d2..6c13127 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -441,8 +441,13 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
     ///
     /// This function exists mainly to enable the `into_dyn` macro until `CoerceUnsized` is
     /// stabilized.
+    ///
+    /// # Safety
+    ///
+    /// This function is marked as unsafe since the returned bytes may be modified
+    /// arbitrarily, which may potentially produce malformed values.
     #[inline]
-    pub fn into_raw_parts(self) -> (&'a mut [MaybeUninit<u8>], ElemInfo, VTableRef<'a, V>) {
+    pub unsafe fn into_raw_parts(self) -> (&'a mut [MaybeUninit<u8>], ElemInfo, VTableRef<'a, V>) {
         let SliceCopyMut { data, elem, vtable } = self;
         (data, elem, vtable)
     }
-- 
2.43.0


From 185ead4b572372d8a7d41c4b406901f03c3a5f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:24 +0000
Subject: [PATCH 33/33] fix: BoxValue::into_raw_parts and drop_as_aligned are
 unsafe, since the box must be released with its own alignment

---
 src/copy_value.rs | 11 ++++++++---
 src/value.rs      |  7 ++++++-
 src/vec_dyn.rs    |  8 +++++---
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/copy_value.rs b/src/copy_value.rs
index f42d3ab..d40b4f3 100644
--- a/src/copy_value.rs
+++ b/src/copy_value.rs
@@ -57,7 +57,12 @@ pub trait GetBytesMut: GetBytesRef {
 // Bytes cannot be dropped willy-nilly. Dropping triggers deallocators, and they must know
 // about the size and alignment of the original allocation.
 pub trait DropAsAligned {
-    fn drop_as_aligned(&mut self, alignment: usize);
+    /// Deallocate the bytes.
+    ///
+    /// # Safety
+    ///
+    /// The given alignment must be the one that the bytes were allocated with.
+    unsafe fn drop_as_aligned(&mut self, alignment: usize);
 }
 
 impl GetBytesRef for Box<[MaybeUninit<u8>]> {
@@ -75,7 +80,7 @@ impl GetBytesMut for Box<[MaybeUninit<u8>]> {
 
 impl DropAsAligned for Box<[MaybeUninit<u8>]> {
     #[inline]
-    fn drop_as_aligned(&mut self, alignment: usize) {
+    unsafe fn drop_as_aligned(&mut self, alignment: usize) {
         fn drop_bytes<T: 'static>(b: Box<[MaybeUninit<u8>]>) {
             // Box value is created from a Box<T> -> Box<[MaybeUninit<u8>].
             // Here T has the right alignment but often wrong size (e.g. if original T was an array).
@@ -108,7 +113,7 @@ impl GetBytesMut for MaybeUninit<usize> {
 
 impl DropAsAligned for MaybeUninit<usize> {
     #[inline]
-    fn drop_as_aligned(&mut self, _: usize) {
+    unsafe fn drop_as_aligned(&mut self, _: usize) {
         // Value lives on the stack, no fancy deallocation necessary.
     }
 }
diff --git a/src/value.rs b/src/value.rs
index 5c3e4f8..2fd49c8 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -261,8 +261,13 @@ impl<V: ?Sized + HasDrop> BoxValue<V> {
     /// Convert this value into its destructured parts.
     ///
     /// The caller must insure that the memory allocated by the returned bytes is freed.
+    ///
+    /// # Safety
+    ///
+    /// The returned box must not be dropped as it is, since its memory was allocated with the
+    /// returned alignment: it must be deallocated by `DropAsAligned::drop_as_aligned`.
     #[inline]
-    pub fn into_raw_parts(self) -> (Box<[MaybeUninit<u8>]>, TypeId, usize, Ptr<V>) {
+    pub unsafe fn into_raw_parts(self) -> (Box<[MaybeUninit<u8>]>, TypeId, usize, Ptr<V>) {
         // Inhibit drop for self.
         let mut md = ManuallyDrop::new(self);
 
diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index ee88ed8..193e767 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -449,10 +449,12 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
         if value.value_type_id() == self.element_type_id() {
             // Prevent the value from being dropped at the end of this scope since it will be later
             // dropped by this container. The remaining fields like vtable will be dropped here.
-            let (mut bytes, _, alignment, _) = value.into_raw_parts();
-            self.data.data.push(&*bytes);
             // The box must be deallocated with the alignment it was allocated with.
-            bytes.drop_as_aligned(alignment);
+            unsafe {
+                let (mut bytes, _, alignment, _) = value.into_raw_parts();
+                self.data.data.push(&*bytes);
+                bytes.drop_as_aligned(alignment);
+            }
             Some(self)
         } else {
             None
-- 
2.43.0

