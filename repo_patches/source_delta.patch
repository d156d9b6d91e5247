From 5b322fde5cfbe449f362f176234f20d1bbbd1930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:11 +0000
Subject: [PATCH 01/10] fix: fixed-size list view returns None when the index
 is out of range

---
 src/collection/flatten.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/collection/flatten.rs b/src/collection/flatten.rs
index 12903d5..949e3cc 100644
--- a/src/collection/flatten.rs
+++ b/src/collection/flatten.rs
@@ -154,11 +154,13 @@ impl<C: Collection, const N: usize> Collection for Flatten<C, N> {
     type Owned = [C::Owned; N];
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
-        Some(FlattenView(array::from_fn(|idx| {
-            self.0
-                .view(index.strict_mul(N).strict_add(idx))
-                .expect("out of bounds")
-        })))
+        (index < self.len()).then(|| {
+            FlattenView(array::from_fn(|idx| {
+                self.0
+                    .view(index.strict_mul(N).strict_add(idx))
+                    .expect("out of bounds")
+            }))
+        })
     }
 
     type Iter<'collection>
-- 
2.43.0


From 0d08ea43c79d96ddf1f3477af35800358517088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:11 +0000
Subject: [PATCH 02/10] fix: list views return None instead of overflowing for
 huge indices

---
 src/offset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/offset.rs b/src/offset.rs
index a549595..48c1a8a 100644
--- a/src/offset.rs
+++ b/src/offset.rs
@@ -443,7 +443,7 @@ impl<T: Collection, OffsetItem: Offset, Storage: Buffer, U: FromIterator<T::Owne
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
         let start = self.offsets.owned(index);
-        let end = self.offsets.owned(index.strict_add(1));
+        let end = self.offsets.owned(index.checked_add(1)?);
         start.zip(end).map(|(s, e)| OffsetView {
             collection: self,
             start: s.as_usize(),
@@ -700,7 +700,7 @@ impl<T: Collection, OffsetItem: Offset, Storage: Buffer, U> Collection
     type Owned = T::Owned;
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
-        let idx = self.start.strict_add(index);
+        let idx = self.start.checked_add(index)?;
         if idx < self.end {
             self.collection.data.view(idx)
         } else {
-- 
2.43.0


From bf3d69e2c7ca77e81f014b38b9b0afd193b2d84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 03/10] fix: bitmap construction stops at the first end of its
 source

---
 src/bitmap/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bitmap/mod.rs b/src/bitmap/mod.rs
index 0e51160..4549668 100644
--- a/src/bitmap/mod.rs
+++ b/src/bitmap/mod.rs
@@ -398,6 +398,7 @@ impl<T: Borrow<bool>, Storage: Buffer<For<u8>: CollectionAlloc>> FromIterator<T>
         let mut bits: usize = 0;
         let buffer = iter
             .into_iter()
+            .fuse()
             .inspect(|_| {
                 bits = bits.strict_add(1);
             })
@@ -457,6 +458,7 @@ impl<Storage: Buffer<For<u8>: CollectionAllocIn>> CollectionAllocIn for Bitmap<S
         let mut bits: usize = 0;
         let buffer = Storage::For::<u8>::from_iter_in(
             iter.into_iter()
+                .fuse()
                 .inspect(|_| bits = bits.strict_add(1))
                 .bit_packed(),
             alloc,
@@ -485,6 +487,7 @@ impl<Storage: Buffer<For<u8>: CollectionAllocIn>> CollectionAllocIn for Bitmap<S
         let mut bits: usize = 0;
         let buffer = Storage::For::<u8>::try_from_iter_in(
             iter.into_iter()
+                .fuse()
                 .inspect(|_| bits = bits.strict_add(1))
                 .bit_packed(),
             alloc,
-- 
2.43.0


From dd0eb382bcb5e06be7ca3871f92f17913a83a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 04/10] fix: preallocate from the lower size hint so loose
 upper bounds cannot fail

---
 src/offset.rs   |  8 ++++----
 src/validity.rs | 13 ++++++-------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/offset.rs b/src/offset.rs
index 48c1a8a..3da3c16 100644
--- a/src/offset.rs
+++ b/src/offset.rs
@@ -345,8 +345,8 @@ where
 
     fn from_iter_in<I: IntoIterator<Item = Self::Owned>>(iter: I, alloc: Self::Alloc) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut offsets = Self::with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc);
+        let (lower_bound, _) = items.size_hint();
+        let mut offsets = Self::with_capacity_in(lower_bound, alloc);
         offsets.extend(items);
         offsets
     }
@@ -368,8 +368,8 @@ where
         alloc: Self::Alloc,
     ) -> Result<Self, AllocError> {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut offsets = Self::try_with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc)?;
+        let (lower_bound, _) = items.size_hint();
+        let mut offsets = Self::try_with_capacity_in(lower_bound, alloc)?;
         offsets.try_extend(items)?;
         Ok(offsets)
     }
diff --git a/src/validity.rs b/src/validity.rs
index 57d00f1..6e6d98f 100644
--- a/src/validity.rs
+++ b/src/validity.rs
@@ -374,8 +374,8 @@ impl<
 {
     fn from_iter<I: IntoIterator<Item = Option<U>>>(iter: I) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut bitmap = Bitmap::with_capacity(upper_bound.unwrap_or(lower_bound));
+        let (lower_bound, _) = items.size_hint();
+        let mut bitmap = Bitmap::with_capacity(lower_bound);
         let collection = items
             .inspect(|opt| bitmap.extend(iter::once(opt.is_some())))
             .map(Option::unwrap_or_default)
@@ -454,9 +454,8 @@ impl<
 
     fn from_iter_in<I: IntoIterator<Item = Self::Owned>>(iter: I, alloc: Self::Alloc) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut bitmap =
-            Bitmap::<Storage>::with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc.clone());
+        let (lower_bound, _) = items.size_hint();
+        let mut bitmap = Bitmap::<Storage>::with_capacity_in(lower_bound, alloc.clone());
         let collection = T::from_iter_in(
             items
                 .inspect(|item| bitmap.extend(iter::once(item.is_some())))
@@ -483,8 +482,8 @@ impl<
         alloc: Self::Alloc,
     ) -> Result<Self, AllocError> {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut validity = Self::try_with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc)?;
+        let (lower_bound, _) = items.size_hint();
+        let mut validity = Self::try_with_capacity_in(lower_bound, alloc)?;
         validity.try_extend(items)?;
         Ok(validity)
     }
-- 
2.43.0


From b53828f100705588aab0dd16caa08e0a196a3963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 05/10] fix: discard the partial row left by a panicking
 fixed-size list extension

---
 src/collection/flatten.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/collection/flatten.rs b/src/collection/flatten.rs
index 949e3cc..270cf04 100644
--- a/src/collection/flatten.rs
+++ b/src/collection/flatten.rs
@@ -133,9 +133,23 @@ impl<C: Collection, const N: usize> Length for Flatten<C, N> {
     }
 }
 
+/// Discards the partial row left in the child by an extension that panics.
+struct RowGuard<'collection, C: CollectionRealloc, const N: usize>(&'collection mut C);
+
+impl<C: CollectionRealloc, const N: usize> Drop for RowGuard<'_, C, N> {
+    fn drop(&mut self) {
+        let len = self.0.len();
+        if let Some(partial) = len.checked_rem(N) {
+            self.0.truncate(len.strict_sub(partial));
+        }
+    }
+}
+
 impl<C: CollectionRealloc, const N: usize> Extend<[C::Owned; N]> for Flatten<C, N> {
     fn extend<I: IntoIterator<Item = [C::Owned; N]>>(&mut self, iter: I) {
-        self.0.extend(iter.into_iter().flatten());
+        RowGuard::<C, N>(&mut self.0)
+            .0
+            .extend(iter.into_iter().flatten());
     }
 }
 
@@ -222,7 +236,9 @@ impl<C: CollectionRealloc, const N: usize> CollectionRealloc for Flatten<C, N> {
         &mut self,
         iter: I,
     ) -> Result<(), AllocError> {
-        self.0.try_extend(iter.into_iter().flatten())
+        RowGuard::<C, N>(&mut self.0)
+            .0
+            .try_extend(iter.into_iter().flatten())
     }
 
     fn reserve(&mut self, additional: usize) {
-- 
2.43.0


From 79c672c2a6bf156ccdf4113e12c2d74b9e7049fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 06/10] fix: discard items without validity left by a panicking
 nullable extension

---
 src/validity.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/validity.rs b/src/validity.rs
index 6e6d98f..af93b52 100644
--- a/src/validity.rs
+++ b/src/validity.rs
@@ -391,6 +391,19 @@ impl<
 /// [`Extend::extend`] for [`Validity`].
 const VALIDITY_CHUNK: usize = 1024;
 
+/// Discards the items without committed validity left by an extension that
+/// panics.
+struct CommitGuard<'validity, T: CollectionRealloc, Storage: Buffer>(
+    &'validity mut Validity<T, Storage>,
+);
+
+impl<T: CollectionRealloc, Storage: Buffer> Drop for CommitGuard<'_, T, Storage> {
+    fn drop(&mut self) {
+        let committed = self.0.len();
+        self.0.collection.truncate(committed);
+    }
+}
+
 impl<
     U: Default,
     T: CollectionRealloc<Owned = U>,
@@ -411,11 +424,12 @@ impl<
         // packing fast path. The bitmap is extended after the items of a
         // chunk are committed to the collection, so a panicking iterator can
         // not add validity for items that never arrive.
+        let guard = CommitGuard(self);
         let mut items = iter.into_iter();
         loop {
             let mut validity = [false; VALIDITY_CHUNK];
             let mut count: usize = 0;
-            self.collection.extend(
+            guard.0.collection.extend(
                 items
                     .by_ref()
                     .take(VALIDITY_CHUNK)
@@ -425,7 +439,9 @@ impl<
                     })
                     .map(Option::unwrap_or_default),
             );
-            self.bitmap
+            guard
+                .0
+                .bitmap
                 .as_mut()
                 .expect("validity bitmap is materialized")
                 .extend(validity.iter().take(count));
@@ -515,6 +531,7 @@ impl<
         self.try_materialize_bitmap()?;
         self.collection.truncate(len);
 
+        let guard = CommitGuard(self);
         let mut items = iter.into_iter();
         loop {
             let mut validity = [false; VALIDITY_CHUNK];
@@ -527,17 +544,18 @@ impl<
                     count = count.strict_add(1);
                 })
                 .map(Option::unwrap_or_default);
-            if let Err(error) = self.collection.try_extend(values) {
-                self.truncate(len);
+            if let Err(error) = guard.0.collection.try_extend(values) {
+                guard.0.truncate(len);
                 return Err(error);
             }
-            if let Err(error) = self
+            if let Err(error) = guard
+                .0
                 .bitmap
                 .as_mut()
                 .expect("validity bitmap is materialized")
                 .try_extend(validity.into_iter().take(count))
             {
-                self.truncate(len);
+                guard.0.truncate(len);
                 return Err(error);
             }
             if count < VALIDITY_CHUNK {
-- 
2.43.0


From 8d3d357db5501c2a6a2c19b4723a9893d4fb64e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 07/10] fix: exported child arrays keep the storage alive after
 being moved out

---
 narrow-ffi/src/export/fixed_size_list.rs    | 16 +++++---
 narrow-ffi/src/export/mod.rs                | 42 ++++++++-------------
 narrow-ffi/src/export/variable_size_list.rs | 16 +++++---
 3 files changed, 36 insertions(+), 38 deletions(-)

diff --git a/narrow-ffi/src/export/fixed_size_list.rs b/narrow-ffi/src/export/fixed_size_list.rs
index 843244a..5485577 100644
--- a/narrow-ffi/src/export/fixed_size_list.rs
+++ b/narrow-ffi/src/export/fixed_size_list.rs
@@ -2,8 +2,8 @@
 
 extern crate alloc;
 
-use alloc::{boxed::Box, ffi::CString, format};
-use core::{borrow::Borrow, ffi::c_void, ptr};
+use alloc::{boxed::Box, ffi::CString, format, sync::Arc};
+use core::{any::Any, borrow::Borrow, ffi::c_void, ptr};
 
 use narrow::{
     bitmap::ValidityBitmap,
@@ -34,8 +34,8 @@ where
         [ptr::null()]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().child_array(owner)?])
     }
 }
 
@@ -71,8 +71,12 @@ where
         [validity.unwrap_or(ptr::null())]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self
+            .buffer_ref()
+            .child_ref()
+            .child_ref()
+            .child_array(owner)?])
     }
 }
 
diff --git a/narrow-ffi/src/export/mod.rs b/narrow-ffi/src/export/mod.rs
index 22e14f2..31fcd8f 100644
--- a/narrow-ffi/src/export/mod.rs
+++ b/narrow-ffi/src/export/mod.rs
@@ -2,8 +2,9 @@
 
 extern crate alloc;
 
-use alloc::{boxed::Box, vec::Vec};
+use alloc::{boxed::Box, sync::Arc, vec::Vec};
 use core::{
+    any::Any,
     ffi::{CStr, c_void},
     fmt, ptr,
 };
@@ -150,7 +151,7 @@ trait ArrowArrayLayout: Length + Sized {
     fn buffers(&self) -> Self::Buffers;
 
     /// Returns the array's child pointers.
-    fn children(&self) -> Result<Self::Children, ExportError> {
+    fn children(&self, _owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
         Ok(Self::Children::default())
     }
 
@@ -159,8 +160,9 @@ trait ArrowArrayLayout: Length + Sized {
         ptr::null_mut()
     }
 
-    /// Builds a child [`ArrowArray`] borrowing storage retained by its parent.
-    fn child_array(&self) -> Result<ArrowArray, ExportError>
+    /// Builds an [`ArrowArray`] for this layout sharing ownership of the
+    /// storage, because consumers may move children out of a released parent.
+    fn child_array(&self, owner: &Arc<dyn Any>) -> Result<ArrowArray, ExportError>
     where
         Self: 'static,
     {
@@ -172,10 +174,10 @@ trait ArrowArrayLayout: Length + Sized {
         let length = i64::try_from(self.len()).expect("array length exceeds i64");
         let null_count = self.null_count();
         let dictionary = self.dictionary();
-        let mut private = Box::new(ArrayData::<(), Self>::new(
-            (),
+        let mut private = Box::new(ArrayData::<Arc<dyn Any>, Self>::new(
+            Arc::clone(owner),
             self.buffers(),
-            self.children()?,
+            self.children(owner)?,
         ));
         private.set_child_pointers();
 
@@ -192,23 +194,11 @@ trait ArrowArrayLayout: Length + Sized {
             return Err(ExportError::NonZeroOffset { offset });
         }
 
-        // Pin the layout before asking it for pointers into its storage.
-        let mut private = Box::new(ArrayData::<Self, Self> {
-            buffers: Self::Buffers::default(),
-            children: Self::Children::default(),
-            child_pointers: Vec::new(),
-            owner: self,
-        });
-        private.buffers = private.owner.buffers();
-        private.children = private.owner.children()?;
-        private.set_child_pointers();
-
-        // Convert platform-sized layout metadata into the Arrow C ABI fields.
-        let length = i64::try_from(private.owner.len()).expect("array length exceeds i64");
-        let null_count = private.owner.null_count();
-        let dictionary = private.owner.dictionary();
-        let array = private.into_array(length, null_count, dictionary);
-
+        // Pin the layout before asking it for pointers into its storage and
+        // share it between the array and its children.
+        let layout = Arc::new(self);
+        let owner: Arc<dyn Any> = Arc::<Self>::clone(&layout);
+        let array = layout.child_array(&owner)?;
         Ok((array, Self::schema()))
     }
 }
@@ -222,7 +212,7 @@ struct ArrayData<Owner, Layout: ArrowArrayLayout> {
     /// Arrow C Data child pointers.
     child_pointers: Vec<*mut ArrowArray>,
     /// Owner retained until the array is released.
-    owner: Owner,
+    _owner: Owner,
 }
 
 impl<Owner: 'static, Layout: ArrowArrayLayout + 'static> ArrayData<Owner, Layout> {
@@ -232,7 +222,7 @@ impl<Owner: 'static, Layout: ArrowArrayLayout + 'static> ArrayData<Owner, Layout
             buffers,
             children,
             child_pointers: Vec::new(),
-            owner,
+            _owner: owner,
         }
     }
 
diff --git a/narrow-ffi/src/export/variable_size_list.rs b/narrow-ffi/src/export/variable_size_list.rs
index 5689dab..a365e40 100644
--- a/narrow-ffi/src/export/variable_size_list.rs
+++ b/narrow-ffi/src/export/variable_size_list.rs
@@ -2,8 +2,8 @@
 
 extern crate alloc;
 
-use alloc::boxed::Box;
-use core::{borrow::Borrow, ffi::c_void, ptr};
+use alloc::{boxed::Box, sync::Arc};
+use core::{any::Any, borrow::Borrow, ffi::c_void, ptr};
 
 use narrow::{
     bitmap::ValidityBitmap,
@@ -37,8 +37,8 @@ where
         [ptr::null(), offsets.as_ptr().cast()]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().child_array(owner)?])
     }
 }
 
@@ -80,8 +80,12 @@ where
         ]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self
+            .buffer_ref()
+            .child_ref()
+            .child_ref()
+            .child_array(owner)?])
     }
 }
 
-- 
2.43.0


From 8e422c19798a475ec655283f617d136765fc24d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 08/10] fix: appending rows reserves no more nested capacity
 than their elements need

---
 src/offset.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/offset.rs b/src/offset.rs
index 3da3c16..32e9d57 100644
--- a/src/offset.rs
+++ b/src/offset.rs
@@ -398,7 +398,6 @@ where
 
         iter.into_iter().for_each(|collection| {
             let next_position = position.strict_add(collection.len().try_into().expect("overflow"));
-            self.data.reserve(collection.len());
             self.data.extend(collection.into_iter_owned());
             self.offsets.extend(iter::once(next_position));
             position = next_position;
-- 
2.43.0


From 8bcb7b1c067bb2175c1dad70b4716e754989c7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 09/10] fix: fallible boxed slice construction reports refused
 memory when shrinking

---
 src/collection/box.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/collection/box.rs b/src/collection/box.rs
index 1965fea..08d4c83 100644
--- a/src/collection/box.rs
+++ b/src/collection/box.rs
@@ -52,6 +52,14 @@ impl<T: for<'any> AsView<'any>> CollectionAllocIn for Box<[T]> {
         iter: I,
         (): Self::Alloc,
     ) -> Result<Self, AllocError> {
-        <Vec<T> as CollectionAllocIn>::try_from_iter_in(iter, ()).map(Vec::into_boxed_slice)
+        let mut items = <Vec<T> as CollectionAllocIn>::try_from_iter_in(iter, ())?;
+        if items.len() < items.capacity() {
+            // Converting into a boxed slice shrinks to fit, which aborts when
+            // memory is refused.
+            let mut exact = <Vec<T> as CollectionAllocIn>::try_with_capacity_in(items.len(), ())?;
+            exact.append(&mut items);
+            items = exact;
+        }
+        Ok(items.into_boxed_slice())
     }
 }
-- 
2.43.0


From 098e480485ba26a1cedf156f577737d30b64d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 10/10] verif: guarded hooks to export and import layouts that
 no array item selects

---
 narrow-ffi/src/export/mod.rs   |  2 ++
 narrow-ffi/src/export/verif.rs | 12 ++++++++++++
 narrow-ffi/src/import/mod.rs   |  2 ++
 narrow-ffi/src/import/verif.rs | 14 ++++++++++++++
 narrow-ffi/src/lib.rs          |  6 +++++-
 5 files changed, 35 insertions(+), 1 deletion(-)
 create mode 100644 narrow-ffi/src/export/verif.rs
 create mode 100644 narrow-ffi/src/import/verif.rs

diff --git a/narrow-ffi/src/export/mod.rs b/narrow-ffi/src/export/mod.rs
index 31fcd8f..36ea260 100644
--- a/narrow-ffi/src/export/mod.rs
+++ b/narrow-ffi/src/export/mod.rs
@@ -21,6 +21,8 @@ mod fixed_size_list;
 mod fixed_size_primitive;
 /// Export support for [`narrow::layout::variable_size_list::VariableSizeList`].
 mod variable_size_list;
+#[cfg(narrow_verif)]
+pub mod verif;
 
 /// A type with an [Arrow C Data format string].
 ///
diff --git a/narrow-ffi/src/export/verif.rs b/narrow-ffi/src/export/verif.rs
new file mode 100644
index 0000000..dbed757
--- /dev/null
+++ b/narrow-ffi/src/export/verif.rs
@@ -0,0 +1,12 @@
+//! Verification hook, compiled only with `--cfg narrow_verif`.
+#![allow(private_bounds, missing_docs, clippy::missing_errors_doc)]
+
+use super::{ArrowArrayLayout, ExportError};
+use crate::{ArrowArray, ArrowSchema};
+
+/// Exports a memory layout that no array item type selects.
+pub fn export_layout<Layout: ArrowArrayLayout + 'static>(
+    layout: Layout,
+) -> Result<(ArrowArray, ArrowSchema), ExportError> {
+    layout.export()
+}
diff --git a/narrow-ffi/src/import/mod.rs b/narrow-ffi/src/import/mod.rs
index 8ffbb56..ca190f7 100644
--- a/narrow-ffi/src/import/mod.rs
+++ b/narrow-ffi/src/import/mod.rs
@@ -458,3 +458,5 @@ mod fixed_size_list;
 mod fixed_size_primitive;
 /// Borrowed import support for variable-size-list arrays.
 mod variable_size_list;
+#[cfg(narrow_verif)]
+pub mod verif;
diff --git a/narrow-ffi/src/import/verif.rs b/narrow-ffi/src/import/verif.rs
new file mode 100644
index 0000000..b8da35e
--- /dev/null
+++ b/narrow-ffi/src/import/verif.rs
@@ -0,0 +1,14 @@
+//! Verification hook, compiled only with `--cfg narrow_verif`.
+#![allow(private_bounds, missing_docs, clippy::missing_errors_doc, clippy::missing_safety_doc)]
+
+use super::{ImportError, ImportLayout};
+use crate::{ArrowArray, ArrowSchema};
+
+/// Imports a memory layout that no array item type selects.
+pub unsafe fn import_layout<'array, Layout: ImportLayout<'array>>(
+    array: &'array ArrowArray,
+    schema: &ArrowSchema,
+) -> Result<Layout, ImportError> {
+    // SAFETY: The caller upholds the requirements of `Import::import`.
+    unsafe { Layout::import_layout(array, schema) }
+}
diff --git a/narrow-ffi/src/lib.rs b/narrow-ffi/src/lib.rs
index a7be5de..e7efa96 100644
--- a/narrow-ffi/src/lib.rs
+++ b/narrow-ffi/src/lib.rs
@@ -58,7 +58,8 @@
     clippy::into_iter_without_iter,
     clippy::iter_not_returning_iterator,
     clippy::module_name_repetitions,
-    clippy::pub_use
+    clippy::pub_use,
+    unexpected_cfgs // narrow_verif: verification hooks
 )]
 
 use core::{
@@ -73,6 +74,9 @@ pub use export::{ArrowType, Export, ExportError};
 mod import;
 pub use import::{Import, ImportError};
 
+#[cfg(narrow_verif)]
+pub use {export::verif::export_layout, import::verif::import_layout};
+
 /// An Arrow list offset with a C Data format string.
 trait ArrowListOffset: Offset {
     /// Arrow C Data format for a list using this offset width.
-- 
2.43.0

