From 7d5d699a751a79a73da460a5b400a6a7f3edff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 01/29] fix: order reference count release and takeover before
 free or mutation

---
 src/bytes_1/shared_bytes.rs | 6 ++++--
 src/external.rs             | 6 ++++--
 src/shared_bytes.rs         | 8 +++++---
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index 2b186a7..9050860 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -48,14 +48,16 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
     is_unique: |data| unsafe {
         let p = data.load(Ordering::Relaxed);
         let meta = &*(p as *const crate::SharedBytesMeta);
-        meta.refcnt.load(Ordering::Relaxed) == 1
+        meta.refcnt.load(Ordering::Acquire) == 1
     },
     drop: |data, _ptr, _len| unsafe {
         let p = data.load(Ordering::Relaxed) as *mut u8;
         let meta = &*(p as *const crate::SharedBytesMeta);
-        if meta.refcnt.fetch_sub(1, Ordering::Relaxed) != 1 {
+        if meta.refcnt.fetch_sub(1, Ordering::Release) != 1 {
             return;
         }
+        // every use of the data by other owners must happen before it is freed
+        core::sync::atomic::fence(Ordering::Acquire);
         let layout =
             alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
         alloc::alloc::dealloc(p, layout);
diff --git a/src/external.rs b/src/external.rs
index ed01151..6fe1516 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -361,7 +361,7 @@ impl ExtBytes {
         // SAFETY: `ExtBytesRef.data` is a valid pointer to `ExtBytesWrapper`.
         let ee = unsafe { &*dd.data };
         if ee.kind != core::any::TypeId::of::<T>()
-            || ee.ref_count.load(core::sync::atomic::Ordering::Relaxed) != 1
+            || ee.ref_count.load(core::sync::atomic::Ordering::Acquire) != 1
         {
             return Err(self);
         }
@@ -400,8 +400,10 @@ impl Drop for ExtBytes {
         let header = unsafe { &*ext_ref.data };
         let ref_count = header
             .ref_count
-            .fetch_sub(1, core::sync::atomic::Ordering::Relaxed);
+            .fetch_sub(1, core::sync::atomic::Ordering::Release);
         if ref_count == 1 {
+            // every use of the data by other owners must happen before it is dropped
+            core::sync::atomic::fence(core::sync::atomic::Ordering::Acquire);
             if let Some(drop) = header.drop {
                 let mut offset = core::mem::size_of::<ExtBytesWrapper>();
                 let align_mod = offset % header.align as usize;
diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index d2b9553..ee05935 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -195,7 +195,7 @@ impl SharedBytes {
         let meta = dat.cast::<SharedBytesMeta>();
         // SAFETY: `meta` is a valid pointer.
         let meta = unsafe { &*meta };
-        meta.refcnt.load(core::sync::atomic::Ordering::Relaxed) == 1
+        meta.refcnt.load(core::sync::atomic::Ordering::Acquire) == 1
     }
 
     /// Returns the bytes as a slice.
@@ -435,7 +435,9 @@ impl Drop for SharedBytes {
             // SAFETY: `dat` should point to a `SharedBytesMeta`.
             let meta = unsafe { &*dat.cast::<SharedBytesMeta>() };
             let refcnt = &meta.refcnt;
-            if refcnt.fetch_sub(1, core::sync::atomic::Ordering::Relaxed) == 1 {
+            if refcnt.fetch_sub(1, core::sync::atomic::Ordering::Release) == 1 {
+                // every use of the data by other owners must happen before it is freed
+                core::sync::atomic::fence(core::sync::atomic::Ordering::Acquire);
                 #[allow(clippy::unwrap_used)]
                 let layout =
                     core::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
@@ -541,7 +543,7 @@ impl From<SharedBytes> for SharedBytesBuilder {
         #[allow(clippy::cast_ptr_alignment)]
         let meta = unsafe { &*dat_dat.cast::<SharedBytesMeta>() };
         let align = meta.align();
-        if meta.refcnt.load(core::sync::atomic::Ordering::Relaxed) == 1 {
+        if meta.refcnt.load(core::sync::atomic::Ordering::Acquire) == 1 {
             let len = meta.len;
             let dat_len = dat.len;
             let dataptr = dat_dat.cast_mut();
-- 
2.43.0


From 439c0e190a55a6eb3c465ee3795ae3802a36dbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 02/29] fix: do not form an exclusive reference to shared
 metadata in clone

---
 src/shared_bytes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index ee05935..fc8ab7f 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -413,9 +413,9 @@ impl Clone for SharedBytes {
             return Self::EMPTY;
         }
         #[allow(clippy::cast_ptr_alignment)]
-        let dat = dat.cast::<SharedBytesMeta>().cast_mut();
+        let dat = dat.cast::<SharedBytesMeta>();
         // SAFETY: `dat` is a valid pointer.
-        unsafe { &mut *dat }
+        unsafe { &*dat }
             .refcnt
             .fetch_add(1, core::sync::atomic::Ordering::Relaxed);
         Self {
-- 
2.43.0


From 7c3ca2142da6d654ee1bc573be8e473327a0a0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 03/29] fix: reject slice bounds of SharedBytes whose sum wraps
 around

---
 src/shared_bytes.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index fc8ab7f..05a9247 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -255,7 +255,7 @@ impl SharedBytes {
             "SharedBytes::sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::sliced: offset + len out of bounds"
         );
         if len == 0 {
@@ -314,7 +314,7 @@ impl SharedBytes {
             "SharedBytes::into_sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::into_sliced: offset + len out of bounds"
         );
         self.len = len as u32;
@@ -335,7 +335,7 @@ impl SharedBytes {
             "SharedBytes::make_sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::make_sliced: offset + len out of bounds"
         );
         self.len = len as u32;
@@ -362,6 +362,7 @@ impl SharedBytes {
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
+        assert!(end >= start, "SharedBytes::into_sliced_range: end < start");
         self.into_sliced(start, end - start)
     }
 
@@ -383,6 +384,7 @@ impl SharedBytes {
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
+        assert!(end >= start, "SharedBytes::make_sliced_range: end < start");
         self.make_sliced(start, end - start)
     }
 
-- 
2.43.0


From 9c40eb1c84dc885fb0ed64f0d2511f91f1a54315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 04/29] fix: use the requested alignment in
 with_aligned_capacity

---
 src/shared_bytes_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index f6f01bb..2264595 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -107,7 +107,7 @@ impl SharedBytesBuilder {
             return Self::with_alignment(alignment);
         }
         assert!(alignment <= 512, "SharedBytesBuilder::with_aligned_capacity: alignment must be less than or equal to 512");
-        let align = Self::cap_check(cap, core::mem::align_of::<SharedBytesMeta>());
+        let align = Self::cap_check(cap, alignment);
         let align2 = alignment.next_power_of_two();
         assert!(
             align2 == alignment,
-- 
2.43.0


From 75abd2d23523c40c9eabd26d55c5ca5ba2b9bc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 05/29] fix: count bytes filled by apply_borrowed_buf as
 written, not as capacity

---
 src/shared_bytes_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 2264595..e33ca86 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -627,7 +627,7 @@ impl SharedBytesBuilder {
         let ret = fun(&mut bb);
         #[allow(clippy::cast_possible_truncation)]
         let len = bb.len() as u32;
-        self.len += len;
+        self.off += len;
         ret
     }
 }
-- 
2.43.0


From 8d7ede7ede84a50bee2bec7630f4344c2e55fc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 06/29] fix: do not truncate the length given to
 SharedBytesBuilder::truncate to 32 bits

---
 src/shared_bytes_builder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index e33ca86..00eb337 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -285,11 +285,12 @@ impl SharedBytesBuilder {
         if self.len == 0 {
             return;
         }
-        #[allow(clippy::cast_possible_truncation)]
-        let data_off = SharedBytesMeta::compute_start_offset(self.align).saturating_add(len as u32);
-        if self.off > data_off {
-            self.off = data_off;
+        if len >= self.len() {
+            return;
         }
+        #[allow(clippy::cast_possible_truncation)]
+        let data_off = SharedBytesMeta::compute_start_offset(self.align) + len as u32;
+        self.off = data_off;
     }
 
     /// Freezes the builder and returns a [`SharedBytes`] representing the data.
-- 
2.43.0


From 78dad64b673f39eb1fa22bb6cc27111efa1389bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 07/29] fix: release the reference consumed by Bytes to_vec and
 to_mut

---
 src/bytes_1/shared_bytes.rs | 38 +++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index 9050860..2f51ea0 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -23,25 +23,23 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
         }
         .into_bytes()
     },
-    to_vec: |_data, ptr, len| {
-        if len == 0 {
-            return Vec::new();
-        }
+    to_vec: |data, ptr, len| {
         let mut vec = Vec::with_capacity(len);
         unsafe {
             core::ptr::copy_nonoverlapping(ptr, vec.as_mut_ptr(), len);
             vec.set_len(len);
+            // the handle is consumed without its `drop` being called
+            release(data.load(Ordering::Relaxed) as *mut u8);
         }
         vec
     },
-    to_mut: |_data, ptr, len| {
-        if len == 0 {
-            return bytes::BytesMut::new();
-        }
+    to_mut: |data, ptr, len| {
         let mut vec = bytes::BytesMut::with_capacity(len);
         unsafe {
             core::ptr::copy_nonoverlapping(ptr, vec.as_mut_ptr(), len);
             vec.set_len(len);
+            // the handle is consumed without its `drop` being called
+            release(data.load(Ordering::Relaxed) as *mut u8);
         }
         vec
     },
@@ -51,19 +49,23 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
         meta.refcnt.load(Ordering::Acquire) == 1
     },
     drop: |data, _ptr, _len| unsafe {
-        let p = data.load(Ordering::Relaxed) as *mut u8;
-        let meta = &*(p as *const crate::SharedBytesMeta);
-        if meta.refcnt.fetch_sub(1, Ordering::Release) != 1 {
-            return;
-        }
-        // every use of the data by other owners must happen before it is freed
-        core::sync::atomic::fence(Ordering::Acquire);
-        let layout =
-            alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
-        alloc::alloc::dealloc(p, layout);
+        release(data.load(Ordering::Relaxed) as *mut u8);
     },
 };
 
+#[cfg(not(feature = "bytes_1_safe"))]
+/// Releases one reference to the shared data, which is freed with the last one.
+unsafe fn release(p: *mut u8) {
+    let meta = &*(p as *const crate::SharedBytesMeta);
+    if meta.refcnt.fetch_sub(1, Ordering::Release) != 1 {
+        return;
+    }
+    // every use of the data by other owners must happen before it is freed
+    core::sync::atomic::fence(Ordering::Acquire);
+    let layout = alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
+    alloc::alloc::dealloc(p, layout);
+}
+
 #[cfg(feature = "bytes_1_safe")]
 #[cfg_attr(docsrs, doc(cfg(feature = "bytes_1")))]
 impl From<SharedBytes> for bytes::Bytes {
-- 
2.43.0


From 18cbeb1d89491ee338c816c8488795fe95588fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 08/29] fix: range bounds at usize::MAX no longer wrap to a
 different range

---
 src/byte_chunk.rs       | 12 ++++++------
 src/external.rs         |  8 ++++----
 src/queue/byte_queue.rs |  2 +-
 src/shared_bytes.rs     | 12 ++++++------
 src/stringdata.rs       |  4 ++--
 5 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/byte_chunk.rs b/src/byte_chunk.rs
index cabffe3..db6fc9a 100644
--- a/src/byte_chunk.rs
+++ b/src/byte_chunk.rs
@@ -129,11 +129,11 @@ impl ByteChunk {
     ) -> Self {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
@@ -151,11 +151,11 @@ impl ByteChunk {
     ) -> Self {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
@@ -171,11 +171,11 @@ impl ByteChunk {
     ) {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
diff --git a/src/external.rs b/src/external.rs
index 6fe1516..8b1767b 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -242,11 +242,11 @@ impl ExtBytes {
         let len = dd.len();
         let start = match range.start_bound() {
             core::ops::Bound::Included(&st) => st,
-            core::ops::Bound::Excluded(&st) => st + 1,
+            core::ops::Bound::Excluded(&st) => st.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => len,
         };
@@ -275,11 +275,11 @@ impl ExtBytes {
         let len = dd.len();
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => len,
         };
diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 8fbdb8d..0877515 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -180,7 +180,7 @@ impl<'a> ByteQueue<'a> {
         };
         let start = match range.start_bound() {
             core::ops::Bound::Included(vv) => *vv,
-            core::ops::Bound::Excluded(vv) => *vv + 1,
+            core::ops::Bound::Excluded(vv) => vv.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         assert!(
diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index 05a9247..682c224 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -288,11 +288,11 @@ impl SharedBytes {
     pub fn sliced_range<R: RangeBounds<usize>>(&self, range: R) -> Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
@@ -354,11 +354,11 @@ impl SharedBytes {
     pub fn into_sliced_range<R: RangeBounds<usize>>(self, range: R) -> Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
@@ -376,11 +376,11 @@ impl SharedBytes {
     pub fn make_sliced_range<R: RangeBounds<usize>>(&mut self, range: R) -> &mut Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
diff --git a/src/stringdata.rs b/src/stringdata.rs
index d434ee9..d5e7867 100644
--- a/src/stringdata.rs
+++ b/src/stringdata.rs
@@ -284,11 +284,11 @@ impl<'a> StringData<'a> {
         let by = self.data.as_slice();
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len(),
         };
-- 
2.43.0


From a69e8884c17c6d74365a07f99ebdff749c7511b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 09/29] fix: read continuation bytes at the right offset in
 const_utf8_char_next

---
 src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ce74d1c..40bf5ef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -534,10 +534,9 @@ pub const fn const_split_once_str<'a>(
 #[inline]
 #[must_use]
 pub const fn const_utf8_char_next(data: &[u8]) -> (u32, u32) {
-    let Some((first, data)) = data.split_first() else {
+    let Some(&first) = data.first() else {
         return (0, 0);
     };
-    let first = *first;
     let mut value;
     let len = if first & 0b1000_0000 == 0 {
         return (first as u32, 1);
-- 
2.43.0


From c95b793030b0f7076a229ab2dea952b9f407aed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 10/29] fix: do not index past the end for an empty range at
 the end in const_slice_str

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 40bf5ef..8d88d12 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -380,7 +380,7 @@ pub const fn const_slice_str(data: &'_ str, range: core::ops::Range<usize>) -> S
     if start > end || end > data.len() {
         return StrSliceResult::OutOfBounds;
     }
-    if start != 0 && data[start] & 0b1100_0000 == 0b1000_0000 {
+    if start != data.len() && data[start] & 0b1100_0000 == 0b1000_0000 {
         return StrSliceResult::InvalidUtf8;
     }
     if end != data.len() && data[end] & 0b1100_0000 == 0b1000_0000 {
-- 
2.43.0


From e79ecec259f763002b39a19caebfce88941faf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 11/29] fix: require Send for external values, as their owner
 may be dropped on any thread

---
 src/external.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external.rs b/src/external.rs
index 8b1767b..6f18ad2 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -38,7 +38,7 @@ impl IntoExternalBytes for alloc::string::String {
 }
 
 /// A trait for types that can be used as external byte data.
-pub trait ExternalBytes: core::any::Any + Sync + Sized + 'static {
+pub trait ExternalBytes: core::any::Any + Send + Sync + Sized + 'static {
     /// The operations that can be performed on this type.
     const OPS: ExternalOps<Self>;
 }
-- 
2.43.0


From 00210c3a2e2d6af4e330b385c5265e7602c1f469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 12/29] fix: an external ByteData narrowed to nothing is empty

---
 src/bytedata.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index cf853eb..6133a58 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -491,7 +491,17 @@ impl<'a> ByteData<'a> {
             }
             .is_empty(),
             #[cfg(feature = "alloc")]
-            Kind::External => false,
+            // SAFETY: External state has been checked.
+            Kind::External => {
+                unsafe {
+                    core::mem::transmute::<
+                        &core::mem::ManuallyDrop<crate::external::ExtBytes>,
+                        &crate::external::ExtBytes,
+                    >(&self.external)
+                }
+                .len()
+                    == 0
+            }
         }
     }
 
-- 
2.43.0


From 944caf6b2e85cec29cb0cda29c1bf87fee60c374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:11 +0000
Subject: [PATCH 13/29] fix: skip the separator in ByteData::split_on instead
 of matching it forever

---
 src/bytedata.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index 6133a58..e7ac70f 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -862,7 +862,7 @@ impl<'a> ByteData<'a> {
     where
         'a: 'b,
     {
-        struct It<'a, 'b>(ByteData<'a>, &'b [u8], bool);
+        struct It<'a, 'b>(ByteData<'a>, &'b [u8]);
         impl<'a> Iterator for It<'a, '_> {
             type Item = ByteData<'a>;
 
@@ -870,6 +870,9 @@ impl<'a> ByteData<'a> {
                 if self.0.is_empty() {
                     return None;
                 }
+                if self.1.is_empty() {
+                    return Some(core::mem::replace(&mut self.0, ByteData::empty()));
+                }
                 let aa = if let Some((aa, _)) =
                     crate::const_split_once_bytes(self.0.as_slice(), self.1)
                 {
@@ -877,13 +880,10 @@ impl<'a> ByteData<'a> {
                 } else {
                     return Some(core::mem::replace(&mut self.0, ByteData::empty()));
                 };
-                if aa == 0 && self.2 {
-                    self.2 = false;
-                    return Some(ByteData::empty());
-                }
-                self.2 = false;
-                let aa = self.0.take_bytes(aa);
-                Some(aa)
+                let ret = self.0.take_bytes(aa);
+                // skip the separator, otherwise the same match would be found again
+                self.0.take_bytes(self.1.len());
+                Some(ret)
             }
 
             fn size_hint(&self) -> (usize, Option<usize>) {
@@ -898,7 +898,7 @@ impl<'a> ByteData<'a> {
                 }
             }
         }
-        It(self, needle, true)
+        It(self, needle)
     }
 }
 
-- 
2.43.0


From 6491d669de773a2e433924f753728c19c558a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 14/29] fix: include the line break in take_line so that it
 makes progress

---
 src/stringdata.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stringdata.rs b/src/stringdata.rs
index d5e7867..131177b 100644
--- a/src/stringdata.rs
+++ b/src/stringdata.rs
@@ -367,6 +367,7 @@ impl<'a> StringData<'a> {
         let Some(position) = self.as_str().find('\n') else {
             return core::mem::replace(self, Self::empty());
         };
+        let position = position + 1;
         let av = self.sliced(0..position);
         self.make_sliced(position..);
         av
-- 
2.43.0


From f34c94877a998aa45b6c8e45da5b5975cd9d0fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:42 +0000
Subject: [PATCH 15/29] fix: find sequences in a queue at their right position
 and past failed candidates

---
 src/queue/byte_queue.rs | 75 ++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 50 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 0877515..8449d92 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -299,7 +299,7 @@ impl<'a> ByteQueue<'a> {
         start_byte: usize,
     ) -> Option<(usize, usize, usize)> {
         if data.is_empty() {
-            return Some((0, 0, 0));
+            return Some((start_byte, start_chunk, start_offset));
         }
         self.find_slice_pos_nonempty(data, start_chunk, start_offset, start_byte)
     }
@@ -318,64 +318,39 @@ impl<'a> ByteQueue<'a> {
 
         'outer: loop {
             let mut chunks = self.chunks().skip(start_chunk);
-            let mut sect = chunks.next()?;
-            let len = sect.len();
-            if start_offset >= len {
-                start_offset -= len;
+            let sect = chunks.next()?.as_slice();
+            if start_offset >= sect.len() {
+                start_offset -= sect.len();
                 start_chunk += 1;
                 continue;
             }
-            let marked_byte = loop {
-                let sl = &sect.as_slice()[start_offset..];
-                let Some(av) = sl.iter().position(|x| *x == first_byte) else {
-                    sect = match chunks.next() {
-                        Some(vv) => vv,
-                        _ => return None,
-                    };
-                    start_offset = 0;
-                    start_chunk += 1;
-                    continue;
-                };
-                start_offset += av;
-                start_byte += av;
-                break start_byte;
+            let sl = &sect[start_offset..];
+            let Some(av) = sl.iter().position(|x| *x == first_byte) else {
+                // no candidate in the rest of this chunk
+                start_byte += sl.len();
+                start_offset = 0;
+                start_chunk += 1;
+                continue;
             };
-            let marked_chunk = start_chunk;
-            let marked_offset = start_offset;
-            let mut found_in = false;
-            let mut skipped_bytes = 0;
-            let data = data.iter().skip(1);
-            let mut sl = sect.as_slice()[(start_offset + 1)..].iter();
+            start_offset += av;
+            start_byte += av;
+            let mut hay = sl[av..].iter();
             for av in data {
                 let bv = loop {
-                    let nxt = sl.next();
-                    let Some(bv) = nxt else {
-                        sect = match chunks.next() {
-                            Some(vv) => vv,
-                            _ => return None,
-                        };
-                        sl = sect.as_slice().iter();
-                        continue;
-                    };
-                    break *bv;
+                    if let Some(bv) = hay.next() {
+                        break *bv;
+                    }
+                    // the sequence continues in the next chunk
+                    hay = chunks.next()?.as_slice().iter();
                 };
-                if !found_in && bv == first_byte {
-                    found_in = true;
-                    start_byte += skipped_bytes;
-                    start_offset += skipped_bytes;
-                    start_offset -= 1;
-                }
-                if bv == *av {
-                    skipped_bytes += 1;
-                    continue;
-                }
-                if !found_in {
-                    start_byte += skipped_bytes;
-                    start_offset += skipped_bytes;
+                if bv != *av {
+                    // continue after the first byte of the failed candidate
+                    start_byte += 1;
+                    start_offset += 1;
+                    continue 'outer;
                 }
-                continue 'outer;
             }
-            return Some((marked_byte, marked_chunk, marked_offset));
+            return Some((start_byte, start_chunk, start_offset));
         }
     }
 
-- 
2.43.0


From 5bcad9dc6d0ee7f41bbd8575c1890f6ab9c9ef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 16/29] fix: split a queue at the separators, not at mixed up
 positions

---
 src/queue/split.rs | 31 ++++++-------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/src/queue/split.rs b/src/queue/split.rs
index 4eedbdf..261ddff 100644
--- a/src/queue/split.rs
+++ b/src/queue/split.rs
@@ -37,31 +37,12 @@ impl<'a> Iterator for SplitOn<'a, '_> {
                 this.start_offset,
                 this.start_byte,
             );
-            if let Some((chunk, offset, byte)) = val {
-                let mut chunks = this.queue.chunks().skip(this.start_chunk);
-                let new_q = if this.start_chunk == chunk {
-                    #[allow(clippy::unwrap_used)]
-                    let chunk_next = chunks.next().unwrap();
-                    super::ByteQueue::with_item(chunk_next.sliced(this.start_offset..offset))
-                } else {
-                    let mut new_q = super::ByteQueue::new();
-                    #[allow(clippy::unwrap_used)]
-                    let chunk_next = chunks.next().unwrap();
-                    new_q.push_back(chunk_next.sliced(this.start_offset..));
-                    for chunkdata in chunks.take(chunk - this.start_chunk - 1) {
-                        new_q.push_back(chunkdata.clone());
-                    }
-                    if offset != 0 {
-                        chunks = this.queue.chunks().skip(chunk);
-                        #[allow(clippy::unwrap_used)]
-                        let chunk_nexter = chunks.next().unwrap();
-                        new_q.push_back(chunk_nexter.sliced(..offset));
-                    }
-                    new_q
-                };
+            if let Some((byte, chunk, offset)) = val {
+                let new_q = this.queue.slice(this.start_byte..byte);
                 this.start_chunk = chunk;
-                this.start_offset = offset;
-                this.start_byte = byte;
+                // continue after the separator
+                this.start_offset = offset + this.needle.len();
+                this.start_byte = byte + this.needle.len();
                 if this.max != 0 {
                     this.max -= 1;
                 }
@@ -79,7 +60,7 @@ impl<'a> Iterator for SplitOn<'a, '_> {
             self.done = true;
             return Some(super::ByteQueue::new());
         }
-        if self.max == 1 {
+        if self.max == 1 || self.needle.is_empty() {
             self.done = true;
             return Some(self.queue.slice(self.start_byte..));
         }
-- 
2.43.0


From fb591aab69909855ac4c7194d60eed2e5a7c76b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 17/29] fix: count the bytes added when a ByteQueue is extended
 with strings

---
 src/queue/byte_queue.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 8449d92..c36c19b 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -674,7 +674,7 @@ impl<'a> Extend<crate::StringData<'a>> for ByteQueue<'a> {
     #[inline]
     fn extend<T: IntoIterator<Item = crate::StringData<'a>>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(i.into_bytedata());
+            self.push_back(i);
         }
     }
 }
@@ -683,7 +683,7 @@ impl<'a> Extend<&'a str> for ByteQueue<'a> {
     #[inline]
     fn extend<T: IntoIterator<Item = &'a str>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(ByteData::from_borrowed(i.as_bytes()));
+            self.push_back(ByteData::from_borrowed(i.as_bytes()));
         }
     }
 }
@@ -695,7 +695,7 @@ impl Extend<alloc::string::String> for ByteQueue<'_> {
     #[inline]
     fn extend<T: IntoIterator<Item = alloc::string::String>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(ByteData::from_owned(i.into_bytes()));
+            self.push_back(ByteData::from_owned(i.into_bytes()));
         }
     }
 }
-- 
2.43.0


From 5c4fc719c0d636571271984a3d2c878d2f02d90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 18/29] fix: hash equal queues equally however they are chunked

---
 src/queue/byte_queue.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index c36c19b..4e68a4d 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -870,8 +870,10 @@ impl Eq for ByteQueue<'_> {}
 impl core::hash::Hash for ByteQueue<'_> {
     #[inline]
     fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
-        for chunk in self.chunks() {
-            chunk.as_slice().hash(state);
+        // equal queues may be chunked differently, so hash the bytes and not the chunks
+        state.write_usize(self.len());
+        for byte in self.bytes() {
+            state.write_u8(byte);
         }
     }
 }
-- 
2.43.0


From b5e3f9c08974f90432b64e855807179a06388a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 19/29] fix: keep the chunk count when append moves the
 chambered chunk into a node

---
 src/queue/linked_root.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/queue/linked_root.rs b/src/queue/linked_root.rs
index 91962b3..892cb48 100644
--- a/src/queue/linked_root.rs
+++ b/src/queue/linked_root.rs
@@ -272,8 +272,9 @@ impl<'a> LinkedRoot<'a> {
             other.count -= 1;
             // SAFETY: if the pointer is non-null it points to a valid `LinkedNodeLeaf`.
             if let Some(fst) = unsafe { other.first.as_mut() } {
-                if let Err(val) = fst.data.push_front(chamber) {
-                    self.push_back(val);
+                match fst.data.push_front(chamber) {
+                    Ok(()) => other.count += 1,
+                    Err(val) => self.push_back(val),
                 }
             } else {
                 self.push_back(chamber);
-- 
2.43.0


From 4e4a84f9992fad92688a0e8b92a6e74735e6a2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 20/29] fix: do not store an empty chunk in a queue created
 without alloc

---
 src/queue/linked_root.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/queue/linked_root.rs b/src/queue/linked_root.rs
index 892cb48..4eb4ce4 100644
--- a/src/queue/linked_root.rs
+++ b/src/queue/linked_root.rs
@@ -36,9 +36,12 @@ impl<'a> LinkedRoot<'a> {
 
     #[inline]
     pub(super) const fn with_item(item: ByteData<'a>) -> Self {
-        Self {
-            data: super::linked_node_data::LinkedNodeData::with_item(item),
+        let empty = item.is_empty();
+        let mut data = super::linked_node_data::LinkedNodeData::with_item(item);
+        if empty {
+            data.len = 0;
         }
+        Self { data }
     }
 
     #[inline]
-- 
2.43.0


From 6d49e31d049b7d0725fba7aa61ebf399bca663c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 21/29] fix: read into a buffer that is larger than the
 remaining data

---
 src/std.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std.rs b/src/std.rs
index 2731f71..a4ce064 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -44,7 +44,7 @@ impl Read for ByteData<'_> {
     #[inline]
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         let len = buf.len().min(self.len());
-        buf.copy_from_slice(&self.as_slice()[..len]);
+        buf[..len].copy_from_slice(&self.as_slice()[..len]);
         self.make_sliced(len..);
         Ok(len)
     }
@@ -111,7 +111,7 @@ impl Read for SharedBytes {
     #[inline]
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         let len = buf.len().min(self.len());
-        buf.copy_from_slice(&self.as_slice()[..len]);
+        buf[..len].copy_from_slice(&self.as_slice()[..len]);
         self.make_sliced(len, self.len() - len);
         Ok(len)
     }
-- 
2.43.0


From 6fe575af49d1f7f1dbb093373efccb2ef4de216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 22/29] fix: bound each copy of a vectored read by what is left

---
 src/std.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std.rs b/src/std.rs
index a4ce064..e6fe767 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -28,7 +28,7 @@ fn read_vectored_inner(mut slic: *const u8, len: usize, bufs: &mut [IoSliceMut<'
             continue;
         }
 
-        let blen = buf.len().min(len);
+        let blen = buf.len().min(left);
         // SAFETY: we know that the buffer is large enough as we checked it before
         unsafe { core::ptr::copy_nonoverlapping(slic, buf.as_mut_ptr(), blen) };
         // SAFETY: the pointer gets moved by `blen` which is guaranteed to be in bounds
-- 
2.43.0


From ad85ab48ad110f7ce6199132761dbebf62ebbb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 23/29] fix: keep exactly the requested number of bytes in
 OwnedByteIter::take

---
 src/queue/byte_iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queue/byte_iter.rs b/src/queue/byte_iter.rs
index 9005032..576684c 100644
--- a/src/queue/byte_iter.rs
+++ b/src/queue/byte_iter.rs
@@ -186,7 +186,7 @@ impl<'a> OwnedByteIter<'a> {
             if self.len() >= n {
                 continue;
             }
-            av.make_sliced(..av.len() - n);
+            av.make_sliced(..n - self.len());
             self.inner.push_back(av);
             break;
         }
-- 
2.43.0


From 159b5a15d306a379aeb8d54fe9b3a8b26cd8e181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 24/29] fix: report recoverable nom errors where nom does, also
 for empty complete input

---
 src/nom_7/bytedata.rs    | 7 +++++--
 src/nom_7/bytequeue.rs   | 5 +++--
 src/nom_7/stringdata.rs  | 7 +++++--
 src/nom_7/stringqueue.rs | 5 +++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/nom_7/bytedata.rs b/src/nom_7/bytedata.rs
index 93b5719..44b00c1 100644
--- a/src/nom_7/bytedata.rs
+++ b/src/nom_7/bytedata.rs
@@ -214,7 +214,7 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
         for (i, bv) in av.iter().enumerate() {
             if predicate(*bv) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
@@ -253,11 +253,14 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
         for (i, bv) in av.iter().enumerate() {
             if predicate(*bv) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
         }
+        if self.is_empty() {
+            return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
+        }
         Ok((Self::empty(), self.clone()))
     }
 }
diff --git a/src/nom_7/bytequeue.rs b/src/nom_7/bytequeue.rs
index e9d8469..ab90cae 100644
--- a/src/nom_7/bytequeue.rs
+++ b/src/nom_7/bytequeue.rs
@@ -277,7 +277,7 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
     {
         match self.find_byte(predicate) {
             None => Err(nom::Err::Incomplete(nom::Needed::new(1))),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
         }
     }
@@ -309,8 +309,9 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
         P: Fn(Self::Item) -> bool,
     {
         match self.find_byte(predicate) {
+            None if self.is_empty() => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             None => Ok((Self::new(), self.clone())),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
         }
     }
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index fe9114e..6f4ef33 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -254,7 +254,7 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
         for (i, b) in self.as_str().char_indices() {
             if predicate(b) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
@@ -291,11 +291,14 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
         for (i, b) in self.as_str().char_indices() {
             if predicate(b) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
         }
+        if self.is_empty() {
+            return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
+        }
         Ok((Self::empty(), self.clone()))
     }
 }
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 3be4e80..920b065 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -261,7 +261,7 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .map(|(i, _)| i);
         match a {
             None => Err(nom::Err::Incomplete(nom::Needed::new(1))),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
         }
     }
@@ -301,8 +301,9 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .find(|&(_, ch)| predicate(ch))
             .map(|(i, _)| i);
         match a {
+            None if self.is_empty() => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             None => Ok((Self::new(), self.clone())),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
         }
     }
-- 
2.43.0


From f19bef21a880f42f2980852d1f70686c8040a5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 25/29] fix: give nom byte positions, not character counts, for
 StringQueue

---
 src/nom_7/stringqueue.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 920b065..5433a10 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -190,15 +190,24 @@ impl<'a> nom::InputIter for crate::StringQueue<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.chars().position(predicate)
+        self.chars_indecies()
+            .find(|&(_, ch)| predicate(ch))
+            .map(|(i, _)| i)
     }
 
     #[inline]
     fn slice_index(&self, count: usize) -> Result<usize, nom::Needed> {
-        if self.len() >= count {
-            Ok(count)
+        let mut left = count;
+        for (i, _) in self.chars_indecies() {
+            if left == 0 {
+                return Ok(i);
+            }
+            left -= 1;
+        }
+        if left == 0 {
+            Ok(self.len())
         } else {
-            Err(nom::Needed::new(count - self.len()))
+            Err(nom::Needed::Unknown)
         }
     }
 }
-- 
2.43.0


From f808a791eab44c23d3e05b51339724c662462d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 26/29] fix: call deserialize_bytes, so that serde_1 builds
 without alloc

---
 src/serde_1/bytedata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_1/bytedata.rs b/src/serde_1/bytedata.rs
index 0bad6f7..0a6f73f 100644
--- a/src/serde_1/bytedata.rs
+++ b/src/serde_1/bytedata.rs
@@ -87,7 +87,7 @@ impl<'de> serde::de::DeserializeSeed<'de> for StaticByteDataVisitor {
         }
         #[cfg(not(feature = "alloc"))]
         {
-            deserializer.deserialize_byte(self)
+            deserializer.deserialize_bytes(self)
         }
     }
 }
@@ -193,7 +193,7 @@ impl<'de: 'a, 'a> serde::de::Deserialize<'de> for ByteData<'a> {
         }
         #[cfg(not(feature = "alloc"))]
         {
-            deserializer.deserialize_byte(ByteDataVisitor)
+            deserializer.deserialize_bytes(ByteDataVisitor)
         }
     }
 }
-- 
2.43.0


From b67bb3b22c711e4d009a9609ea963e5c1e34b18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 27/29] fix: find_slice_after finds nothing past the end of a
 queue

---
 src/queue/byte_queue.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 4e68a4d..88692b6 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -285,6 +285,9 @@ impl<'a> ByteQueue<'a> {
     #[inline]
     #[must_use]
     pub fn find_slice_after(&self, data: &[u8], start: usize) -> Option<usize> {
+        if start > self.len() {
+            return None;
+        }
         self.find_slice_pos(data, 0, start, start)
             .map(|(av, _, _)| av)
     }
-- 
2.43.0


From 8a6caeeef02194ae481438f846aed9fcef508bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 28/29] fix: nom indices of text are byte offsets

---
 src/nom_7/stringdata.rs  |  9 +++++++--
 src/nom_7/stringqueue.rs | 13 +++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index 6f4ef33..7d8c4b6 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -176,12 +176,17 @@ impl nom::HexDisplay for crate::StringData<'_> {
 
 impl nom::InputIter for crate::StringData<'_> {
     type Item = char;
-    type Iter = core::iter::Enumerate<Self>;
+    type Iter = core::iter::Scan<Self, usize, fn(&mut usize, char) -> Option<(usize, char)>>;
     type IterElem = Self;
 
     #[inline]
     fn iter_indices(&self) -> Self::Iter {
-        Iterator::enumerate(self.clone())
+        // nom indices are byte offsets
+        Iterator::scan(self.clone(), 0, |at, ch| {
+            let index = *at;
+            *at += ch.len_utf8();
+            Some((index, ch))
+        })
     }
 
     #[inline]
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 5433a10..6c19126 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -172,12 +172,21 @@ impl nom::HexDisplay for crate::StringQueue<'_> {
 
 impl<'a> nom::InputIter for crate::StringQueue<'a> {
     type Item = char;
-    type Iter = core::iter::Enumerate<crate::queue::OwnedCharIter<'a>>;
+    type Iter = core::iter::Scan<
+        crate::queue::OwnedCharIter<'a>,
+        usize,
+        fn(&mut usize, char) -> Option<(usize, char)>,
+    >;
     type IterElem = crate::queue::OwnedCharIter<'a>;
 
     #[inline]
     fn iter_indices(&self) -> Self::Iter {
-        Iterator::enumerate(self.clone().into_chars())
+        // nom indices are byte offsets
+        Iterator::scan(self.clone().into_chars(), 0, |at, ch| {
+            let index = *at;
+            *at += ch.len_utf8();
+            Some((index, ch))
+        })
     }
 
     #[inline]
-- 
2.43.0


From df9565d56e9cd2b196384c66da630c4a2919de10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:20 +0000
Subject: [PATCH 29/29] fix: ByteIter::skip and nth must not overflow past the
 end

After some bytes were taken, skipping by a huge amount wrapped around
(or panicked in debug builds) instead of ending the iteration.
---
 src/queue/byte_iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/queue/byte_iter.rs b/src/queue/byte_iter.rs
index 576684c..9a6f7d8 100644
--- a/src/queue/byte_iter.rs
+++ b/src/queue/byte_iter.rs
@@ -26,7 +26,7 @@ impl<'a, 'b> ByteIter<'a, 'b> {
     #[inline]
     #[must_use]
     pub const fn skip(mut self, n: usize) -> Self {
-        self.offset += n;
+        self.offset = self.offset.saturating_add(n);
         if self.offset >= self.len {
             self.chunk = None;
             self.offset = 0;
@@ -38,7 +38,7 @@ impl<'a, 'b> ByteIter<'a, 'b> {
     /// Skip the next `n` bytes.
     #[inline]
     pub(crate) fn skip_mut(&mut self, n: usize) -> &mut Self {
-        self.offset += n;
+        self.offset = self.offset.saturating_add(n);
         if self.offset >= self.len {
             self.chunk = None;
             self.offset = 0;
-- 
2.43.0

