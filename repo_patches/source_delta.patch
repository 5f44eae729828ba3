From 06ec612d62f179daa0367c8a7c7c106d10deed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 1/8] fix: half-open iterator bounds, so empty clouds and
 exhausted or edge-split iterators do not underflow

---
 rpcl2/src/iterator.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index a6d703c..acee29e 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -30,7 +30,7 @@ where
     C: PointConvertible<N>,
 {
     iteration: usize,
-    iteration_back: usize,
+    iteration_back: usize, // exclusive
     data: ByteBufferView<N>,
     _phantom: core::marker::PhantomData<C>,
 }
@@ -51,12 +51,12 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.iteration_back < self.iteration {
+        if self.iteration_back <= self.iteration {
             return None; // iteration finished
         }
 
-        let p = self.data.point_at(self.iteration_back);
         self.iteration_back -= 1;
+        let p = self.data.point_at(self.iteration_back);
         Some(C::from(p))
     }
 }
@@ -149,7 +149,7 @@ where
     }
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.iteration >= self.data.len() || self.iteration_back < self.iteration {
+        if self.iteration >= self.data.len() || self.iteration_back <= self.iteration {
             return None; // iteration finished
         }
 
@@ -165,7 +165,7 @@ struct ByteBufferView<const N: usize> {
     #[cfg(not(feature = "rayon"))]
     data: Vec<u8>,
     start_point_idx: usize,
-    end_point_idx: usize,
+    end_point_idx: usize, // exclusive
     point_step_size: usize,
     offsets: [usize; N],
     pdata: Vec<(String, FieldDatatype)>,
@@ -198,7 +198,7 @@ impl<const N: usize> ByteBufferView<N> {
 
     #[inline]
     fn len(&self) -> usize {
-        self.end_point_idx - self.start_point_idx + 1
+        self.end_point_idx - self.start_point_idx
     }
 
     #[inline]
@@ -226,7 +226,7 @@ impl<const N: usize> ByteBufferView<N> {
         Self {
             data: self.data.clone(),
             start_point_idx: start,
-            end_point_idx: start + size - 1,
+            end_point_idx: start + size,
             point_step_size: self.point_step_size,
             offsets: self.offsets,
             pdata: self.pdata.clone(),
@@ -236,6 +236,7 @@ impl<const N: usize> ByteBufferView<N> {
 
     #[inline]
     pub fn split_at(self, point_index: usize) -> (Self, Self) {
+        assert!(point_index <= self.len(), "split index out of bounds");
         let left_start = self.start_point_idx;
         let left_size = point_index;
 
@@ -339,7 +340,7 @@ where
             cloud.data,
             point_step_size,
             0,
-            cloud_length - 1,
+            cloud_length,
             offsets,
             pdata,
             cloud.endian,
@@ -347,7 +348,7 @@ where
 
         Ok(Self {
             iteration: 0,
-            iteration_back: cloud_length - 1,
+            iteration_back: cloud_length,
             data,
             _phantom: core::marker::PhantomData,
         })
@@ -363,7 +364,7 @@ where
     fn from_byte_buffer_view(data: ByteBufferView<N>) -> Self {
         Self {
             iteration: 0,
-            iteration_back: data.len() - 1,
+            iteration_back: data.len(),
             data,
             _phantom: core::marker::PhantomData,
         }
-- 
2.43.0


From 1e5a5cb13fae846b8f3cdcd7443607b1d129f320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 2/8] fix: iterator lengths and splits count the remaining
 points, not the consumed ones

---
 rpcl2/src/iterator.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index acee29e..64b090c 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -41,7 +41,7 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn len(&self) -> usize {
-        self.data.len()
+        self.remaining()
     }
 }
 
@@ -76,7 +76,7 @@ where
     }
 
     fn opt_len(&self) -> Option<usize> {
-        Some(self.data.len())
+        Some(self.remaining())
     }
 }
 
@@ -86,7 +86,7 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn len(&self) -> usize {
-        self.data.len()
+        self.remaining()
     }
 
     fn drive<Co>(self, consumer: Co) -> Co::Result
@@ -144,7 +144,7 @@ where
     type Item = C;
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let buf_len = self.data.len();
+        let buf_len = self.remaining();
         (buf_len, Some(buf_len))
     }
 
@@ -359,6 +359,12 @@ impl<const N: usize, C> PointCloudIterator<N, C>
 where
     C: PointConvertible<N>,
 {
+    /// Number of points that are still to be handed out.
+    #[inline]
+    fn remaining(&self) -> usize {
+        self.iteration_back - self.iteration
+    }
+
     #[inline]
     #[must_use]
     fn from_byte_buffer_view(data: ByteBufferView<N>) -> Self {
@@ -373,7 +379,11 @@ where
     #[inline]
     #[must_use]
     pub fn split_at(self, point_index: usize) -> (Self, Self) {
-        let (left_data, right_data) = self.data.split_at(point_index);
+        let mut data = self.data;
+        // only split what is left of a partly consumed iterator
+        data.end_point_idx = data.start_point_idx + self.iteration_back;
+        data.start_point_idx += self.iteration;
+        let (left_data, right_data) = data.split_at(point_index);
         (
             Self::from_byte_buffer_view(left_data),
             Self::from_byte_buffer_view(right_data),
-- 
2.43.0


From a38b59dec7918d378a7f82e8568aa1a54984cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 3/8] fix: assign message fields to point fields by name
 instead of by offset order

---
 rpcl2/src/iterator.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 64b090c..ba4f2d7 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -281,8 +281,8 @@ where
         }
 
         let mut pdata_with_offsets = Vec::with_capacity(N);
-        for field in cloud.fields.iter() {
-            if fields_only.contains(&field.name) {
+        for name in fields_only.iter() {
+            if let Some(field) = cloud.fields.iter().find(|field| field.name == *name) {
                 pdata_with_offsets.push((
                     field.name.clone(),
                     field.datatype.try_into()?,
@@ -291,9 +291,6 @@ where
             }
         }
 
-        pdata_with_offsets
-            .sort_unstable_by(|(_, _, offset1), (_, _, offset2)| offset1.cmp(offset2));
-
         debug_assert!(
             pdata_with_offsets.len() == N,
             "Not all fields were found in the message. Expected {} but found {}.",
-- 
2.43.0


From cfde2ae68d2ffb6e0b059ecaf376d1da82f1906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 4/8] fix: check every field and the dimensions without
 overflow before reading points

---
 rpcl2/src/iterator.rs | 24 +++++++++---------------
 rpcl2/src/lib.rs      |  8 ++++++++
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index ba4f2d7..51e31b3 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -311,28 +311,22 @@ where
             });
 
         let point_step_size = cloud.point_step as usize;
-        let cloud_length = cloud.dimensions.width as usize * cloud.dimensions.height as usize;
-        if point_step_size * cloud_length != cloud.data.len() {
-            return Err(MsgConversionError::DataLengthMismatch);
-        }
+        let cloud_length = cloud.checked_cloud_length()?;
 
-        let last_offset = match offsets.last() {
-            Some(offset) => *offset,
-            None => return Err(MsgConversionError::DataLengthMismatch),
-        };
-
-        let last_pdata = match pdata.last() {
-            Some(pdata) => pdata,
+        let last_field_end = match offsets
+            .iter()
+            .zip(pdata.iter())
+            .map(|(offset, (_, datatype))| offset.saturating_add(datatype.size()))
+            .max()
+        {
+            Some(end) => end,
             None => return Err(MsgConversionError::DataLengthMismatch),
         };
 
-        let size_with_last_pdata = last_offset + last_pdata.1.size();
-        if size_with_last_pdata > point_step_size {
+        if last_field_end > point_step_size {
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
-        let cloud_length = cloud.dimensions.width as usize * cloud.dimensions.height as usize;
-
         let data = ByteBufferView::new(
             cloud.data,
             point_step_size,
diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index e51a875..34814e6 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -497,6 +497,14 @@ fn ordered_field_names<const N: usize, C: PointConvertible<N>>() -> Vec<String>
 }
 
 impl PointCloud2Msg {
+    /// Number of points described by the dimensions, checked against the length of the byte buffer.
+    fn checked_cloud_length(&self) -> Result<usize, MsgConversionError> {
+        (self.dimensions.width as usize)
+            .checked_mul(self.dimensions.height as usize)
+            .filter(|len| len.checked_mul(self.point_step as usize) == Some(self.data.len()))
+            .ok_or(MsgConversionError::DataLengthMismatch)
+    }
+
     #[inline]
     fn byte_similarity<const N: usize, C>(&self) -> Result<ByteSimilarity, MsgConversionError>
     where
-- 
2.43.0


From fc1a1cddf2b6e04acb752e1aed9a937aa7f9f7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 5/8] fix: drop a debug assertion that counted padding as
 message fields and panicked on ordinary clouds

---
 rpcl2/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index 34814e6..93ba9a9 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -514,7 +514,6 @@ impl PointCloud2Msg {
         let target_layout = KnownLayoutInfo::try_from(C::layout())?;
 
         debug_assert!(field_names.len() <= target_layout.fields.len());
-        debug_assert!(self.fields.len() >= target_layout.fields.len());
 
         let mut offset: u32 = 0;
         let mut field_counter = 0;
-- 
2.43.0


From e3dff3c3f538d714bc6795a80c35d774760cd6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 6/8] fix: validate dimensions, rows, alignment and point size
 before copying points out of a message

---
 rpcl2/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index 93ba9a9..e705147 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -550,8 +550,10 @@ impl PointCloud2Msg {
 
         Ok(if offset == self.point_step {
             ByteSimilarity::Equal
-        } else {
+        } else if offset < self.point_step {
             ByteSimilarity::Overlapping
+        } else {
+            ByteSimilarity::Different // A point in the message is smaller than the type in memory.
         })
     }
 
@@ -757,9 +759,9 @@ impl PointCloud2Msg {
                     ByteSimilarity::Different => return Ok(self.try_into_iter()?.collect()),
                 };
 
-                let cloud_width = self.dimensions.width as usize;
+                let cloud_length = self.checked_cloud_length()?;
                 let point_step = self.point_step as usize;
-                let mut vec: Vec<C> = Vec::with_capacity(cloud_width);
+                let mut vec: Vec<C> = Vec::with_capacity(cloud_length);
                 if bytematch {
                     unsafe {
                         core::ptr::copy_nonoverlapping(
@@ -767,13 +769,13 @@ impl PointCloud2Msg {
                             vec.as_mut_ptr().cast::<u8>(),
                             self.data.len(),
                         );
-                        vec.set_len(cloud_width);
+                        vec.set_len(cloud_length);
                     }
                 } else {
                     unsafe {
-                        for i in 0..cloud_width {
+                        for i in 0..cloud_length {
                             let point_ptr = self.data.as_ptr().add(i * point_step).cast::<C>();
-                            let point = point_ptr.read();
+                            let point = point_ptr.read_unaligned();
                             vec.push(point);
                         }
                     }
-- 
2.43.0


From b4b3f8f600133be6d41c8bb75292de847e180019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 7/8] fix: convert points one by one when the compiler
 reordered their fields

---
 rpcl2/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index e705147..47217a9 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -548,6 +548,11 @@ impl PointCloud2Msg {
             }
         }
 
+        if offset as usize != core::mem::size_of::<C>() {
+            // The type is not laid out in declaration order, there are no bytes to share.
+            return Ok(ByteSimilarity::Different);
+        }
+
         Ok(if offset == self.point_step {
             ByteSimilarity::Equal
         } else if offset < self.point_step {
@@ -701,6 +706,11 @@ impl PointCloud2Msg {
                         }
                     }
 
+                    if offset as usize != core::mem::size_of::<C>() {
+                        // The type is not laid out in declaration order, it can not be copied.
+                        return Self::try_from_iter(vec);
+                    }
+
                     (
                         PointCloud2MsgBuilder::new()
                             .fields(fields)
-- 
2.43.0


From 429d9d1648520698393b1b6722209f9bd94dccb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 8/8] fix: name derived fields that carry attributes other than
 rpcl2

---
 rpcl2-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcl2-derive/src/lib.rs b/rpcl2-derive/src/lib.rs
index a3ca95a..c563d93 100644
--- a/rpcl2-derive/src/lib.rs
+++ b/rpcl2-derive/src/lib.rs
@@ -32,7 +32,7 @@ fn struct_field_rename_array(input: &DeriveInput) -> Vec<String> {
 
     let mut field_names = Vec::with_capacity(fields.len());
     for f in fields.iter() {
-        if f.attrs.is_empty() {
+        if !f.attrs.iter().any(|attr| attr.path().is_ident("rpcl2")) {
             field_names.push(f.ident.as_ref().unwrap().to_token_stream().to_string());
         } else {
             f.attrs.iter().for_each(|attr| {
-- 
2.43.0

