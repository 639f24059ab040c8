From 09d87c8a95dbce7a78f70cd00e68bc9a4ad10804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:15 +0000
Subject: [PATCH 01/14] fix: keep the end of a point iterator exclusive

Reading an empty cloud, splitting off an empty half and taking the first
point of the cloud from the back all underflowed the inclusive end index:
a panic in debug builds, repeated or out of bounds points in release.
---
 rpcl2/src/iterator.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index a6d703c..bb50b6a 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -30,7 +30,7 @@ where
     C: PointConvertible<N>,
 {
     iteration: usize,
-    iteration_back: usize,
+    iteration_back: usize, // exclusive
     data: ByteBufferView<N>,
     _phantom: core::marker::PhantomData<C>,
 }
@@ -51,12 +51,12 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.iteration_back < self.iteration {
+        if self.iteration_back <= self.iteration {
             return None; // iteration finished
         }
 
-        let p = self.data.point_at(self.iteration_back);
         self.iteration_back -= 1;
+        let p = self.data.point_at(self.iteration_back);
         Some(C::from(p))
     }
 }
@@ -149,7 +149,7 @@ where
     }
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.iteration >= self.data.len() || self.iteration_back < self.iteration {
+        if self.iteration >= self.data.len() || self.iteration_back <= self.iteration {
             return None; // iteration finished
         }
 
@@ -165,7 +165,7 @@ struct ByteBufferView<const N: usize> {
     #[cfg(not(feature = "rayon"))]
     data: Vec<u8>,
     start_point_idx: usize,
-    end_point_idx: usize,
+    end_point_idx: usize, // exclusive
     point_step_size: usize,
     offsets: [usize; N],
     pdata: Vec<(String, FieldDatatype)>,
@@ -198,7 +198,7 @@ impl<const N: usize> ByteBufferView<N> {
 
     #[inline]
     fn len(&self) -> usize {
-        self.end_point_idx - self.start_point_idx + 1
+        self.end_point_idx - self.start_point_idx
     }
 
     #[inline]
@@ -226,7 +226,7 @@ impl<const N: usize> ByteBufferView<N> {
         Self {
             data: self.data.clone(),
             start_point_idx: start,
-            end_point_idx: start + size - 1,
+            end_point_idx: start + size,
             point_step_size: self.point_step_size,
             offsets: self.offsets,
             pdata: self.pdata.clone(),
@@ -339,7 +339,7 @@ where
             cloud.data,
             point_step_size,
             0,
-            cloud_length - 1,
+            cloud_length,
             offsets,
             pdata,
             cloud.endian,
@@ -347,7 +347,7 @@ where
 
         Ok(Self {
             iteration: 0,
-            iteration_back: cloud_length - 1,
+            iteration_back: cloud_length,
             data,
             _phantom: core::marker::PhantomData,
         })
@@ -363,7 +363,7 @@ where
     fn from_byte_buffer_view(data: ByteBufferView<N>) -> Self {
         Self {
             iteration: 0,
-            iteration_back: data.len() - 1,
+            iteration_back: data.len(),
             data,
             _phantom: core::marker::PhantomData,
         }
-- 
2.43.0


From 5a8d62940f4b24c42f9b6eb813401f89d6e54574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 02/14] fix: report the remaining number of points of a
 partially consumed iterator

size_hint, len and opt_len kept returning the length of the whole cloud
after points were taken from either end.
---
 rpcl2/src/iterator.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index bb50b6a..47fbf8f 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -41,7 +41,7 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn len(&self) -> usize {
-        self.data.len()
+        self.remaining()
     }
 }
 
@@ -76,7 +76,7 @@ where
     }
 
     fn opt_len(&self) -> Option<usize> {
-        Some(self.data.len())
+        Some(self.remaining())
     }
 }
 
@@ -86,7 +86,7 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn len(&self) -> usize {
-        self.data.len()
+        self.remaining()
     }
 
     fn drive<Co>(self, consumer: Co) -> Co::Result
@@ -144,8 +144,8 @@ where
     type Item = C;
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let buf_len = self.data.len();
-        (buf_len, Some(buf_len))
+        let remaining = self.remaining();
+        (remaining, Some(remaining))
     }
 
     fn next(&mut self) -> Option<Self::Item> {
@@ -358,6 +358,12 @@ impl<const N: usize, C> PointCloudIterator<N, C>
 where
     C: PointConvertible<N>,
 {
+    /// The number of points that were not taken from either end yet.
+    #[inline]
+    fn remaining(&self) -> usize {
+        self.iteration_back - self.iteration
+    }
+
     #[inline]
     #[must_use]
     fn from_byte_buffer_view(data: ByteBufferView<N>) -> Self {
-- 
2.43.0


From b52cbe2dbd80ba63cc45baf6d0015e0302691416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 03/14] fix: split only the remaining points of an iterator

split_at ignored points already taken from either end, so the halves
yielded them again, and an index behind the end gave a half that reads
outside of the message.
---
 rpcl2/src/iterator.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 47fbf8f..c7ce640 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -378,7 +378,16 @@ where
     #[inline]
     #[must_use]
     pub fn split_at(self, point_index: usize) -> (Self, Self) {
-        let (left_data, right_data) = self.data.split_at(point_index);
+        assert!(
+            point_index <= self.remaining(),
+            "Can not split behind the last point of the iterator."
+        );
+
+        // only the points that were not taken yet are split
+        let mut data = self.data;
+        data.end_point_idx = data.start_point_idx + self.iteration_back;
+        data.start_point_idx += self.iteration;
+        let (left_data, right_data) = data.split_at(point_index);
         (
             Self::from_byte_buffer_view(left_data),
             Self::from_byte_buffer_view(right_data),
-- 
2.43.0


From 73b9d9d97031f01ebf0eecf1c715d1eda475eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 04/14] fix: assign message fields to point fields by name

The iterator ordered the fields by their offset in the message, so a
message storing them in another order than the point type (or naming a
field twice) was read into the wrong fields.
---
 rpcl2/src/iterator.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index c7ce640..1b73384 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -280,8 +280,8 @@ where
         }
 
         let mut pdata_with_offsets = Vec::with_capacity(N);
-        for field in cloud.fields.iter() {
-            if fields_only.contains(&field.name) {
+        for name in fields_only.iter() {
+            if let Some(field) = cloud.fields.iter().find(|field| field.name == *name) {
                 pdata_with_offsets.push((
                     field.name.clone(),
                     field.datatype.try_into()?,
@@ -290,9 +290,6 @@ where
             }
         }
 
-        pdata_with_offsets
-            .sort_unstable_by(|(_, _, offset1), (_, _, offset2)| offset1.cmp(offset2));
-
         debug_assert!(
             pdata_with_offsets.len() == N,
             "Not all fields were found in the message. Expected {} but found {}.",
-- 
2.43.0


From 3bd02aff8ff635ceac7e95d5bbefa10557d4cd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:53 +0000
Subject: [PATCH 05/14] fix: check that every requested field fits into the
 point step

Only the field with the last offset was checked, so a wider field in
front of it could be read behind the end of the message buffer.
---
 rpcl2/src/iterator.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 1b73384..29ddd3f 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -315,18 +315,17 @@ where
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
-        let last_offset = match offsets.last() {
-            Some(offset) => *offset,
-            None => return Err(MsgConversionError::DataLengthMismatch),
-        };
-
-        let last_pdata = match pdata.last() {
-            Some(pdata) => pdata,
+        let max_field_end = match offsets
+            .iter()
+            .zip(pdata.iter())
+            .map(|(offset, (_, datatype))| *offset + datatype.size())
+            .max()
+        {
+            Some(field_end) => field_end,
             None => return Err(MsgConversionError::DataLengthMismatch),
         };
 
-        let size_with_last_pdata = last_offset + last_pdata.1.size();
-        if size_with_last_pdata > point_step_size {
+        if max_field_end > point_step_size {
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
-- 
2.43.0


From b75f0f36e3ce32cc4357024e63b7ee45986f1f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:53 +0000
Subject: [PATCH 06/14] fix: refuse dimensions whose product overflows

width * height * point_step could wrap around to the buffer length in
release builds, giving an iterator over points outside of the buffer.
---
 rpcl2/src/iterator.rs |  7 +------
 rpcl2/src/lib.rs      | 12 ++++++++++++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 29ddd3f..e8f89c3 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -310,10 +310,7 @@ where
             });
 
         let point_step_size = cloud.point_step as usize;
-        let cloud_length = cloud.dimensions.width as usize * cloud.dimensions.height as usize;
-        if point_step_size * cloud_length != cloud.data.len() {
-            return Err(MsgConversionError::DataLengthMismatch);
-        }
+        let cloud_length = cloud.checked_point_count()?;
 
         let max_field_end = match offsets
             .iter()
@@ -329,8 +326,6 @@ where
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
-        let cloud_length = cloud.dimensions.width as usize * cloud.dimensions.height as usize;
-
         let data = ByteBufferView::new(
             cloud.data,
             point_step_size,
diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index e51a875..355b5df 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -497,6 +497,18 @@ fn ordered_field_names<const N: usize, C: PointConvertible<N>>() -> Vec<String>
 }
 
 impl PointCloud2Msg {
+    /// The number of points in the message, if the dimensions and the point step match the size of the buffer.
+    #[inline]
+    fn checked_point_count(&self) -> Result<usize, MsgConversionError> {
+        let point_count =
+            (self.dimensions.width as usize).checked_mul(self.dimensions.height as usize);
+        let bytes_total = point_count.and_then(|n| n.checked_mul(self.point_step as usize));
+        match (point_count, bytes_total) {
+            (Some(count), Some(bytes)) if bytes == self.data.len() => Ok(count),
+            _ => Err(MsgConversionError::DataLengthMismatch),
+        }
+    }
+
     #[inline]
     fn byte_similarity<const N: usize, C>(&self) -> Result<ByteSimilarity, MsgConversionError>
     where
-- 
2.43.0


From e227b91e6d9d81df75e70e3c6c498cebd208d8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:12 +0000
Subject: [PATCH 07/14] fix: check the message before copying it into a vector

try_into_vec ignored the height, trusted width and the buffer length when
copying (heap overflow or uninitialized points on malformed messages),
read points behind the end of the buffer if the message stores them
without the padding of the type, and read from unaligned pointers.
---
 rpcl2/src/lib.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index 355b5df..7022277 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -553,10 +553,10 @@ impl PointCloud2Msg {
             }
         }
 
-        Ok(if offset == self.point_step {
-            ByteSimilarity::Equal
-        } else {
-            ByteSimilarity::Overlapping
+        Ok(match offset.cmp(&self.point_step) {
+            core::cmp::Ordering::Equal => ByteSimilarity::Equal,
+            core::cmp::Ordering::Less => ByteSimilarity::Overlapping,
+            core::cmp::Ordering::Greater => ByteSimilarity::Different, // points in the message are shorter than in memory
         })
     }
 
@@ -762,9 +762,9 @@ impl PointCloud2Msg {
                     ByteSimilarity::Different => return Ok(self.try_into_iter()?.collect()),
                 };
 
-                let cloud_width = self.dimensions.width as usize;
+                let cloud_length = self.checked_point_count()?;
                 let point_step = self.point_step as usize;
-                let mut vec: Vec<C> = Vec::with_capacity(cloud_width);
+                let mut vec: Vec<C> = Vec::with_capacity(cloud_length);
                 if bytematch {
                     unsafe {
                         core::ptr::copy_nonoverlapping(
@@ -772,13 +772,13 @@ impl PointCloud2Msg {
                             vec.as_mut_ptr().cast::<u8>(),
                             self.data.len(),
                         );
-                        vec.set_len(cloud_width);
+                        vec.set_len(cloud_length);
                     }
                 } else {
                     unsafe {
-                        for i in 0..cloud_width {
+                        for i in 0..cloud_length {
                             let point_ptr = self.data.as_ptr().add(i * point_step).cast::<C>();
-                            let point = point_ptr.read();
+                            let point = point_ptr.read_unaligned();
                             vec.push(point);
                         }
                     }
-- 
2.43.0


From 23b475238e66b4a1286bbd9b8746ba787832773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:12 +0000
Subject: [PATCH 08/14] fix: do not count padding as message fields when
 reading a vector

In debug builds, try_into_vec panicked for messages with fewer fields
than the layout has entries, including paddings: every message of a
padded point type such as PointXYZ.
---
 rpcl2/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index 7022277..9a40191 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -518,7 +518,6 @@ impl PointCloud2Msg {
         let target_layout = KnownLayoutInfo::try_from(C::layout())?;
 
         debug_assert!(field_names.len() <= target_layout.fields.len());
-        debug_assert!(self.fields.len() >= target_layout.fields.len());
 
         let mut offset: u32 = 0;
         let mut field_counter = 0;
-- 
2.43.0


From c1ad74ac0aa8b360b511b143e8b2be7cef838ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 09/14] fix: check the whole buffer length when building a
 message

The length was truncated to 32 bits before checking that it is a multiple
of the point step, so the check gave wrong results from 4 GiB on.
---
 rpcl2/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index 9a40191..5079af6 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -438,7 +438,7 @@ impl PointCloud2MsgBuilder {
             return Err(MsgConversionError::InvalidFieldFormat);
         }
 
-        if self.data.len() as u32 % self.point_step != 0 {
+        if self.data.len() % self.point_step as usize != 0 {
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
-- 
2.43.0


From e065fff4ef869eb5dc402d32bc103196a812d76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 10/14] fix: refuse to write clouds that do not fit into 32 bit
 steps

Width and row step wrapped around for clouds of 4 GiB or more, which gave
messages that do not describe their buffer.
---
 rpcl2/src/lib.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index 5079af6..e1f6570 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -471,6 +471,14 @@ pub struct CloudDimensions {
     pub height: u32,
 }
 
+/// The size of a row in bytes, if it can be represented in the message.
+fn checked_row_step(width: usize, point_step: u32) -> Result<u32, MsgConversionError> {
+    width
+        .checked_mul(point_step as usize)
+        .and_then(|row_step| u32::try_from(row_step).ok())
+        .ok_or(MsgConversionError::NumberConversion)
+}
+
 fn ordered_field_names<const N: usize, C: PointConvertible<N>>() -> Vec<String> {
     C::layout()
         .0
@@ -614,7 +622,7 @@ impl PointCloud2Msg {
                 pdata_offsets_acc,
             )
         };
-        let mut cloud_width = 0;
+        let mut cloud_width: usize = 0;
 
         iterable.into_iter().for_each(|pointdata| {
             let point: RPCL2Point<N> = pointdata.into();
@@ -629,8 +637,8 @@ impl PointCloud2Msg {
             cloud_width += 1;
         });
 
-        cloud = cloud.width(cloud_width);
-        cloud = cloud.row_step(cloud_width * point_step);
+        cloud = cloud.width(u32::try_from(cloud_width)?);
+        cloud = cloud.row_step(checked_row_step(cloud_width, point_step)?);
 
         cloud.build()
     }
@@ -711,7 +719,9 @@ impl PointCloud2Msg {
                     )
                 };
 
-                let bytes_total = vec.len() * point_step as usize;
+                let width = u32::try_from(vec.len())?;
+                let row_step = checked_row_step(vec.len(), point_step)?;
+                let bytes_total = row_step as usize;
                 cloud.data.resize(bytes_total, u8::default());
                 let raw_data: *mut C = cloud.data.as_mut_ptr() as *mut C;
                 unsafe {
@@ -722,10 +732,7 @@ impl PointCloud2Msg {
                     );
                 }
 
-                Ok(cloud
-                    .width(vec.len() as u32)
-                    .row_step(vec.len() as u32 * point_step)
-                    .build()?)
+                Ok(cloud.width(width).row_step(row_step).build()?)
             }
             _ => Self::try_from_iter(vec),
         }
-- 
2.43.0


From 181cf10ef7b69ac5bd2536d059a37c7f94c262a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 11/14] fix: keep the name of fields with attributes of other
 macros

A field with any attribute other than rpcl2, such as a doc comment, lost
its name in the derived layout: the names of the following fields moved
up and building the layout panicked.
---
 rpcl2-derive/src/lib.rs | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/rpcl2-derive/src/lib.rs b/rpcl2-derive/src/lib.rs
index a3ca95a..39e7795 100644
--- a/rpcl2-derive/src/lib.rs
+++ b/rpcl2-derive/src/lib.rs
@@ -32,28 +32,26 @@ fn struct_field_rename_array(input: &DeriveInput) -> Vec<String> {
 
     let mut field_names = Vec::with_capacity(fields.len());
     for f in fields.iter() {
-        if f.attrs.is_empty() {
-            field_names.push(f.ident.as_ref().unwrap().to_token_stream().to_string());
-        } else {
-            f.attrs.iter().for_each(|attr| {
-                if attr.path().is_ident("rpcl2") {
-                    let res = attr.parse_nested_meta(|meta| {
-                        if meta.path.is_ident("rename") {
-                            let new_name;
-                            parenthesized!(new_name in meta.input);
-                            let lit: LitStr = new_name.parse()?;
-                            field_names.push(lit.value());
-                            Ok(())
-                        } else {
-                            panic!("expected `name` attribute");
-                        }
-                    });
-                    if let Err(err) = res {
-                        panic!("Error parsing attribute: {}", err);
+        let mut field_name = f.ident.as_ref().unwrap().to_token_stream().to_string();
+        f.attrs.iter().for_each(|attr| {
+            if attr.path().is_ident("rpcl2") {
+                let res = attr.parse_nested_meta(|meta| {
+                    if meta.path.is_ident("rename") {
+                        let new_name;
+                        parenthesized!(new_name in meta.input);
+                        let lit: LitStr = new_name.parse()?;
+                        field_name = lit.value();
+                        Ok(())
+                    } else {
+                        panic!("expected `name` attribute");
                     }
+                });
+                if let Err(err) = res {
+                    panic!("Error parsing attribute: {}", err);
                 }
-            });
-        }
+            }
+        });
+        field_names.push(field_name);
     }
 
     field_names
-- 
2.43.0


From cc6cfef84a4c5b6892de0ef3d4d41a64fc6e9eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 12/14] fix: name raw identifier fields without the r# prefix

A field called r#type was written to and searched in messages under the
name "r#type", which is not the name of the field.
---
 rpcl2-derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpcl2-derive/src/lib.rs b/rpcl2-derive/src/lib.rs
index 39e7795..32514c1 100644
--- a/rpcl2-derive/src/lib.rs
+++ b/rpcl2-derive/src/lib.rs
@@ -6,6 +6,7 @@ use std::collections::HashMap;
 use proc_macro::TokenStream;
 use proc_macro2::{Ident, Literal};
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
 use syn::{parenthesized, parse_macro_input, Data, DeriveInput, Fields, LitStr};
 
 fn get_allowed_types() -> HashMap<&'static str, usize> {
@@ -32,7 +33,7 @@ fn struct_field_rename_array(input: &DeriveInput) -> Vec<String> {
 
     let mut field_names = Vec::with_capacity(fields.len());
     for f in fields.iter() {
-        let mut field_name = f.ident.as_ref().unwrap().to_token_stream().to_string();
+        let mut field_name = f.ident.as_ref().unwrap().unraw().to_string();
         f.attrs.iter().for_each(|attr| {
             if attr.path().is_ident("rpcl2") {
                 let res = attr.parse_nested_meta(|meta| {
-- 
2.43.0


From 57170277b8f15399f4f02bcce479f23623226b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 13/14] fix: derive layouts in memory order

For structs whose fields Rust reorders (the default representation), the
derived layout listed the fields in order of declaration at wrong offsets,
so clouds written from or read into vectors had mixed up values.
---
 rpcl2-derive/src/lib.rs | 72 +++++++++++++++++++++++++++++++----------
 1 file changed, 55 insertions(+), 17 deletions(-)

diff --git a/rpcl2-derive/src/lib.rs b/rpcl2-derive/src/lib.rs
index 32514c1..378f59f 100644
--- a/rpcl2-derive/src/lib.rs
+++ b/rpcl2-derive/src/lib.rs
@@ -115,15 +115,11 @@ pub fn ros_point_derive(input: TokenStream) -> TokenStream {
 
                 #layout
 
-                let mut rename_idx = 0;
                 let rename_arr = vec![#(#rename_arr),*];
                 let field_info: Vec<::ros_pointcloud2::LayoutField> = fields.into_iter().map(|field| {
                     match field {
-                        (0, ty, size) => {
-                            rename_idx += 1;
-                            ::ros_pointcloud2::LayoutField::new(rename_arr[rename_idx - 1], ty, size)
-                        },
-                        (1, _, size) => ::ros_pointcloud2::LayoutField::padding(size),
+                        (0, idx, ty, size) => ::ros_pointcloud2::LayoutField::new(rename_arr[idx], ty, size),
+                        (1, _, _, size) => ::ros_pointcloud2::LayoutField::padding(size),
                         _ => unreachable!(),
                     }
                 }).collect();
@@ -133,18 +129,20 @@ pub fn ros_point_derive(input: TokenStream) -> TokenStream {
         }
     };
 
+    let memory_order = memory_order_of_fields(&name, &fields);
     let field_names_get = fields
         .iter()
         .enumerate()
         .map(|(idx, f)| {
             let field_name = f.ident.as_ref().unwrap();
-            quote! { #field_name: point[#idx].get() }
+            quote! { #field_name: point[MEMORY_ORDER[#idx]].get() }
         })
         .collect::<Vec<_>>();
 
     let from_my_point = quote! {
         impl From<ros_pointcloud2::RPCL2Point<#field_len_token>> for #name {
             fn from(point: ros_pointcloud2::RPCL2Point<#field_len_token>) -> Self {
+                #memory_order
                 Self {
                     #(#field_names_get,)*
                 }
@@ -154,16 +152,20 @@ pub fn ros_point_derive(input: TokenStream) -> TokenStream {
 
     let field_names_into = fields
         .iter()
-        .map(|f| {
+        .enumerate()
+        .map(|(idx, f)| {
             let field_name = f.ident.as_ref().unwrap();
-            quote! { point.#field_name.into() }
+            quote! { fields[MEMORY_ORDER[#idx]] = point.#field_name.into(); }
         })
         .collect::<Vec<_>>();
 
     let from_custom_point = quote! {
         impl From<#name> for ros_pointcloud2::RPCL2Point<#field_len_token> {
             fn from(point: #name) -> Self {
-                [ #(#field_names_into,)* ].into()
+                #memory_order
+                let mut fields = [::ros_pointcloud2::PointData::default(); #field_len_token];
+                #(#field_names_into)*
+                fields.into()
             }
         }
     };
@@ -175,11 +177,40 @@ pub fn ros_point_derive(input: TokenStream) -> TokenStream {
     })
 }
 
+/// Declares `MEMORY_ORDER`, which maps the declaration index of a field to its index in memory.
+/// They differ when Rust is free to reorder the fields.
+fn memory_order_of_fields(struct_name: &Ident, fields: &Fields) -> proc_macro2::TokenStream {
+    let field_len = fields.len();
+    let offsets = fields.iter().map(|f| {
+        let field_name = f.ident.as_ref().unwrap();
+        quote! { ::core::mem::offset_of!(#struct_name, #field_name) }
+    });
+
+    quote! {
+        const OFFSETS: [usize; #field_len] = [ #(#offsets),* ];
+        const MEMORY_ORDER: [usize; #field_len] = {
+            let mut order = [0; #field_len];
+            let mut i = 0;
+            while i < #field_len {
+                let mut j = 0;
+                while j < #field_len {
+                    if OFFSETS[j] < OFFSETS[i] {
+                        order[i] += 1;
+                    }
+                    j += 1;
+                }
+                i += 1;
+            }
+            order
+        };
+    }
+}
+
 fn layout_of_type(struct_name: &Ident, data: &Data) -> proc_macro2::TokenStream {
     match data {
         Data::Struct(data) => match &data.fields {
             Fields::Named(fields) => {
-                let values = fields.named.iter().map(|field| {
+                let values = fields.named.iter().enumerate().map(|(idx, field)| {
                     let field_name = field.ident.as_ref().unwrap();
                     let field_ty = &field.ty;
                     let field_ty_str = Literal::string(&field_ty.to_token_stream().to_string());
@@ -188,20 +219,27 @@ fn layout_of_type(struct_name: &Ident, data: &Data) -> proc_macro2::TokenStream
                     quote! {
                         let size = ::core::mem::size_of::<#field_ty>();
                         let offset = ::core::mem::offset_of!(#struct_name, #field_name);
-                        if offset > last_field_end {
-                            fields.push((1, "", offset - last_field_end));
-                        }
-                        fields.push((0, #field_ty_str, size));
-                        last_field_end = offset + size;
+                        fields_with_offset.push((offset, #idx, #field_ty_str, size));
                     }
                 });
 
                 quote! {
+                    let mut fields_with_offset = Vec::new();
                     #(#values)*
 
+                    // The layout follows the order in memory, which is only the order of declaration for repr(C).
+                    fields_with_offset.sort_unstable_by_key(|(offset, _, _, _)| *offset);
+                    for (offset, idx, ty, size) in fields_with_offset {
+                        if offset > last_field_end {
+                            fields.push((1, 0, "", offset - last_field_end));
+                        }
+                        fields.push((0, idx, ty, size));
+                        last_field_end = offset + size;
+                    }
+
                     let struct_size = ::std::mem::size_of::<#struct_name>();
                     if struct_size > last_field_end {
-                        fields.push((1, "", struct_size - last_field_end));
+                        fields.push((1, 0, "", struct_size - last_field_end));
                     }
                 }
             }
-- 
2.43.0


From bd9dd90c8168b54fbac1c8a23e1f770bea144e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:04 +0000
Subject: [PATCH 14/14] fix: keep the value of big-endian point data when
 writing it

---
 rpcl2/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index e1f6570..d866d23 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -631,7 +631,10 @@ impl PointCloud2Msg {
                 let truncated_bytes = unsafe {
                     core::slice::from_raw_parts(pdata.bytes.as_ptr(), pdata.datatype.size())
                 };
-                cloud.data.extend_from_slice(truncated_bytes);
+                match pdata.endian {
+                    Endian::Little => cloud.data.extend_from_slice(truncated_bytes),
+                    Endian::Big => cloud.data.extend(truncated_bytes.iter().rev()),
+                }
             });
 
             cloud_width += 1;
-- 
2.43.0

