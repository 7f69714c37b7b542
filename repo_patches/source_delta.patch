From 3e4fd3218f0519d8e09ed67950ad1d5848d0e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 01/14] fix: skipping a truncated integer returns an error
 instead of panicking

skip_uleb_fallback indexed past the end of the slice when no terminating
byte was left.
---
 runtime/src/protocol.rs | 2 +-
 runtime/src/uleb.rs     | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 9eaaeb5..534c1a6 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -364,7 +364,7 @@ impl <'i> CompactThriftInput<'i> for CompactThriftInputSlice<'i> {
             self.0 = unsafe { skip_uleb_sse2(self.0) };
             Ok(())
         } else {
-            self.0 = skip_uleb_fallback(self.0);
+            self.0 = skip_uleb_fallback(self.0)?;
             Ok(())
         }
     }
diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index d06211d..94e4a46 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -1,6 +1,7 @@
 use crate::CompactThriftInput;
 use crate::CompactThriftOutput;
 use crate::ThriftError;
+use std::io::ErrorKind;
 
 pub(crate) fn decode_uleb<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I) -> Result<u64, ThriftError> {
     let mut shift = 0_u32;
@@ -31,12 +32,12 @@ pub(crate) unsafe fn skip_uleb_sse2(input: &[u8]) -> &[u8] {
 }
 
 #[inline(never)]
-pub(crate) fn skip_uleb_fallback(input: &[u8]) -> &[u8] {
+pub(crate) fn skip_uleb_fallback(input: &[u8]) -> Result<&[u8], ThriftError> {
     let mut i = 0_usize;
     while i < input.len() && (input[i] & 0x80) != 0 {
         i += 1;
     }
-    &input[i+1..]
+    input.get(i+1..).ok_or(ThriftError::IO(ErrorKind::UnexpectedEof))
 }
 
 pub(crate) fn encode_uleb<O: CompactThriftOutput + ?Sized>(output: &mut O, mut value: u64) -> Result<(), ThriftError> {
-- 
2.43.0


From 8929a8c90ab501a2048b887d24a02e20ae5e0af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 02/14] fix: out of bounds access when skipping overlong
 integers

Without a terminator in the 16 byte chunk, skip_uleb_sse2 skipped 17 bytes
unchecked, leaving the slice if it had exactly 16 bytes and disagreeing with
read_i64 otherwise.
---
 runtime/src/protocol.rs | 4 +++-
 runtime/src/uleb.rs     | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 534c1a6..7d8525f 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -361,7 +361,9 @@ impl <'i> CompactThriftInput<'i> for CompactThriftInputSlice<'i> {
     #[cfg(target_feature = "sse2")]
     fn skip_integer(&mut self) -> Result<(), ThriftError> {
         if self.0.len() >= 16 {
-            self.0 = unsafe { skip_uleb_sse2(self.0) };
+            let rest = unsafe { skip_uleb_sse2(self.0) };
+            // sequences longer than 16 bytes are left to the fallback
+            self.0 = if rest.len() == self.0.len() { skip_uleb_fallback(self.0)? } else { rest };
             Ok(())
         } else {
             self.0 = skip_uleb_fallback(self.0)?;
diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index 94e4a46..5fad874 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -19,6 +19,8 @@ pub(crate) fn decode_uleb<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I)
     }
 }
 
+/// Returns `input` unchanged if none of the first 16 bytes terminates the sequence.
+///
 /// Safety: `input` needs to contain at least 16 bytes
 #[cfg(target_feature = "sse2")]
 #[inline]
@@ -26,7 +28,10 @@ pub(crate) unsafe fn skip_uleb_sse2(input: &[u8]) -> &[u8] {
     use std::arch::x86_64::*;
     debug_assert!(input.len() >= 16);
     let chunk = _mm_loadu_si128(input.as_ptr().cast());
-    let mask = !_mm_movemask_epi8(chunk);
+    let mask = !_mm_movemask_epi8(chunk) & 0xFFFF;
+    if mask == 0 {
+        return input;
+    }
     let len = (mask << 1).trailing_zeros() as usize;
     input.get_unchecked(len..)
 }
-- 
2.43.0


From 832b4fdc4b650ba78300929a004f77b727a5daef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 03/14] fix: malformed field deltas no longer overflow the
 field id

A short field header after a field id close to i16::MAX panicked in builds
with overflow checks.
---
 runtime/src/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 7d8525f..ec8766c 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -101,7 +101,7 @@ pub trait CompactThriftInput<'i> {
         let field_type = field_header & 0x0F;
         let field_delta = field_header >> 4;
         if field_delta != 0 {
-            *last_field_id += field_delta as i16;
+            *last_field_id = last_field_id.wrapping_add(field_delta as i16);
         } else {
             *last_field_id = read_full_field_id(self)?;
         }
-- 
2.43.0


From 6b9afd4845e6326957aa8fd8b6a06c10f08d72a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 04/14] fix: long form field headers contain the field id

The long form wrote the delta instead of the absolute field id, and was not
used for zero or negative deltas. Structs with gaps of more than 15 between
field ids, or with ids not in ascending order, were not written correctly.
---
 runtime/src/protocol.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index ec8766c..41dcbe7 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -258,13 +258,14 @@ pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T,
 
 #[inline]
 pub(crate) fn write_field_header<T: CompactThriftOutput>(output: &mut T, field_type: u8, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
-    let field_delta = field_id.wrapping_sub(*last_field_id);
-
-    if field_delta > 15 {
-        output.write_byte(field_type)?;
-        output.write_i16(field_delta)?
-    } else {
-        output.write_byte(field_type | ((field_delta as u8) << 4))?;
+    match field_id.checked_sub(*last_field_id) {
+        Some(field_delta @ 1..=15) => {
+            output.write_byte(field_type | ((field_delta as u8) << 4))?;
+        }
+        _ => {
+            output.write_byte(field_type)?;
+            output.write_i16(field_id)?
+        }
     }
     *last_field_id = field_id;
     Ok(())
-- 
2.43.0


From 1d4590777b68e47a3047e935c278a03ccca52355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 05/14] fix: union variants respect the field type

The type in the field header was ignored, so variants of a different type
were misinterpreted, and bool variants (which have no payload) could not be
read back.
---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index 7dce2bd..c5c918b 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -158,7 +158,7 @@ macro_rules! thrift_union {
                         *self = Self::$field_name(Default::default());
                         #[allow(unreachable_patterns)]
                         match self {
-                            Self::$field_name(inner) => inner.fill_thrift(input)?,
+                            Self::$field_name(inner) => inner.fill_thrift_field(input, field_type)?,
                             _ => unsafe { std::hint::unreachable_unchecked() },
                         }
                     }),*
-- 
2.43.0


From c50634f042151d3d847fc297817dc0c9af2d20b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 06/14] fix: report the union name for unknown variants

$struct_name is not a variable in this macro, the error contained that text
literally.
---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index c5c918b..f101ec5 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -163,7 +163,7 @@ macro_rules! thrift_union {
                         }
                     }),*
                     _ => {
-                        return Err($crate::ThriftError::MissingField(concat!(stringify!($struct_name), "\0").into()))
+                        return Err($crate::ThriftError::MissingField(concat!(stringify!($identifier), "\0").into()))
                     }
                 }
                 let stop = input.read_byte()?;
-- 
2.43.0


From b7874b1278e4cf9c7a62a69a8ac235ea51e7e01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 07/14] fix: reject non-bool field types for bool fields

A bool field encoded with another type was read as false, and its payload was
then parsed as the following field headers.
---
 runtime/src/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/src/types.rs b/runtime/src/types.rs
index 76c05ac..8a488e2 100644
--- a/runtime/src/types.rs
+++ b/runtime/src/types.rs
@@ -33,7 +33,11 @@ impl <'i> CompactThriftProtocol<'i> for bool {
 
     #[inline]
     fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, _input: &mut T, field_type: u8) -> Result<(), ThriftError> {
-        *self = field_type == 1;
+        *self = match field_type {
+            1 => true,
+            2 => false,
+            _ => return Err(ThriftError::InvalidType),
+        };
         Ok(())
     }
 
-- 
2.43.0


From 2051322ba4c2ccdf5344b82fea7ed71a001eedcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 08/14] fix: Box/Rc/Arc fields use the field encoding of their
 content

Box<bool>, Rc<bool> and Arc<bool> fields were written with an additional byte
and could not read the standard encoding of bool fields.
---
 runtime/src/types.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/runtime/src/types.rs b/runtime/src/types.rs
index 8a488e2..4b8a9b6 100644
--- a/runtime/src/types.rs
+++ b/runtime/src/types.rs
@@ -292,10 +292,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Box::as_mut(self).fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Box::as_mut(self).fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Box::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Box::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Rc<P> {
@@ -306,10 +316,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Rc::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Rc::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Arc<P> {
@@ -320,10 +340,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Arc::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Arc::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i> CompactThriftProtocol<'i> for Box<str> {
-- 
2.43.0


From b8a8ab0b991348ec3e0848a0478219cd9006dba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 09/14] fix: read_page_index returns an error for invalid
 extents instead of panicking

Metadata with an empty, negative or out of range extent, as well as a column
chunk that has an offset index but no column index and is located before the
chunk, made read_page_index panic.
---
 parquet/src/lib.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index c90ee50..7bde188 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -103,21 +103,18 @@ pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileM
     }
 }
 
+fn get_page_index_extent(chunk: &[u8], chunk_offset: usize, offset: i64, length: i32) -> Result<&[u8], ParquetError> {
+    if offset < 0 || length <= 0 {
+        return Err(ParquetError::InvalidOffset);
+    }
+    let start = (offset as usize).checked_sub(chunk_offset).ok_or(ParquetError::InvalidOffset)?;
+    chunk.get(start..start + length as usize).ok_or(ParquetError::InvalidOffset)
+}
+
 fn read_page_index_for_column_chunk(chunk: &[u8], chunk_offset: usize, column_chunks: &[ColumnChunk]) -> Result<Vec<Option<(OffsetIndex, ColumnIndex)>>, ParquetError> {
     column_chunks.iter().map(|cc| {
-        let offset_index_range = if let (Some(offset), Some(length)) = (cc.offset_index_offset, cc.offset_index_length) {
-            assert!(offset as usize >= chunk_offset);
-            assert!(length > 0);
-            let start = offset as usize - chunk_offset;
-            start..start+length as usize
-        } else {
-            return Ok(None)
-        };
-        let column_index_range = if let (Some(offset), Some(length)) = (cc.column_index_offset, cc.column_index_length) {
-            assert!(offset as usize >= chunk_offset);
-            assert!(length > 0);
-            let start = offset as usize - chunk_offset;
-            start..start+length as usize
+        let (offset_index_data, column_index_data) = if let (Some(oo), Some(ol), Some(co), Some(cl)) = (cc.offset_index_offset, cc.offset_index_length, cc.column_index_offset, cc.column_index_length) {
+            (get_page_index_extent(chunk, chunk_offset, oo, ol)?, get_page_index_extent(chunk, chunk_offset, co, cl)?)
         } else {
             return Ok(None)
         };
@@ -126,8 +123,8 @@ fn read_page_index_for_column_chunk(chunk: &[u8], chunk_offset: usize, column_ch
 
         match &mut res {
             Ok(Some((offset_index, column_index))) => {
-                offset_index.fill_thrift(&mut CompactThriftInputSlice::new(&chunk[offset_index_range]))?;
-                column_index.fill_thrift(&mut CompactThriftInputSlice::new(&chunk[column_index_range]))?;
+                offset_index.fill_thrift(&mut CompactThriftInputSlice::new(offset_index_data))?;
+                column_index.fill_thrift(&mut CompactThriftInputSlice::new(column_index_data))?;
             }
             _ => unsafe { unreachable_unchecked() }
         }
-- 
2.43.0


From 96069e9a885008727e91dfdb49b67a3c09e09317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 10/14] fix: get_page_index_chunk returns an error for absurd
 offsets

Offsets in the metadata are untrusted, a range larger than the available memory
aborted the process and one larger than isize::MAX panicked.
---
 parquet/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index 7bde188..3ff638b 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -89,7 +89,8 @@ pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileM
     if let Some(range) = get_page_index_range(file_metadata)? {
         input.seek(SeekFrom::Start(range.start as u64))?;
 
-        let mut buf = Vec::with_capacity(range.len());
+        let mut buf = Vec::new();
+        buf.try_reserve_exact(range.len()).map_err(|_| ThriftError::ReserveError)?;
         // Safety: Readers should not look at uninitialized bytes, only write into the slice
         unsafe {
             buf.set_len(range.len());
-- 
2.43.0


From a40ff38af42c335b5fcee5432305de78583d4e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 11/14] fix: limit recursion when skipping nested containers

A few kilobytes of nested lists, maps or structs in an unknown field exhausted
the stack and aborted the process.
---
 runtime/src/error.rs    |  1 +
 runtime/src/protocol.rs | 35 +++++++++++++++++++++++++----------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/runtime/src/error.rs b/runtime/src/error.rs
index 1d002eb..db62d08 100644
--- a/runtime/src/error.rs
+++ b/runtime/src/error.rs
@@ -19,6 +19,7 @@ pub enum ThriftError {
     DuplicateField,
     InvalidType,
     ReserveError,
+    NestingTooDeep,
     IO(ErrorKind)
 }
 
diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 41dcbe7..ac1ed9e 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -13,6 +13,9 @@ use crate::uleb::*;
 pub const MAX_BINARY_LEN: usize = 16*1024*1024;
 pub const MAX_COLLECTION_LEN: usize = 10_000_000;
 
+/// Limits recursion when skipping nested containers
+const MAX_SKIP_DEPTH: usize = 128;
+
 #[inline(never)] // full field ids are uncommon and inlining this bloats the code
 fn read_full_field_id<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I) -> Result<i16, ThriftError> {
     let field_id = decode_uleb(input)? as u16;
@@ -145,7 +148,7 @@ pub fn read_map_len_and_types<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mu
     Ok((len as u32, key_type, val_type))
 }
 
-fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Result<(), ThriftError> {
+fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, depth: usize) -> Result<(), ThriftError> {
     let (len, element_type) = read_collection_len_and_type(input)?;
     match element_type {
         1..=3 => {
@@ -176,18 +179,18 @@ fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Res
         9 | 10 => {
             // list | set
             for _ in 0..len {
-                skip_collection(input)?;
+                skip_collection(input, next_skip_depth(depth)?)?;
             }
         }
         11 => {
             // map
             for _ in 0..len {
-                skip_map(input)?;
+                skip_map(input, next_skip_depth(depth)?)?;
             }
         }
         12 => {
             for _ in 0..len {
-                skip_field(input, 12, false)?;
+                skip_field_nested(input, 12, false, depth)?;
             }
         }
         _ => {
@@ -197,16 +200,27 @@ fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Res
     Ok(())
 }
 
-fn skip_map<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Result<(), ThriftError> {
+fn skip_map<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, depth: usize) -> Result<(), ThriftError> {
     let (len, key_type, val_type) = read_map_len_and_types(input)?;
     for _ in 0..len {
-        skip_field(input, key_type, true)?;
-        skip_field(input, val_type, true)?;
+        skip_field_nested(input, key_type, true, depth)?;
+        skip_field_nested(input, val_type, true, depth)?;
     }
     Ok(())
 }
 
 pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8, inside_collection: bool) -> Result<(), ThriftError> {
+    skip_field_nested(input, field_type, inside_collection, 0)
+}
+
+fn next_skip_depth(depth: usize) -> Result<usize, ThriftError> {
+    if depth >= MAX_SKIP_DEPTH {
+        return Err(ThriftError::NestingTooDeep)
+    }
+    Ok(depth + 1)
+}
+
+fn skip_field_nested<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8, inside_collection: bool, depth: usize) -> Result<(), ThriftError> {
     match field_type {
         1..=2 => {
             // boolean stored inside the field header outside of collections
@@ -232,21 +246,22 @@ pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T,
         }
         9 | 10 => {
             // list | set
-            skip_collection(input)?;
+            skip_collection(input, next_skip_depth(depth)?)?;
         }
         11 => {
             // map
-            skip_map(input)?;
+            skip_map(input, next_skip_depth(depth)?)?;
         }
         12 => {
             // struct | union
+            let depth = next_skip_depth(depth)?;
             let mut last_field_id = 0_i16;
             loop {
                 let field_type = input.read_field_header(&mut last_field_id)?;
                 if field_type == 0 {
                     break;
                 }
-                skip_field(input, field_type, false)?;
+                skip_field_nested(input, field_type, false, depth)?;
             }
         }
         _ => {
-- 
2.43.0


From 75393738c6237939df51ccdc502c7b9fe1035ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:35 +0000
Subject: [PATCH 12/14] fix: thrift type byte is a signed 8 bit integer

byte fields did not compile since u8 is not a protocol type, and list<byte> became
Vec<u8>, which is encoded as binary instead of a list.
---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index f101ec5..8c8bbbc 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -252,7 +252,7 @@ macro_rules! __thrift_field_type {
     (set $element_type:ident) => { Vec< $crate::__thrift_field_type!($element_type) > };
     (binary) => { Vec<u8> };
     (string) => { String };
-    (byte) => { u8 };
+    (byte) => { i8 };
     (double) => { f64 };
     ($field_type:ty) => { $field_type }; // this covers bool | i8 | i16 | i32 | i64
     (Box $element_type:ident) => { std::boxed::Box< $crate::__thrift_field_type!($element_type) > };
-- 
2.43.0


From 48e8b8ff81190552fc01cb34e9035a13c368a058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 13/14] fix: count repeated fields in the definition level of
 schema fields

---
 parquet/src/bin/schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parquet/src/bin/schema.rs b/parquet/src/bin/schema.rs
index cfe36c9..e24f84b 100644
--- a/parquet/src/bin/schema.rs
+++ b/parquet/src/bin/schema.rs
@@ -556,7 +556,7 @@ fn convert_schema_inner<'schema>(
         .repetition_type
         .unwrap_or(FieldRepetitionType::REQUIRED);
     // cannot overflow because nesting level has a lower limit than u8::MAX
-    let def_level = def_level + (repetition_type == FieldRepetitionType::OPTIONAL) as u8;
+    let def_level = def_level + (repetition_type != FieldRepetitionType::REQUIRED) as u8;
     let rep_level = rep_level + (repetition_type == FieldRepetitionType::REPEATED) as u8;
 
     let mut current = field_from_schema_element(
-- 
2.43.0


From e01cc57fbb1dda5983f502ad28bd4ed4d64bdc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 14/14] fix: integers of more than 613 million bytes overflowed
 the shift counter

---
 runtime/src/uleb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index 5fad874..0714972 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -11,7 +11,7 @@ pub(crate) fn decode_uleb<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I)
 
         // overlong sequences are not treated as an error for performance reasons
         value |= ((byte & 0x7F) as u64).wrapping_shl(shift);
-        shift += 7;
+        shift = shift.wrapping_add(7);
 
         if (byte & 0x80) == 0 {
             return Ok(value);
-- 
2.43.0

