From e9d9ddc08029ba0b1a8d54e8c3edae94b49e4ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 1/8] fix: avoid arithmetic overflow on malformed ASF, MP4 and
 ZIP64 sizes

---
 src/readers.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index ce1318c..29d73e4 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -112,7 +112,7 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Current(size as i64 - 40))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(40)))?;
                 }
                 EXTENDED_CONTENT_DESCRIPTION_OBJECT_GUID => {
                     // Reads the content descriptors count.
@@ -147,11 +147,11 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Start(offset + size - 26))?;
+                    reader.seek(SeekFrom::Start(offset.saturating_add(size) - 26))?;
                 }
                 _ => {
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Current(size as i64 - 24))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(24)))?;
                 }
             }
         }
@@ -582,11 +582,11 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current(size as i64 - 20))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(20)))?;
                 }
                 _ => {
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current(size as i64 - 8))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(8)))?;
                 }
             }
 
@@ -909,7 +909,7 @@ impl crate::FileFormat {
             let eocd64_offset = reader.read_u64_le()?;
 
             // Reads the number of entries.
-            reader.seek(SeekFrom::Start(eocd64_offset + 32))?;
+            reader.seek(SeekFrom::Start(eocd64_offset.saturating_add(32)))?;
             let number_of_entries = reader.read_u64_le()?;
 
             // Reads the start of central directory offset.
-- 
2.43.0


From e01295f1d0418918dcb68ccacfd3653087958725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 2/8] fix: fill the detection buffers when the stream returns
 short reads

---
 src/lib.rs     |  3 ++-
 src/readers.rs | 24 ++++++++++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b5f26ed..d287848 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -227,6 +227,7 @@ use std::{
 };
 
 pub use formats::FileFormat;
+use readers::ReadData;
 
 impl FileFormat {
     /// Determines file format from bytes.
@@ -292,7 +293,7 @@ impl FileFormat {
     pub fn from_reader<R: Read + Seek>(mut reader: R) -> Result<Self> {
         // Creates and fills a buffer.
         let mut buf = [0; 36_870];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_up_to(&mut buf)?;
 
         // Determines file format.
         Ok(if nread == 0 {
diff --git a/src/readers.rs b/src/readers.rs
index 29d73e4..8b0bade 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -631,7 +631,7 @@ impl crate::FileFormat {
         let mut total_nread = 0;
         while total_nread < READ_LIMIT {
             // Reads a chunk of the stream into the buffer.
-            let nread = reader.read(&mut buf[OVERLAP_SIZE..])?;
+            let nread = reader.read_up_to(&mut buf[OVERLAP_SIZE..])?;
             if nread == 0 {
                 break;
             }
@@ -734,7 +734,7 @@ impl crate::FileFormat {
 
         // Creates and fills a buffer.
         let mut buf = [0; 32_768];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_up_to(&mut buf)?;
 
         // Checks if the buffer holds the Sketch file format marker.
         if buf[..nread].holds(SKETCH_MARKER) {
@@ -784,7 +784,7 @@ impl crate::FileFormat {
 
         // Creates and fills a buffer.
         let mut buf = [0; 8192];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_up_to(&mut buf)?;
         let buf = &buf[..nread];
 
         // Checks if the buffer holds markers indicating the presence of various file formats.
@@ -1100,7 +1100,7 @@ impl crate::FileFormat {
 
 /// A trait for convenient data reading.
 #[allow(dead_code)]
-trait ReadData: Read {
+pub(crate) trait ReadData: Read {
     /// Reads a specified number of bytes into a `Vec<u8>`.
     #[inline]
     fn read_bytes(&mut self, size: usize) -> Result<Vec<u8>> {
@@ -1131,6 +1131,22 @@ trait ReadData: Read {
         Ok(String::from_utf8_lossy(&self.read_bytes(size)?).to_string())
     }
 
+    /// Reads bytes until the buffer is full or the end of the stream is reached, and returns the
+    /// number of bytes read.
+    #[inline]
+    fn read_up_to(&mut self, buf: &mut [u8]) -> Result<usize> {
+        let mut nread = 0;
+        while nread < buf.len() {
+            match self.read(&mut buf[nread..]) {
+                Ok(0) => break,
+                Ok(count) => nread += count,
+                Err(err) if err.kind() == ErrorKind::Interrupted => {}
+                Err(err) => return Err(err),
+            }
+        }
+        Ok(nread)
+    }
+
     /// Reads a single `u8` value.
     #[inline]
     fn read_u8(&mut self) -> Result<u8> {
-- 
2.43.0


From 72cfdb9fd1a4f1e48c2befb7e6ccf136c3852f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 3/8] fix: limit the number of ID3v2 tags processed

---
 src/readers.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index 8b0bade..ca8dc82 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -465,9 +465,12 @@ impl crate::FileFormat {
     /// Determines file format from an ID3v2 reader.
     #[cfg(feature = "reader-id3v2")]
     pub(crate) fn from_id3v2_reader<R: Read + Seek>(mut reader: R) -> Result<Self> {
+        // Maximum number of tags that can be processed by the reader.
+        const TAG_LIMIT: usize = 64;
+
         // Loops while in ID3v2 segment.
         let mut offset = 0;
-        loop {
+        for _ in 0..TAG_LIMIT {
             // Reads first 10 bytes.
             reader.seek(SeekFrom::Start(offset))?;
             let buf = reader.read_bytes(10)?;
-- 
2.43.0


From 5c95fa28981ee48ec6cbe4eb56b27a06f35a2cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 4/8] fix: do not skip the ID3v2 extended header twice

---
 src/readers.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index ca8dc82..6cccedf 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -486,19 +486,13 @@ impl crate::FileFormat {
                 | ((buf[8] as u64 & 0x7F) << 7)
                 | (buf[9] as u64 & 0x7F);
 
-            // Checks for extended header flag.
+            // Checks for footer flag.
             let flags = buf[5];
-            let extended_header_present = (flags & 0x40) != 0;
             let footer_present = (flags & 0x10) != 0;
 
-            // Calculates next offset.
+            // Calculates next offset (the tag size includes the extended header, if any).
             let mut next_offset = offset + 10 + tag_size;
 
-            // Skips extended header if present.
-            if extended_header_present {
-                next_offset += reader.read_u32_be()? as u64;
-            }
-
             // Adds footer size if present.
             if footer_present {
                 next_offset += 10;
-- 
2.43.0


From bd901d929ca28e9b5a40d5917c0041603d7d7af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 5/8] fix: limit the size of the ZIP mimetype entry read into
 memory

---
 src/readers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index 6cccedf..f7361d0 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -854,6 +854,9 @@ impl crate::FileFormat {
         // Maximum number of entries that can be processed by the reader.
         const ENTRY_LIMIT: usize = 1024;
 
+        // Maximum size of a mimetype that can be handled by the reader.
+        const MIMETYPE_LIMIT: usize = 256;
+
         // Signature of the ZIP64 end of central directory locator.
         const EOCD64_LOCATOR_SIGNATURE: &[u8] = b"PK\x06\x07";
 
@@ -992,7 +995,8 @@ impl crate::FileFormat {
                     ))?;
 
                     // Reads the data.
-                    let data = reader.read_string(compressed_size as usize)?;
+                    let data = reader
+                        .read_string(std::cmp::min(MIMETYPE_LIMIT, compressed_size as usize))?;
 
                     // Checks the trimmed data.
                     return Ok(match data.trim() {
-- 
2.43.0


From 489828c59d0c5fa2a0610cd430510f1f978eb759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 6/8] fix: skip MP4 boxes with an extended size correctly

---
 src/readers.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index f7361d0..7be905b 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -556,10 +556,10 @@ impl crate::FileFormat {
             let box_type = reader.read_bytes(4)?;
 
             // Handles the extended box size.
-            let size = if size == 1 {
-                reader.read_u64_be()?
+            let (size, header_size) = if size == 1 {
+                (reader.read_u64_be()?, 16)
             } else {
-                size as u64
+                (size as u64, 8)
             };
 
             // Checks the box type.
@@ -579,11 +579,13 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(20)))?;
+                    reader.seek(SeekFrom::Current(
+                        (size as i64).saturating_sub(header_size + 12),
+                    ))?;
                 }
                 _ => {
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(8)))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(header_size)))?;
                 }
             }
 
-- 
2.43.0


From 5079ed95f5fc009901a7310649ba79cef7302501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 7/8] fix: do not reject text cut inside a character at the
 read limit

---
 src/readers.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 7be905b..9afb5d1 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -759,11 +759,22 @@ impl crate::FileFormat {
         // Rewinds to the beginning of the stream.
         reader.rewind()?;
 
+        // Reads the data.
+        let mut buf = Vec::new();
+        let nread = reader.take(READ_LIMIT).read_to_end(&mut buf)?;
+
+        // Ignores the character that is cut by the read limit, if any.
+        if nread as u64 == READ_LIMIT {
+            if let Err(err) = std::str::from_utf8(&buf) {
+                if err.error_len().is_none() {
+                    buf.truncate(err.valid_up_to());
+                }
+            }
+        }
+
         // Determines if the reader contains only ASCII/UTF-8-encoded text by checking the first
         // lines for control characters other than whitespaces.
-        reader
-            .take(READ_LIMIT)
-            .lines()
+        buf.lines()
             .take(LINE_LIMIT)
             .try_for_each(|line| {
                 line?
-- 
2.43.0


From 19f74ff526f44a5b912d445c889194ec1060aeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 8/8] fix: read the Matroska StereoMode according to its
 element size

---
 src/readers.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 9afb5d1..c280d53 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -272,6 +272,9 @@ impl crate::FileFormat {
         // Maximum size of a DocType that can be processed by the reader.
         const DOC_TYPE_LIMIT: usize = 8;
 
+        // Maximum size of a StereoMode that can be processed by the reader.
+        const STEREO_MODE_LIMIT: usize = 8;
+
         // DocType element ID.
         const DOC_TYPE_ELEMENT_ID: u32 = 0x4282;
 
@@ -391,12 +394,17 @@ impl crate::FileFormat {
                 }
                 STEREO_MODE_ELEMENT_ID => {
                     // Reads the StereoMode.
-                    let stereo_mode = reader.read_u8()?;
+                    let stereo_mode =
+                        reader.read_bytes(std::cmp::min(STEREO_MODE_LIMIT, size as usize))?;
 
                     // Checks the StereoMode.
-                    if stereo_mode > 0 {
+                    if stereo_mode.iter().any(|&byte| byte > 0) {
                         return Ok(Self::Matroska3dVideo);
                     }
+
+                    // Skips the remaining size.
+                    let remaining_size = size.saturating_sub(STEREO_MODE_LIMIT as u64);
+                    reader.seek(SeekFrom::Current(remaining_size as i64))?;
                 }
                 CLUSTER_ELEMENT_ID => break,
                 _ => {
-- 
2.43.0

