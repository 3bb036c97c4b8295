From 8a9ab0315ef14dd1dbcb257c22f48145c3313580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 1/8] fix: fill detection buffers when the reader returns short
 or interrupted reads

---
 src/lib.rs     |  3 ++-
 src/readers.rs | 23 +++++++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b5f26ed..6b81298 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -227,6 +227,7 @@ use std::{
 };
 
 pub use formats::FileFormat;
+use readers::ReadData;
 
 impl FileFormat {
     /// Determines file format from bytes.
@@ -292,7 +293,7 @@ impl FileFormat {
     pub fn from_reader<R: Read + Seek>(mut reader: R) -> Result<Self> {
         // Creates and fills a buffer.
         let mut buf = [0; 36_870];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_fill(&mut buf)?;
 
         // Determines file format.
         Ok(if nread == 0 {
diff --git a/src/readers.rs b/src/readers.rs
index ce1318c..7bcf418 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -631,7 +631,7 @@ impl crate::FileFormat {
         let mut total_nread = 0;
         while total_nread < READ_LIMIT {
             // Reads a chunk of the stream into the buffer.
-            let nread = reader.read(&mut buf[OVERLAP_SIZE..])?;
+            let nread = reader.read_fill(&mut buf[OVERLAP_SIZE..])?;
             if nread == 0 {
                 break;
             }
@@ -734,7 +734,7 @@ impl crate::FileFormat {
 
         // Creates and fills a buffer.
         let mut buf = [0; 32_768];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_fill(&mut buf)?;
 
         // Checks if the buffer holds the Sketch file format marker.
         if buf[..nread].holds(SKETCH_MARKER) {
@@ -784,7 +784,7 @@ impl crate::FileFormat {
 
         // Creates and fills a buffer.
         let mut buf = [0; 8192];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_fill(&mut buf)?;
         let buf = &buf[..nread];
 
         // Checks if the buffer holds markers indicating the presence of various file formats.
@@ -1100,7 +1100,22 @@ impl crate::FileFormat {
 
 /// A trait for convenient data reading.
 #[allow(dead_code)]
-trait ReadData: Read {
+pub(crate) trait ReadData: Read {
+    /// Reads bytes until the buffer is full or the end of the stream is reached, and returns the
+    /// number of bytes read.
+    fn read_fill(&mut self, buf: &mut [u8]) -> Result<usize> {
+        let mut nread = 0;
+        while nread < buf.len() {
+            match self.read(&mut buf[nread..]) {
+                Ok(0) => break,
+                Ok(count) => nread += count,
+                Err(error) if error.kind() == ErrorKind::Interrupted => {}
+                Err(error) => return Err(error),
+            }
+        }
+        Ok(nread)
+    }
+
     /// Reads a specified number of bytes into a `Vec<u8>`.
     #[inline]
     fn read_bytes(&mut self, size: usize) -> Result<Vec<u8>> {
-- 
2.43.0


From a8255a3dbcfbe00c7107227d2aa1b7024dce4af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 2/8] fix: avoid arithmetic overflow on corrupted sizes and
 offsets in the ASF, MP4 and ZIP readers

---
 src/readers.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 7bcf418..fb08484 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -112,7 +112,7 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Current(size as i64 - 40))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(40)))?;
                 }
                 EXTENDED_CONTENT_DESCRIPTION_OBJECT_GUID => {
                     // Reads the content descriptors count.
@@ -147,11 +147,11 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Start(offset + size - 26))?;
+                    reader.seek(SeekFrom::Start(offset.saturating_add(size) - 26))?;
                 }
                 _ => {
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Current(size as i64 - 24))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(24)))?;
                 }
             }
         }
@@ -582,11 +582,11 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current(size as i64 - 20))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(20)))?;
                 }
                 _ => {
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current(size as i64 - 8))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(8)))?;
                 }
             }
 
@@ -909,7 +909,7 @@ impl crate::FileFormat {
             let eocd64_offset = reader.read_u64_le()?;
 
             // Reads the number of entries.
-            reader.seek(SeekFrom::Start(eocd64_offset + 32))?;
+            reader.seek(SeekFrom::Start(eocd64_offset.saturating_add(32)))?;
             let number_of_entries = reader.read_u64_le()?;
 
             // Reads the start of central directory offset.
-- 
2.43.0


From fa958c03bd1401efaa3d4c6c0054ce26ae58cf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 3/8] fix: account for the 16-byte header of MP4 boxes that use
 an extended size

---
 src/readers.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index fb08484..044d7a9 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -559,10 +559,10 @@ impl crate::FileFormat {
             let box_type = reader.read_bytes(4)?;
 
             // Handles the extended box size.
-            let size = if size == 1 {
-                reader.read_u64_be()?
+            let (size, header_size) = if size == 1 {
+                (reader.read_u64_be()?, 16)
             } else {
-                size as u64
+                (size as u64, 8)
             };
 
             // Checks the box type.
@@ -582,11 +582,13 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(20)))?;
+                    reader.seek(SeekFrom::Current(
+                        (size as i64).saturating_sub(header_size + 12),
+                    ))?;
                 }
                 _ => {
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(8)))?;
+                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(header_size)))?;
                 }
             }
 
-- 
2.43.0


From 30eb220fe3bf4f782743810ad28d997475ebf00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 4/8] fix: do not skip the ID3v2 extended header twice, the tag
 size already includes it

---
 src/readers.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 044d7a9..389e4b3 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -483,19 +483,13 @@ impl crate::FileFormat {
                 | ((buf[8] as u64 & 0x7F) << 7)
                 | (buf[9] as u64 & 0x7F);
 
-            // Checks for extended header flag.
+            // Checks for footer flag.
             let flags = buf[5];
-            let extended_header_present = (flags & 0x40) != 0;
             let footer_present = (flags & 0x10) != 0;
 
-            // Calculates next offset.
+            // Calculates next offset (the tag size already includes the extended header, if any).
             let mut next_offset = offset + 10 + tag_size;
 
-            // Skips extended header if present.
-            if extended_header_present {
-                next_offset += reader.read_u32_be()? as u64;
-            }
-
             // Adds footer size if present.
             if footer_present {
                 next_offset += 10;
-- 
2.43.0


From 15a54f7aea7ab8c0db5c0c1ec832c335f4804d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 5/8] fix: limit the number of tags processed by the ID3v2
 reader

---
 src/readers.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index 389e4b3..58ba257 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -465,9 +465,12 @@ impl crate::FileFormat {
     /// Determines file format from an ID3v2 reader.
     #[cfg(feature = "reader-id3v2")]
     pub(crate) fn from_id3v2_reader<R: Read + Seek>(mut reader: R) -> Result<Self> {
+        // Maximum number of tags that can be processed by the reader.
+        const TAG_LIMIT: usize = 256;
+
         // Loops while in ID3v2 segment.
         let mut offset = 0;
-        loop {
+        for _ in 0..TAG_LIMIT {
             // Reads first 10 bytes.
             reader.seek(SeekFrom::Start(offset))?;
             let buf = reader.read_bytes(10)?;
-- 
2.43.0


From 7e1f11c3743f3f67a458bf95798afeead1491af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 6/8] fix: do not allocate a buffer of the declared size for an
 oversized mimetype file in the ZIP reader

---
 src/readers.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/readers.rs b/src/readers.rs
index 58ba257..77b044f 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -856,6 +856,9 @@ impl crate::FileFormat {
         // Maximum number of entries that can be processed by the reader.
         const ENTRY_LIMIT: usize = 1024;
 
+        // Maximum size of a mimetype file that can be handled by the reader.
+        const MIMETYPE_LIMIT: u32 = 65_536;
+
         // Signature of the ZIP64 end of central directory locator.
         const EOCD64_LOCATOR_SIGNATURE: &[u8] = b"PK\x06\x07";
 
@@ -979,6 +982,11 @@ impl crate::FileFormat {
                 "document.json" => return Ok(Self::Sketch43),
                 "extension.vsixmanifest" => return Ok(Self::MicrosoftVisualStudioExtension),
                 "mimetype" if compressed_size == uncompressed_size => {
+                    // Ignores a mimetype file that is too large to hold a media type.
+                    if compressed_size > MIMETYPE_LIMIT {
+                        return Ok(Self::Zip);
+                    }
+
                     // Seeks to the filename of the local file header.
                     reader.seek(SeekFrom::Start(offset as u64 + 26))?;
 
-- 
2.43.0


From c3c234827bd2bc679fa11f669f73a9705b560aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 7/8] fix: honour the size of the StereoMode element in the
 EBML reader

---
 src/readers.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 77b044f..dfb7029 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -272,6 +272,9 @@ impl crate::FileFormat {
         // Maximum size of a DocType that can be processed by the reader.
         const DOC_TYPE_LIMIT: usize = 8;
 
+        // Maximum size of a StereoMode that can be processed by the reader.
+        const STEREO_MODE_LIMIT: usize = 8;
+
         // DocType element ID.
         const DOC_TYPE_ELEMENT_ID: u32 = 0x4282;
 
@@ -391,12 +394,17 @@ impl crate::FileFormat {
                 }
                 STEREO_MODE_ELEMENT_ID => {
                     // Reads the StereoMode.
-                    let stereo_mode = reader.read_u8()?;
+                    let stereo_mode =
+                        reader.read_bytes(std::cmp::min(STEREO_MODE_LIMIT, size as usize))?;
 
                     // Checks the StereoMode.
-                    if stereo_mode > 0 {
+                    if stereo_mode.iter().any(|&byte| byte > 0) {
                         return Ok(Self::Matroska3dVideo);
                     }
+
+                    // Skips the remaining size.
+                    let remaining_size = size.saturating_sub(STEREO_MODE_LIMIT as u64);
+                    reader.seek(SeekFrom::Current(remaining_size as i64))?;
                 }
                 CLUSTER_ELEMENT_ID => break,
                 _ => {
-- 
2.43.0


From 0c3f665c7c7ae435896eaee0ce5589a82542d8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 8/8] fix: accept text whose last character is truncated by the
 read limit of the TXT reader

---
 src/readers.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index dfb7029..cee8204 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -769,12 +769,27 @@ impl crate::FileFormat {
 
         // Determines if the reader contains only ASCII/UTF-8-encoded text by checking the first
         // lines for control characters other than whitespaces.
+        let mut nread = 0;
         reader
             .take(READ_LIMIT)
-            .lines()
+            .split(b'\n')
             .take(LINE_LIMIT)
             .try_for_each(|line| {
-                line?
+                let mut line = line?;
+
+                // Drops the last character of the last line if the read limit truncates it.
+                nread += line.len() as u64 + 1;
+                if nread > READ_LIMIT {
+                    match std::str::from_utf8(&line) {
+                        Err(error) if error.error_len().is_none() => {
+                            line.truncate(error.valid_up_to())
+                        }
+                        _ => {}
+                    }
+                }
+
+                String::from_utf8(line)
+                    .map_err(|_| Error::new(ErrorKind::InvalidData, "invalid UTF-8"))?
                     .chars()
                     .find(|char| char.is_control() && !char.is_whitespace())
                     .map(|_| Err(Error::new(ErrorKind::InvalidData, "invalid characters")))
-- 
2.43.0

