From fcc27a17cf7ae65326bbf204d69ac39f81f63a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 01/12] fix: compute the value size once per tag in
 ILTag::size()

Calling value_size() twice per level made sizing and serializing nested
containers cost 2^depth.
---
 src/tags/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tags/mod.rs b/src/tags/mod.rs
index 58d116c..f81af03 100644
--- a/src/tags/mod.rs
+++ b/src/tags/mod.rs
@@ -197,10 +197,11 @@ pub trait ILTag: Any + Send + Sync {
     /// Returns the total size of the tag in bytes.
     fn size(&self) -> u64 {
         let mut size: u64 = encoded_size(self.id()) as u64;
+        let value_size = self.value_size();
         if !self.is_implicity() {
-            size += encoded_size(self.value_size()) as u64;
+            size += encoded_size(value_size) as u64;
         }
-        size + self.value_size()
+        size + value_size
     }
 
     /// Serializes the payload of this tag.
-- 
2.43.0


From 16cacfe5d32729d521612df1f90c64b587c24525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 02/12] fix: do not let the position overflow when skipping on
 seekable streams

position + count wrapped around for huge counts: a panic with overflow
checks, a successful skip backwards without them.
---
 src/io/std_io/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index f853b52..48d89b3 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -197,12 +197,12 @@ where
             if curr_pos == end_pos {
                 Err(ErrorKind::EndOfData)
             } else {
-                let new_pos = curr_pos + count;
-                if new_pos <= end_pos {
-                    self.seek(std::io::SeekFrom::Start(new_pos))?;
-                    Ok(())
-                } else {
-                    Err(ErrorKind::UnableToReadData)
+                match curr_pos.checked_add(count) {
+                    Some(new_pos) if new_pos <= end_pos => {
+                        self.seek(std::io::SeekFrom::Start(new_pos))?;
+                        Ok(())
+                    }
+                    _ => Err(ErrorKind::UnableToReadData),
                 }
             }
         }
-- 
2.43.0


From baf2998b67aa148c5e2ee6a6539964e4064bc0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:05 +0000
Subject: [PATCH 03/12] fix: restore the position of a seekable stream when a
 skip fails

The failed skip left the stream at its end instead of where it was.
---
 src/io/std_io/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index 48d89b3..6aae42b 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -202,7 +202,10 @@ where
                         self.seek(std::io::SeekFrom::Start(new_pos))?;
                         Ok(())
                     }
-                    _ => Err(ErrorKind::UnableToReadData),
+                    _ => {
+                        self.seek(std::io::SeekFrom::Start(curr_pos))?;
+                        Err(ErrorKind::UnableToReadData)
+                    }
                 }
             }
         }
-- 
2.43.0


From 0ab183b9090e69b278ffe0be97be86c290fa38f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 04/12] fix: make a skip beyond the limit of LimitedReader
 consume nothing

The default skip() consumed the source in chunks of 512 bytes before
hitting the limit.
---
 src/io/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index 2c19e58..1445ff1 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -293,4 +293,13 @@ impl<'a> Reader for LimitedReader<'a> {
         }
         ret
     }
+
+    fn skip(&mut self, count: usize) -> Result<()> {
+        self.can_read(count)?;
+        let ret = self.source.skip(count);
+        if ret.is_ok() {
+            self.available -= count;
+        }
+        ret
+    }
 }
-- 
2.43.0


From 2691eff23d09868250dcaa79998e657aacf5f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 05/12] fix: do not reserve memory for array elements that were
 only declared

A message of a few bytes could make ILTagArrayTag and ILILIntArrayTag
reserve gigabytes, once per nesting level.
---
 src/tags/standard/explicit/mod.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/tags/standard/explicit/mod.rs b/src/tags/standard/explicit/mod.rs
index ce92b0a..aeb09e6 100644
--- a/src/tags/standard/explicit/mod.rs
+++ b/src/tags/standard/explicit/mod.rs
@@ -534,7 +534,6 @@ impl ILTag for ILILIntArrayTag {
             return Err(ErrorKind::CorruptedData);
         }
         self.value.clear();
-        self.value.reserve(count as usize);
         for _i in 0..count {
             self.value.push(lreader.deserialize_ilint()?);
         }
@@ -686,7 +685,6 @@ impl ILTag for ILTagArrayTag {
             return Err(ErrorKind::CorruptedData);
         }
         self.inner.value.clear();
-        self.inner.value.reserve(count as usize);
         for _i in 0..count {
             self.inner.value.push(factory.deserialize(&mut lreader)?);
         }
-- 
2.43.0


From b9e7237368c32445f57eb6dd18c28e33019de323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 06/12] fix: report an overflowing tag size in RawTagScanner as
 corrupted data

The offset of the next tag overflowed on a hostile size.
---
 src/tags/raw/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tags/raw/mod.rs b/src/tags/raw/mod.rs
index 2769d90..765fb53 100644
--- a/src/tags/raw/mod.rs
+++ b/src/tags/raw/mod.rs
@@ -227,7 +227,10 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
         let value_size: u64 = size_info.1;
         let bytes_to_skip: u64 = size_info.2;
         let offset = self.offset;
-        self.offset += header_size + value_size;
+        self.offset = header_size
+            .checked_add(value_size)
+            .and_then(|size| offset.checked_add(size))
+            .ok_or(ErrorKind::CorruptedData)?;
         self.reader.skip_u64(bytes_to_skip)?;
         Ok(Some(RawTagOffset {
             id,
-- 
2.43.0


From 8db0806920676579c87103e47b10cb7c40e880d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 07/12] fix: BorrowedVecWriter::bytes_written() underflow

It underflowed when the offset was moved to before the initial one.
---
 src/io/array/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/array/mod.rs b/src/io/array/mod.rs
index dfb734f..9b21170 100644
--- a/src/io/array/mod.rs
+++ b/src/io/array/mod.rs
@@ -446,7 +446,7 @@ impl<'a> BorrowedVecWriter<'a> {
 
     /// Returns the number of bytes actually written.
     pub fn bytes_written(&self) -> usize {
-        self.offset - self.initial_offset
+        self.offset.saturating_sub(self.initial_offset)
     }
 }
 
-- 
2.43.0


From 3a4ec74a9fcb3fe30cc3ecbb30150cc6f35c8c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 08/12] fix: SizedSeek::available() underflow

A stream positioned beyond its end has no bytes available.
---
 src/io/std_io/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index 6aae42b..0d1c0c5 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -66,7 +66,7 @@ pub trait SizedSeek {
     fn offset(&mut self) -> Result<u64>;
     /// Returns the number of bytes available for reading.
     fn available(&mut self) -> Result<u64> {
-        Ok(self.len()? - self.offset()?)
+        Ok(self.len()?.saturating_sub(self.offset()?))
     }
 }
 
-- 
2.43.0


From ebaef3de7e8871b197cb962392a74112b2146d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:16 +0000
Subject: [PATCH 09/12] fix: support short and interrupted writes in
 WriteWriter

A std::io::Write may take part of the data or be interrupted; both made
the write fail after part of the data had been written.
---
 src/io/std_io/mod.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index 0d1c0c5..87aada5 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -143,17 +143,15 @@ impl<'a> WriteWriter<'a> {
 impl<'a> Writer for WriteWriter<'a> {
     fn write(&mut self, value: u8) -> Result<()> {
         let tmp: [u8; 1] = [value];
-        match self.dest.write(&tmp) {
-            Ok(1) => Ok(()),
-            Ok(_) => Err(ErrorKind::UnableToWriteData),
-            Err(e) => Err(ErrorKind::IOError(e)),
-        }
+        self.write_all(&tmp)
     }
 
     fn write_all(&mut self, buff: &[u8]) -> Result<()> {
-        match self.dest.write(&buff) {
-            Ok(n) if n == buff.len() => Ok(()),
-            Ok(_) => Err(ErrorKind::UnableToWriteData),
+        match self.dest.write_all(buff) {
+            Ok(()) => Ok(()),
+            Err(e) if e.kind() == std::io::ErrorKind::WriteZero => {
+                Err(ErrorKind::UnableToWriteData)
+            }
             Err(e) => Err(ErrorKind::IOError(e)),
         }
     }
-- 
2.43.0


From 50e4d8b028c9f760990b561a7181b9b15b3e0918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:47 +0000
Subject: [PATCH 10/12] fix: report the I/O error of a seekable stream instead
 of hiding it

Every read failure was reported as missing data, so a failing device
looked like a truncated message.
---
 src/io/std_io/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index 87aada5..81fea7d 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -178,7 +178,10 @@ where
     fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
         match std::io::Read::read_exact(self, buff) {
             Ok(()) => Ok(()),
-            Err(_) => Err(ErrorKind::UnableToReadData),
+            Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => {
+                Err(ErrorKind::UnableToReadData)
+            }
+            Err(e) => Err(ErrorKind::IOError(e)),
         }
     }
 
-- 
2.43.0


From 31b7c35321e910f5e23443fb03a384d147764d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 11/12] fix: limit the nesting depth of the tags deserialized

A message with thousands of nested tags exhausted the stack and aborted
the process.
---
 src/tags/mod.rs                  |  4 ++++
 src/tags/standard/factory/mod.rs | 36 +++++++++++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/tags/mod.rs b/src/tags/mod.rs
index f81af03..7b9a8a4 100644
--- a/src/tags/mod.rs
+++ b/src/tags/mod.rs
@@ -83,6 +83,10 @@ use std::convert::From;
 /// Maximum tag size that can be handled by this library. It in this version it is set to 512MB.
 pub const MAX_TAG_SIZE: u64 = 1024 * 1024 * 512;
 
+/// Maximum nesting depth of tags that [`standard::ILStandardTagFactory`]
+/// deserializes. It keeps hostile data from exhausting the stack.
+pub const MAX_TAG_DEPTH: usize = 256;
+
 /// Definition of the errors from this package.
 #[derive(Debug)]
 pub enum ErrorKind {
diff --git a/src/tags/standard/factory/mod.rs b/src/tags/standard/factory/mod.rs
index 4e4112a..ca60449 100644
--- a/src/tags/standard/factory/mod.rs
+++ b/src/tags/standard/factory/mod.rs
@@ -55,8 +55,41 @@ use crate::io::{LimitedReader, Reader};
 use crate::tags::serialization::*;
 use crate::tags::{
     is_implicit_tag, tag_size_to_usize, ErrorKind, ILDefaultTagCreator, ILTag, ILTagCreatorEngine,
-    ILTagFactory, Result,
+    ILTagFactory, Result, MAX_TAG_DEPTH,
 };
+use std::cell::Cell;
+
+thread_local! {
+    /// Number of tag values being deserialized by the current thread.
+    static DEPTH: Cell<usize> = Cell::new(0);
+}
+
+/// Counts one level of nesting while it lives.
+struct DepthGuard;
+
+impl DepthGuard {
+    /// Enters a new nesting level.
+    ///
+    /// Returns:
+    /// - `Ok(x)`: The guard of the level;
+    /// - `Err(ErrorKind::TagTooLarge)`: If there are too many nesting levels;
+    fn enter() -> Result<Self> {
+        DEPTH.with(|depth| {
+            if depth.get() < MAX_TAG_DEPTH {
+                depth.set(depth.get() + 1);
+                Ok(Self)
+            } else {
+                Err(ErrorKind::TagTooLarge)
+            }
+        })
+    }
+}
+
+impl Drop for DepthGuard {
+    fn drop(&mut self) {
+        DEPTH.with(|depth| depth.set(depth.get() - 1));
+    }
+}
 
 /// This macro is a shortcut to the registration of a new [`ILDefaultTagCreator`] for
 /// the specified tag id and struct.
@@ -167,6 +200,7 @@ impl ILStandardTagFactory {
         reader: &mut dyn Reader,
         tag: &mut dyn ILTag,
     ) -> Result<()> {
+        let _guard = DepthGuard::enter()?;
         let mut lreader = LimitedReader::new(reader, tag_size);
         tag.deserialize_value(self, tag_size, &mut lreader)?;
         if tag.id() != IL_ILINT_TAG_ID && tag.id() != IL_SIGNED_ILINT_TAG_ID && !lreader.empty() {
-- 
2.43.0


From b6a366dfe0b2b96f9d3cb41e60a619d38e7b74c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 12/12] fix: report the real header size of padded ILInts in
 RawTagScanner

---
 src/tags/raw/mod.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/tags/raw/mod.rs b/src/tags/raw/mod.rs
index 765fb53..ee8547a 100644
--- a/src/tags/raw/mod.rs
+++ b/src/tags/raw/mod.rs
@@ -40,6 +40,7 @@
 //! New since 1.4.0.
 #[cfg(test)]
 mod tests;
+use crate::io::array::ByteArrayReader;
 use crate::io::Reader;
 use crate::tags::serialization::*;
 use crate::tags::standard::constants::*;
@@ -221,9 +222,9 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
 
     /// Returns the information about the next tag.
     pub fn next_tag(&mut self) -> Result<Option<RawTagOffset>> {
-        let id: u64 = self.reader.deserialize_ilint()?;
+        let (id, id_size) = self.deserialize_sized_ilint()?;
         let size_info = self.extract_tag_size(id)?;
-        let header_size: u64 = crate::ilint::encoded_size(id) as u64 + size_info.0;
+        let header_size: u64 = id_size + size_info.0;
         let value_size: u64 = size_info.1;
         let bytes_to_skip: u64 = size_info.2;
         let offset = self.offset;
@@ -256,6 +257,23 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
         }
     }
 
+    /// Deserializes an ILInt. As the decoder also accepts values that do not
+    /// use the shortest encoding, the size must be taken from the data.
+    ///
+    /// Returns (u64, u64) where:
+    /// - 0: The value;
+    /// - 1: Number of bytes used by the encoded value;
+    fn deserialize_sized_ilint(&mut self) -> Result<(u64, u64)> {
+        let mut buff: [u8; 9] = [0; 9];
+        buff[0] = self.reader.read()?;
+        let size = crate::ilint::decoded_size(buff[0]);
+        if size > 1 {
+            self.reader.read_all(&mut buff[1..size])?;
+        }
+        let value = ByteArrayReader::new(&buff[..size]).deserialize_ilint()?;
+        Ok((value, size as u64))
+    }
+
     /// Extracts the size of the tag from the reader.
     ///
     /// Returns (u64, u64, u64) where:
@@ -275,12 +293,8 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
                 }
             }
         } else {
-            let value_size = self.reader.deserialize_ilint()?;
-            (
-                crate::ilint::encoded_size(value_size) as u64,
-                value_size,
-                value_size,
-            )
+            let (value_size, size_size) = self.deserialize_sized_ilint()?;
+            (size_size, value_size, value_size)
         })
     }
 
-- 
2.43.0

