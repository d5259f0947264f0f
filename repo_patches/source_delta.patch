From af3a47f7d2bde8063b214b58b8e700bc169f7e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:02 +0000
Subject: [PATCH 01/29] fix: limit write_to and mem_map of a file body to its
 length

A body made from a file with a length shorter than the file wrote out, and
mapped, the bytes beyond that length.
---
 body-image/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index ea14e3b..89d4446 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -53,14 +53,14 @@ use bytes::{Bytes, BytesMut, BufMut};
 
 use tao_log::{debug, warn};
 use olio::io::GatheringReader;
-use olio::fs::rc::{ReadPos, ReadSlice};
+use olio::fs::rc::ReadSlice;
 use tempfile::tempfile_in;
 
 #[cfg(feature = "mmap")] #[doc(hidden)] pub mod _mem_handle_ext;
 
 #[cfg(feature = "mmap")]
 use {
-    memmap::Mmap,
+    memmap::{Mmap, MmapOptions},
     olio::mem::{MemAdvice, MemHandle},
     _mem_handle_ext::MemHandleExt,
 };
@@ -522,7 +522,8 @@ impl BodyImage {
         let map = match self.state {
             ImageState::FsRead(ref file) => {
                 assert!(self.len > 0);
-                unsafe { Mmap::map(&file) }?
+                // Limit to len, as the file may be longer
+                unsafe { MmapOptions::new().len(self.len as usize).map(&file) }?
             }
             ImageState::FsReadSlice(ref rslice) => {
                 rslice.mem_map()?
@@ -675,7 +676,7 @@ impl BodyImage {
     }
 
     /// Write self to `out` and return length. If `FsRead` this is performed
-    /// using `std::io::copy` with `ReadPos` as input.
+    /// using `std::io::copy` with `ReadSlice` as input.
     ///
     /// The `Write` is passed by reference for backward compatibility with its
     /// original non-generic form as `&mut dyn Write`. [C-RW-VALUE] prefers
@@ -698,8 +699,9 @@ impl BodyImage {
                 mh.tmp_advise(MemAdvice::Sequential, || out.write_all(mh))?;
             }
             ImageState::FsRead(ref f) => {
-                let mut rp = ReadPos::new(f.clone(), self.len);
-                io::copy(&mut rp, out)?;
+                // Limit to len, as the file may be longer
+                let mut rs = ReadSlice::new(f.clone(), 0, self.len);
+                io::copy(&mut rs, out)?;
             }
             ImageState::FsReadSlice(ref rslice) => {
                 let mut rs = rslice.clone();
-- 
2.43.0


From 291f27feb628b48f0e33a0a817b40dc9fb449625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:44 +0000
Subject: [PATCH 02/29] fix: don't fail reads of a memory map because advice on
 it is refused

A map of a file range which isn't page aligned, e.g. a body within an archive,
could be mapped but writing it out or streaming it failed with EINVAL.
---
 body-image-futio/src/mem_map_buf.rs | 8 ++++----
 body-image-futio/src/stream.rs      | 2 +-
 body-image/src/_mem_handle_ext.rs   | 6 ++++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/body-image-futio/src/mem_map_buf.rs b/body-image-futio/src/mem_map_buf.rs
index 7d02cf9..3cece13 100644
--- a/body-image-futio/src/mem_map_buf.rs
+++ b/body-image-futio/src/mem_map_buf.rs
@@ -1,4 +1,3 @@
-use std::io;
 use std::ops::Deref;
 
 use bytes::Buf;
@@ -41,12 +40,13 @@ impl MemMapBuf {
 
     /// Advise that we will be sequentially accessing the memory map region,
     /// and that aggressive read-ahead is warranted.
-    pub(crate) fn advise_sequential(&self) -> Result<(), io::Error> {
-        let _new_advice = self.mm.advise(MemAdvice::Sequential)?;
+    ///
+    /// This is only a hint, and is refused when the region isn't page aligned.
+    pub(crate) fn advise_sequential(&self) {
+        let _new_advice = self.mm.advise(MemAdvice::Sequential);
         #[cfg(unix)] {
             debug!("MemMapBuf advise Sequential, obtained {:?}", _new_advice);
         }
-        Ok(())
     }
 }
 
diff --git a/body-image-futio/src/stream.rs b/body-image-futio/src/stream.rs
index 9b1478b..f61b384 100644
--- a/body-image-futio/src/stream.rs
+++ b/body-image-futio/src/stream.rs
@@ -64,7 +64,7 @@ impl OutputBuf for UniBodyBuf {
     #[cfg(feature = "mmap")]
     fn from_mmap(mmap: MemHandle<Mmap>) -> Result<Self, io::Error> {
         let buf = MemMapBuf::new(mmap);
-        buf.advise_sequential()?;
+        buf.advise_sequential();
         let _b = buf.chunk()[0];
         debug!("MemMap prepared for sequential read (len: {})", buf.remaining());
         Ok(UniBodyBuf::from_mmap(buf))
diff --git a/body-image/src/_mem_handle_ext.rs b/body-image/src/_mem_handle_ext.rs
index b54ae66..bc2872b 100644
--- a/body-image/src/_mem_handle_ext.rs
+++ b/body-image/src/_mem_handle_ext.rs
@@ -19,7 +19,9 @@ impl<T> MemHandleExt for MemHandle<T>
         where F: FnOnce() -> Result<R, S>,
               S: From<MemAdviseError>
     {
-        let _new_advice = self.advise(advice)?;
+        // Advice is only a hint, and is refused when the region isn't page
+        // aligned, so don't let that fail the access itself.
+        let _new_advice = self.advise(advice);
 
         #[cfg(unix)]
         {
@@ -28,7 +30,7 @@ impl<T> MemHandleExt for MemHandle<T>
         }
 
         let res = f();
-        self.advise(MemAdvice::Normal)?;
+        self.advise(MemAdvice::Normal).ok();
         res
     }
 }
-- 
2.43.0


From 93134594974803cd10683b70ad0827dd3382723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:24 +0000
Subject: [PATCH 03/29] fix: check the body limits while reading in, not only
 at end of input

BytesMut::remaining_mut is not limited by capacity, so BodyImage::read_from
buffered all of the input in RAM before applying max_body or max_body_ram. An
endless input was never refused.
---
 body-image/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 89d4446..93f70c5 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -650,7 +650,7 @@ impl BodyImage {
                 }
                 unsafe { buf.advance_mut(len); }
 
-                if buf.remaining_mut() < 1024 {
+                if buf.capacity() - buf.len() < 1024 {
                     break 'fill;
                 }
             }
-- 
2.43.0


From cc37025f0aa7a82b427e7cc797e029ddae0682bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:34 +0000
Subject: [PATCH 04/29] fix: count bytes already read when enforcing max_body
 on file bodies

Bytes read before moving from RAM to a file were not counted towards the
maximum.
---
 body-image/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 93f70c5..ec9e7ce 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -742,7 +742,7 @@ fn read_to_body_fs<R>(r: &mut R, mut body: BodySink, tune: &Tunables)
 {
     assert!(!body.is_ram());
 
-    let mut size: u64 = 0;
+    let mut size: u64 = body.len();
     let mut buf = BytesMut::with_capacity(tune.buffer_size_fs());
     loop {
         let b = unsafe { &mut *(
-- 
2.43.0


From 7617111dbc3637bf2fd7936f24465e8859dbe8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:07 +0000
Subject: [PATCH 05/29] fix: keep file body intact after a failed write to its
 sink

A partially failed write left the file position past the end of the body,
so that a later write was placed after a gap and bytes of the failed write
became part of the body.
---
 body-image/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index ec9e7ce..2e5baca 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -282,7 +282,7 @@ impl BodySink {
                 let buf = buf.as_ref();
                 let len = buf.len() as u64;
                 if len > 0 {
-                    f.write_all(buf)?;
+                    write_at_end(f, self.len, buf)?;
                     self.len += len;
                 }
             }
@@ -305,7 +305,7 @@ impl BodySink {
                     v.push(Bytes::copy_from_slice(buf));
                 }
                 SinkState::FsWrite(ref mut f) => {
-                    f.write_all(buf)?;
+                    write_at_end(f, self.len, buf)?;
                 }
             }
             self.len += len;
@@ -365,6 +365,13 @@ impl BodySink {
     }
 }
 
+// Write all of buf at len, the current end of the body. A prior, failed write
+// may have left the file position (and bytes) past that end.
+fn write_at_end(f: &mut File, len: u64, buf: &[u8]) -> Result<(), io::Error> {
+    f.seek(SeekFrom::Start(len))?;
+    f.write_all(buf)
+}
+
 impl Default for BodySink {
     fn default() -> BodySink { BodySink::empty() }
 }
-- 
2.43.0


From 04d891af67b3b5e8c4f2cd4778d1d7c27fb5e714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:59 +0000
Subject: [PATCH 06/29] fix: read back records with more than 128 headers

The writer accepts header blocks of any count up to the block size limit,
but the reader failed on more than 128 headers with TooManyHeaders.
---
 barc/src/lib.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index f4eb74f..9ec5274 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -593,6 +593,9 @@ impl Default for RecordType {
 
 const CRLF: &[u8] = b"\r\n";
 
+// Maximum distinct header names in an `http::HeaderMap`, which panics beyond.
+const MAX_HEADER_NAMES: usize = 24 * 1024;
+
 const WITH_CRLF: bool = true;
 const NO_CRLF:   bool = false;
 
@@ -1040,22 +1043,29 @@ fn read_headers<R>(rin: &mut R, with_crlf: bool, len: usize)
 
 // Parse header byte slice to HeaderMap.
 fn parse_headers(buf: &[u8]) -> Result<http::HeaderMap, BarcError> {
-    let mut headbuf = [httparse::EMPTY_HEADER; 128];
-
-    // FIXME: httparse will return TooManyHeaders if headbuf isn't
-    // large enough. Hyper 0.11.15 allocates 100, so 128 is room for
-    // _even more_ (sigh). Might be better to just replace this with
-    // our own parser, as the grammar isn't particularly complex.
+    // httparse will return TooManyHeaders if headbuf isn't large enough, so
+    // allocate for as many headers as there are lines.
+    let lines = buf.iter().filter(|b| **b == b'\n').count();
+    let mut headbuf = vec![httparse::EMPTY_HEADER; lines];
 
     match httparse::parse_headers(buf, &mut headbuf) {
         Ok(httparse::Status::Complete((size, heads))) => {
-            let mut hmap = http::HeaderMap::with_capacity(heads.len());
+            let mut hmap = http::HeaderMap::with_capacity(
+                cmp::min(heads.len(), MAX_HEADER_NAMES)
+            );
             assert_eq!(size, buf.len());
             for h in heads {
                 let name = h.name.parse::<HeaderName>()
                     .map_err(|e| BarcError::InvalidHeader(e.into()))?;
                 let value = HeaderValue::from_bytes(h.value)
                     .map_err(|e| BarcError::InvalidHeader(e.into()))?;
+                if hmap.keys_len() >= MAX_HEADER_NAMES &&
+                    !hmap.contains_key(&name)
+                {
+                    return Err(BarcError::InvalidHeader(
+                        Box::new(httparse::Error::TooManyHeaders)
+                    ));
+                }
                 hmap.append(name, value);
             }
             Ok(hmap)
-- 
2.43.0


From f9bc47af65c141d5f9434b78734fa50b646efe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:08 +0000
Subject: [PATCH 07/29] fix: remove the partial record left by a failed archive
 write

A failed write left a reserved head and part of a record in the file, so
that all records written later were out of reach of sequential reads.
---
 barc/src/lib.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 9ec5274..b534787 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -661,6 +661,26 @@ impl<'a> BarcWriter<'a> {
         rec: &dyn MetaRecorded,
         strategy: &dyn CompressStrategy)
         -> Result<u64, BarcError>
+    {
+        // BarcFile::writer() guarantees Some(File)
+        let start = self.guard.as_mut().unwrap().seek(SeekFrom::End(0))?;
+        let res = self.append(rec, strategy);
+        if res.is_err() {
+            // Remove any partial record, which would otherwise hide all
+            // subsequent records from sequential reads.
+            if let Err(e) = self.guard.as_mut().unwrap().set_len(start) {
+                warn!("Failed to remove partial record at {}: {}", start, e);
+            }
+        }
+        res
+    }
+
+    // Append a complete record to the end of file, returning its offset.
+    fn append(
+        &mut self,
+        rec: &dyn MetaRecorded,
+        strategy: &dyn CompressStrategy)
+        -> Result<u64, BarcError>
     {
         // BarcFile::writer() guarantees Some(File)
         let file: &mut File = self.guard.as_mut().unwrap();
@@ -690,8 +710,8 @@ impl<'a> BarcWriter<'a> {
         file.seek(SeekFrom::Start(start))?;
         write_record_head(file, &head)?;
 
-        // Seek to end and flush
-        file.seek(SeekFrom::End(0))?;
+        // The record is now visible to readers, and the next write will seek
+        // to end.
         file.flush()?;
 
         Ok(start)
-- 
2.43.0


From 7524f46b7c2d0d3b37715644ad81d102d0915578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:42 +0000
Subject: [PATCH 08/29] fix: retry interrupted writes of compressed records

The gzip encoder fails with an interrupted error when finishing, rather
than retrying the write.
---
 barc/src/compress.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/barc/src/compress.rs b/barc/src/compress.rs
index 2fb6f08..911f20c 100644
--- a/barc/src/compress.rs
+++ b/barc/src/compress.rs
@@ -374,9 +374,30 @@ pub struct EncodeWrapper<'a>(Encoder<'a>);
 
 enum Encoder<'a> {
     Plain(&'a File),
-    Gzip(Box<GzEncoder<&'a File>>),
+    Gzip(Box<GzEncoder<EncodeOut<'a>>>),
     #[cfg(feature = "brotli")]
-    Brotli(Box<brotli::CompressorWriter<&'a File>>)
+    Brotli(Box<brotli::CompressorWriter<EncodeOut<'a>>>)
+}
+
+// Output of encoders to file, which retries if interrupted. Not all encoders
+// do so themselves.
+struct EncodeOut<'a> {
+    file: &'a File,
+}
+
+impl<'a> Write for EncodeOut<'a> {
+    fn write(&mut self, buf: &[u8]) -> Result<usize, io::Error> {
+        loop {
+            match self.file.write(buf) {
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
+                r => return r
+            }
+        }
+    }
+
+    fn flush(&mut self) -> Result<(), io::Error> {
+        self.file.flush()
+    }
 }
 
 impl<'a> EncodeWrapper<'a> {
@@ -392,7 +413,7 @@ impl<'a> EncodeWrapper<'a> {
     {
         EncodeWrapper(Encoder::Gzip(Box::new(
             GzEncoder::new(
-                file,
+                EncodeOut { file },
                 GzCompression::new(compression_level))
         )))
     }
@@ -404,7 +425,7 @@ impl<'a> EncodeWrapper<'a> {
     {
         EncodeWrapper(Encoder::Brotli(Box::new(
             brotli::CompressorWriter::new(
-                file,
+                EncodeOut { file },
                 4096, //FIXME: tune?
                 compression_level,
                 21)
-- 
2.43.0


From ba71a496f42bee2b21446b93715c585c2123a14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:59 +0000
Subject: [PATCH 09/29] fix: report a failed write at the end of a Brotli
 compressed record

The Brotli encoder ignores errors of its final write, so that an unreadable
record was reported as written.
---
 barc/src/compress.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/barc/src/compress.rs b/barc/src/compress.rs
index 911f20c..dfc14e7 100644
--- a/barc/src/compress.rs
+++ b/barc/src/compress.rs
@@ -380,9 +380,11 @@ enum Encoder<'a> {
 }
 
 // Output of encoders to file, which retries if interrupted. Not all encoders
-// do so themselves.
+// do so themselves. Also keeps the kind of an error, as
+// `brotli::CompressorWriter` ignores those on finish.
 struct EncodeOut<'a> {
     file: &'a File,
+    error: Option<io::ErrorKind>,
 }
 
 impl<'a> Write for EncodeOut<'a> {
@@ -390,7 +392,10 @@ impl<'a> Write for EncodeOut<'a> {
         loop {
             match self.file.write(buf) {
                 Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
-                r => return r
+                r => {
+                    self.error = r.as_ref().err().map(|e| e.kind());
+                    return r;
+                }
             }
         }
     }
@@ -413,7 +418,7 @@ impl<'a> EncodeWrapper<'a> {
     {
         EncodeWrapper(Encoder::Gzip(Box::new(
             GzEncoder::new(
-                EncodeOut { file },
+                EncodeOut { file, error: None },
                 GzCompression::new(compression_level))
         )))
     }
@@ -425,7 +430,7 @@ impl<'a> EncodeWrapper<'a> {
     {
         EncodeWrapper(Encoder::Brotli(Box::new(
             brotli::CompressorWriter::new(
-                EncodeOut { file },
+                EncodeOut { file, error: None },
                 4096, //FIXME: tune?
                 compression_level,
                 21)
@@ -455,6 +460,9 @@ impl<'a> EncodeWrapper<'a> {
             #[cfg(feature = "brotli")]
             Encoder::Brotli(mut bcw) => {
                 bcw.flush()?;
+                if let Some(k) = bcw.into_inner().error {
+                    return Err(io::Error::from(k).into());
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 154eab84ef1e30e4ec516395b0502fae06f83584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:15 +0000
Subject: [PATCH 10/29] fix: leave the reader offset at a record which fails to
 be read

A failed read left the offset somewhere within the record, so that reading
again gave further errors instead of the record.
---
 barc/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index b534787..8cc5800 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -849,8 +849,22 @@ impl BarcReader {
     /// `max_body_ram` controls, depending on record sizes and compression,
     /// whether the request and response bodies are read directly into RAM,
     /// buffered in a file, or deferred via a `ReadSlice`.
+    ///
+    /// On error, the offset remains that of the record which failed to be
+    /// read.
     pub fn read(&mut self, tune: &Tunables)
         -> Result<Option<Record>, BarcError>
+    {
+        let start = self.file.tell();
+        let res = self.read_next(tune);
+        if res.is_err() {
+            self.file.seek(SeekFrom::Start(start))?;
+        }
+        res
+    }
+
+    fn read_next(&mut self, tune: &Tunables)
+        -> Result<Option<Record>, BarcError>
     {
         let fin = &mut self.file;
         let start = fin.tell();
-- 
2.43.0


From 27fba92bc344264cc1e1668fbbeccb772fe1bc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:14 +0000
Subject: [PATCH 11/29] fix: retry interrupted reads of compressed records

The gzip decoder fails on an interruption while reading its header.
---
 barc/src/compress.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/barc/src/compress.rs b/barc/src/compress.rs
index dfc14e7..ddae0eb 100644
--- a/barc/src/compress.rs
+++ b/barc/src/compress.rs
@@ -492,15 +492,31 @@ impl<'a> Write for EncodeWrapper<'a> {
 /// Wrapper holding a decoder (providing `Read`) on a `Take` limited
 /// to a record of a BARC file.
 pub(crate) enum DecodeWrapper {
-    Gzip(Box<GzDecoder<ReadSlice>>),
+    Gzip(Box<GzDecoder<DecodeIn>>),
     #[cfg(feature = "brotli")]
-    Brotli(Box<brotli::Decompressor<ReadSlice>>),
+    Brotli(Box<brotli::Decompressor<DecodeIn>>),
+}
+
+// Input of decoders, which retries if interrupted. Not all decoders do so
+// themselves.
+pub(crate) struct DecodeIn(ReadSlice);
+
+impl Read for DecodeIn {
+    fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
+        loop {
+            match self.0.read(buf) {
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
+                r => return r
+            }
+        }
+    }
 }
 
 impl DecodeWrapper {
     pub(crate) fn new(comp: Compression, r: ReadSlice, _buf_size: usize)
         -> Result<DecodeWrapper, BarcError>
     {
+        let r = DecodeIn(r);
         match comp {
             Compression::Gzip => {
                 Ok(DecodeWrapper::Gzip(Box::new(GzDecoder::new(r))))
-- 
2.43.0


From 63ba10adf40d2f7ae288d129466a64ad454ab68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:17 +0000
Subject: [PATCH 12/29] fix: return errors instead of panics for inconsistent
 record lengths

Lengths in a damaged record head, too small for their content or above the
record length, and header blocks ending early failed assertions or
overflowed.
---
 barc/src/lib.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 8cc5800..3c8339e 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -904,7 +904,9 @@ impl BarcReader {
         }?;
         let res_headers = read_headers(fin, WITH_CRLF, rhead.res_h)?;
 
-        let body_len = rhead.len - (fin.tell() - start - (V2_HEAD_SIZE as u64));
+        let body_len = rhead.len
+            .checked_sub(fin.tell() - start - (V2_HEAD_SIZE as u64))
+            .ok_or(BarcError::ReadInvalidRecHead)?;
 
         let res_body = if body_len <= tune.max_body_ram() {
             read_body_ram(fin, WITH_CRLF, body_len as usize)
@@ -1053,7 +1055,10 @@ fn read_headers<R>(rin: &mut R, with_crlf: bool, len: usize)
         return Ok(http::HeaderMap::with_capacity(0));
     }
 
-    assert!(len > 2);
+    // Invalid if too short for a header and CRLF
+    if len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
 
     let tlen = if with_crlf { len } else { len + 2 };
     let mut buf = BytesMut::with_capacity(tlen);
@@ -1087,7 +1092,11 @@ fn parse_headers(buf: &[u8]) -> Result<http::HeaderMap, BarcError> {
             let mut hmap = http::HeaderMap::with_capacity(
                 cmp::min(heads.len(), MAX_HEADER_NAMES)
             );
-            assert_eq!(size, buf.len());
+            if size != buf.len() {
+                return Err(BarcError::InvalidHeader(
+                    "header block ends before its length".into()
+                ));
+            }
             for h in heads {
                 let name = h.name.parse::<HeaderName>()
                     .map_err(|e| BarcError::InvalidHeader(e.into()))?;
@@ -1122,7 +1131,10 @@ fn read_body_ram<R>(rin: &mut R, with_crlf: bool, len: usize)
         return Ok(BodyImage::empty());
     }
 
-    assert!(!with_crlf || len > 2);
+    // Invalid if too short for a body and CRLF
+    if with_crlf && len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
 
     let mut buf = BytesMut::with_capacity(len);
     unsafe {
@@ -1192,7 +1204,11 @@ fn read_body_fs<R>(rin: &mut R, len: u64, tune: &Tunables)
 // Return `BodyImage::FsReadSlice` for an uncompressed body in file, at the
 // current offset of `ReadPos`, for the given length.
 fn slice_body(rp: &mut ReadPos, len: u64) -> Result<BodyImage, BarcError> {
-    assert!(len > 2);
+    // Invalid if too short for a body and CRLF
+    if len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
+
     let offset = rp.tell();
 
     // Seek past the body, as if read.
-- 
2.43.0


From 2c1a687957769816a11a0b61425caab95b0cba4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:45 +0000
Subject: [PATCH 13/29] fix: fail to read a record which is cut off by the end
 of file

A body beyond the end of file was returned with a length it does not have,
and memory mapping it would fault. A compressed request body with less than
its length was returned without error.
---
 barc/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 3c8339e..8db26aa 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -1184,7 +1184,7 @@ fn read_body_fs<R>(rin: &mut R, len: u64, tune: &Tunables)
             }
         };
         if rlen == 0 {
-            break;
+            return Err(io::Error::from(ErrorKind::UnexpectedEof).into());
         }
         unsafe { buf.advance_mut(rlen); }
         debug!("Write (Fs) buffer len {}", rlen);
@@ -1211,8 +1211,10 @@ fn slice_body(rp: &mut ReadPos, len: u64) -> Result<BodyImage, BarcError> {
 
     let offset = rp.tell();
 
-    // Seek past the body, as if read.
-    rp.seek(SeekFrom::Current(len as i64))?;
+    // Seek past the body, as if read, but actually read its CRLF, to fail
+    // if the file ends before that.
+    rp.seek(SeekFrom::Current(len as i64 - 2))?;
+    rp.read_exact(&mut [0u8; 2])?;
 
     let rslice = rp.subslice(offset, offset + len - 2); // - CRLF
 
-- 
2.43.0


From cc662e26db6713bf64cb2228a3a13271710e713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:53 +0000
Subject: [PATCH 14/29] fix: convert records of HTTP/3 responses back to a
 dialog

---
 barc/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 8db26aa..0c700c8 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -491,6 +491,7 @@ impl TryFrom<Record> for Dialog {
                 b"HTTP/1.0" => http::Version::HTTP_10,
                 b"HTTP/1.1" => http::Version::HTTP_11,
                 b"HTTP/2.0" => http::Version::HTTP_2,
+                b"HTTP/3.0" => http::Version::HTTP_3,
                 _ => {
                     return Err(DialogConvertError::InvalidVersion(vb.to_vec()));
                 }
-- 
2.43.0


From 185ab2e0ee52454fe31cf13e39ce20697a9b3e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:11 +0000
Subject: [PATCH 15/29] fix: convert records decoded to identity back to a
 dialog

---
 barc/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 0c700c8..4c81f7e 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -522,6 +522,8 @@ impl TryFrom<Record> for Dialog {
                         "deflate" => Encoding::Deflate,
                         "gzip"    => Encoding::Gzip,
                         "br"      => Encoding::Brotli,
+                        "compress" => Encoding::Compress,
+                        "identity" => Encoding::Identity,
                         _ => {
                             return Err(DialogConvertError::InvalidResDecoded(
                                 enc.to_string()
-- 
2.43.0


From 0bf2910cc2472859f00191138d8e60ab175ae1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:38 +0000
Subject: [PATCH 16/29] fix: fail a stream whose file ends before the body does

---
 body-image-futio/src/stream.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/body-image-futio/src/stream.rs b/body-image-futio/src/stream.rs
index f61b384..b4dcbe4 100644
--- a/body-image-futio/src/stream.rs
+++ b/body-image-futio/src/stream.rs
@@ -187,7 +187,11 @@ impl<B, BA> AsyncBodyImage<B, BA>
                 )};
                 loop {
                     match rs.read(&mut b[..rlen]) {
-                        Ok(0) => break Poll::Ready(None),
+                        Ok(0) => {
+                            // Bytes remain (avail), so the file was cut short
+                            let e = io::Error::from(io::ErrorKind::UnexpectedEof);
+                            break Poll::Ready(Some(Err(e)));
+                        }
                         Ok(len) => {
                             unsafe { buf.advance_mut(len); }
                             debug!("read chunk (len: {})", len);
-- 
2.43.0


From 47f02371c089ff0034c07dc016f5432acc2b265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:25 +0000
Subject: [PATCH 17/29] fix: find encodings named in other than lower case

---
 body-image-futio/src/decode.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/body-image-futio/src/decode.rs b/body-image-futio/src/decode.rs
index f225e75..4bdbc37 100644
--- a/body-image-futio/src/decode.rs
+++ b/body-image-futio/src/decode.rs
@@ -53,7 +53,7 @@ fn parse_encodings<'a>(
         Ok(encs) => for av in encs.iter().rev() {
             // check in reverse, since these are in order of application
             // and we want the last
-            match *av {
+            match lower_case(av) {
                 HyEncoding::Identity => {} //ignore
                 HyEncoding::Chunked  => chunked = true,
                 HyEncoding::Deflate  => res.push(Encoding::Deflate),
@@ -76,12 +76,23 @@ fn parse_encodings<'a>(
 pub fn find_chunked(headers: &http::HeaderMap) -> bool {
     if let Ok(v) = headers.decode::<TransferEncoding>() {
         for av in v.iter() {
-            if let HyEncoding::Chunked = *av { return true }
+            if let HyEncoding::Chunked = lower_case(av) { return true }
         }
     }
     false
 }
 
+// Encoding names are case-insensitive, but only lower case is recognized when
+// parsing headers.
+fn lower_case(av: &HyEncoding) -> HyEncoding {
+    if let HyEncoding::EncodingExt(ref s) = *av {
+        if let Ok(e) = s.to_ascii_lowercase().parse() {
+            return e;
+        }
+    }
+    av.clone()
+}
+
 /// Decode the response body of the provided `Dialog` compressed with any
 /// supported `Encoding`, updated the dialog accordingly.
 ///
-- 
2.43.0


From beb1c52d17cd8d2e757994f5839cdf141d5c186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:53 +0000
Subject: [PATCH 18/29] fix: retry interrupted reads when decoding a response
 body

The gzip decoder silently ends its output when interrupted.
---
 body-image-futio/src/decode.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/body-image-futio/src/decode.rs b/body-image-futio/src/decode.rs
index 4bdbc37..158157e 100644
--- a/body-image-futio/src/decode.rs
+++ b/body-image-futio/src/decode.rs
@@ -1,5 +1,7 @@
 //! Implementaiton module for finding encodings and decompression
 
+use std::io::{self, Read};
+
 use flate2::read::{DeflateDecoder, GzDecoder};
 use hyperx::header::{
     ContentEncoding, Encoding as HyEncoding,
@@ -7,7 +9,7 @@ use hyperx::header::{
 };
 use tao_log::{debug, warn};
 
-use body_image::{BodyImage, Dialog, Encoding, Recorded, Tunables};
+use body_image::{BodyImage, BodyReader, Dialog, Encoding, Recorded, Tunables};
 
 use crate::FutioError;
 
@@ -137,7 +139,7 @@ pub fn decode_res_body(dialog: &mut Dialog, tune: &Tunables)
 pub fn decompress(body: &BodyImage, compression: Encoding, tune: &Tunables)
     -> Result<BodyImage, FutioError>
 {
-    let reader = body.reader();
+    let reader = DecodeIn(body.reader());
     match compression {
         Encoding::Gzip => {
             let mut decoder = GzDecoder::new(reader);
@@ -163,6 +165,21 @@ pub fn decompress(body: &BodyImage, compression: Encoding, tune: &Tunables)
     }
 }
 
+// Input of decoders, which retries if interrupted. Not all decoders do so
+// themselves.
+struct DecodeIn<'a>(BodyReader<'a>);
+
+impl<'a> Read for DecodeIn<'a> {
+    fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
+        loop {
+            match self.0.read(buf) {
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
+                r => return r
+            }
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From e296ee08ede40024b84549f26f646909bf36eea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:02 +0000
Subject: [PATCH 19/29] fix: print the offset of the record itself when
 starting at an index

---
 barc-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 3928679..b929014 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -231,7 +231,7 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
     let mut offset = reader.offset();
     while let Some(rec) = reader.read(&tune)? {
         if let StartPos::Index(s) = *start {
-            if i < s { i += 1; continue; }
+            if i < s { i += 1; offset = reader.offset(); continue; }
         }
         i += 1;
         if i > count { break; }
-- 
2.43.0


From b9e8849a8c1787444afffcbc68274d94e98faf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:01 +0000
Subject: [PATCH 20/29] fix: don't include records skipped by --index in
 --count

---
 barc-cli/src/main.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index b929014..3a71654 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -187,6 +187,14 @@ enum StartPos {
     Offset(u64),
     Index(usize)
 }
+
+impl StartPos {
+    // Count of records to skip, which aren't included in --count
+    fn skip(&self) -> usize {
+        if let StartPos::Index(i) = *self { i } else { 0 }
+    }
+}
+
 impl Default for StartPos {
     fn default() -> StartPos { StartPos::Index(0) }
 }
@@ -227,12 +235,11 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
     }
     let fout = &mut io::stdout();
     let nl = true;
+    let mut skip = start.skip();
     let mut i = 0;
     let mut offset = reader.offset();
     while let Some(rec) = reader.read(&tune)? {
-        if let StartPos::Index(s) = *start {
-            if i < s { i += 1; offset = reader.offset(); continue; }
-        }
+        if skip > 0 { skip -= 1; offset = reader.offset(); continue; }
         i += 1;
         if i > count { break; }
         println!("====== file {:-<38} offset {:#012x} ======",
@@ -270,11 +277,10 @@ fn cp(
     let bfout = BarcFile::new(barc_out);
     let mut writer = bfout.writer()?;
 
+    let mut skip = start.skip();
     let mut i = 0;
     while let Some(record) = reader.read(&tune)? {
-        if let StartPos::Index(s) = *start {
-            if i < s { i += 1; continue; }
-        }
+        if skip > 0 { skip -= 1; continue; }
         i += 1;
         if i > count { break; }
         writer.write(&record, strategy)?;
-- 
2.43.0


From c47d4df7b3e9dbdd9d2bae7ee0936bc6d66f79a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:48 +0000
Subject: [PATCH 21/29] fix: refuse to copy to an output which is any of the
 inputs

The output may be named differently than the input, e.g. by a link. Check
before writing anything.
---
 barc-cli/src/main.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 3a71654..e4f3057 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -4,6 +4,7 @@
 
 use std::error::Error as StdError;
 use std::fmt;
+use std::fs;
 use std::io;
 use std::process;
 
@@ -78,6 +79,11 @@ fn run() -> Result<(), Flaw> {
             let files = subm.values_of("file").unwrap();
             let fout = subm.value_of("out-file").unwrap();
             let (start, count) = filter_flags(subm)?;
+            for fin in files.clone() {
+                if same_file(fin, fout) {
+                    quit!("BARC input and output file are the same: {}", fin);
+                }
+            }
             for fin in files {
                 cp(fin, fout, &start, count, cs.as_ref())?;
             }
@@ -265,9 +271,6 @@ fn cp(
     strategy: &dyn CompressStrategy)
     -> Result<(), Flaw>
 {
-    if barc_in == barc_out {
-        quit!("BARC input and output file are the same: {}", barc_in);
-    }
     let bfin = BarcFile::new(barc_in);
     let tune = Tunables::new();
     let mut reader = bfin.reader()?;
@@ -289,6 +292,20 @@ fn cp(
     Ok(())
 }
 
+// Return true if both paths are, or lead to, the same file.
+fn same_file(a: &str, b: &str) -> bool {
+    #[cfg(unix)] {
+        use std::os::unix::fs::MetadataExt;
+        if let (Ok(a), Ok(b)) = (fs::metadata(a), fs::metadata(b)) {
+            return a.dev() == b.dev() && a.ino() == b.ino();
+        }
+    }
+    match (fs::canonicalize(a), fs::canonicalize(b)) {
+        (Ok(a), Ok(b)) => a == b,
+        _ => a == b
+    }
+}
+
 // Container for dynamically generated help text, to appease Clap's str
 // reference help text lifetimes.
 struct VarHelp {
-- 
2.43.0


From b218a53115f0bda940d3d7a90aa5210fb318bde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:55:34 +0000
Subject: [PATCH 22/29] fix: call request_dialog in the context of the runtime
 in fetch

Timeouts are constructed when request_dialog is called and not when the
future is first polled. This panicked, as fetch called it outside of the
context of its runtime, for any tunables with a response timeout.
---
 body-image-futio/src/fetch.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/body-image-futio/src/fetch.rs b/body-image-futio/src/fetch.rs
index 1d3657d..7592ddf 100644
--- a/body-image-futio/src/fetch.rs
+++ b/body-image-futio/src/fetch.rs
@@ -38,6 +38,9 @@ pub fn fetch<B>(rr: RequestRecord<B>, tune: FutioTunables)
     let connector = hyper_tls::HttpsConnector::new();
     let client = hyper::Client::builder().build(connector);
 
+    // Timeouts are constructed here, which requires the runtime context
+    let _guard = rt.enter();
+
     let join = rt.spawn(request_dialog(&client, rr, tune));
     rt.block_on(join)
         .map_err(|e| FutioError::Other(Box::new(e)))?
-- 
2.43.0


From 81df33269a7b7d21a2580c5dcc1ec52253b71e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:05:57 +0000
Subject: [PATCH 23/29] fix: fail writing out a body if its file was cut short

Previously write_to returned the expected length as if all of it had been
written. BarcWriter then panicked (plain) or wrote a damaged record
(compressed).
---
 body-image/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 2e5baca..f9689e4 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -708,17 +708,29 @@ impl BodyImage {
             ImageState::FsRead(ref f) => {
                 // Limit to len, as the file may be longer
                 let mut rs = ReadSlice::new(f.clone(), 0, self.len);
-                io::copy(&mut rs, out)?;
+                copy_exact(&mut rs, out, self.len)?;
             }
             ImageState::FsReadSlice(ref rslice) => {
                 let mut rs = rslice.clone();
-                io::copy(&mut rs, out)?;
+                copy_exact(&mut rs, out, self.len)?;
             }
         }
         Ok(self.len)
     }
 }
 
+// Copy all of the slice, of the given length, to out. Fails if the underlying
+// file was cut short.
+fn copy_exact<W>(rs: &mut ReadSlice, out: &mut W, len: u64)
+    -> Result<(), io::Error>
+    where W: Write + ?Sized
+{
+    if io::copy(rs, out)? < len {
+        return Err(ErrorKind::UnexpectedEof.into());
+    }
+    Ok(())
+}
+
 // Create a new `FsRead` instance based on an existing `File`.
 fn image_from_file(file: File, length: u64) -> BodyImage {
     if length > 0 {
-- 
2.43.0


From 4d9996fda1f8f2859c78b90ce585aeff95d06961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:11:45 +0000
Subject: [PATCH 24/29] fix: start at the beginning of a ReadSlice already read
 from

The position of the slice was kept by BodyImage::from_read_slice, so that
readers and streams skipped the part before it, while len included it.
---
 body-image/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index f9689e4..c37480c 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -747,6 +747,8 @@ fn image_from_file(file: File, length: u64) -> BodyImage {
 fn image_from_read_slice(rslice: ReadSlice) -> BodyImage {
     let len = rslice.len();
     if len > 0 {
+        // From start, regardless of the current position of rslice
+        let rslice = rslice.subslice(0, len);
         BodyImage { state: ImageState::FsReadSlice(rslice), len }
     } else {
         BodyImage::empty()
-- 
2.43.0


From 2702f7743008dee41b49b20c92eccaebc4c8d375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:22:54 +0000
Subject: [PATCH 25/29] fix: return an error for records exceeding the format's
 size limits

The writer panicked, leaving part of a record behind which hid all later
records from sequential reads. Header blocks may also be printed beyond
the limit, as with the CRLF added for a block read from a compressed
record.
---
 barc/src/lib.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 4c81f7e..055c679 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -737,15 +737,26 @@ fn write_record(
         let meta = write_headers(fout, with_crlf, rec.meta())?;
 
         let req_h = write_headers(fout, with_crlf, rec.req_headers())?;
+        let crlf = if with_crlf { CRLF.len() as u64 } else { 0 };
+        if rec.req_body().len() > V2_MAX_REQ_BODY - crlf {
+            return Err(BodyError::BodyTooLong(rec.req_body().len()).into());
+        }
         let req_b = write_body(fout, with_crlf, rec.req_body())?;
 
         let res_h = write_headers(fout, with_crlf, rec.res_headers())?;
 
+        if cmp::max(meta, cmp::max(req_h, res_h)) > V2_MAX_HBLOCK {
+            return Err(BarcError::InvalidHeader(
+                "header block exceeds size limit".into()
+            ));
+        }
+
         // Compute total thus far, excluding the fixed head length
         let mut len: u64 = (meta + req_h + res_h) as u64 + req_b;
 
-        assert!((len + rec.res_body().len() + 2) <= V2_MAX_RECORD,
-                "body exceeds size limit");
+        if rec.res_body().len() > V2_MAX_RECORD - len - crlf {
+            return Err(BodyError::BodyTooLong(rec.res_body().len()).into());
+        }
 
         let res_b = write_body(fout, with_crlf, rec.res_body())?;
         len += res_b;
@@ -814,7 +825,6 @@ pub fn write_headers<W>(
     if with_crlf && size > 0 {
         size += write_all_len(out, CRLF)?;
     }
-    assert!(size <= V2_MAX_HBLOCK);
     Ok(size)
 }
 
-- 
2.43.0


From de9ce1d3fde4fa945bcefc7c2328e30987a7a6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:23:30 +0000
Subject: [PATCH 26/29] fix: don't read beyond the records selected by --count

A damaged record following those selected failed barc cat and cp.
---
 barc-cli/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index e4f3057..ee3dfd1 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -244,10 +244,10 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
     let mut skip = start.skip();
     let mut i = 0;
     let mut offset = reader.offset();
-    while let Some(rec) = reader.read(&tune)? {
+    while i < count {
+        let rec = if let Some(r) = reader.read(&tune)? { r } else { break };
         if skip > 0 { skip -= 1; offset = reader.offset(); continue; }
         i += 1;
-        if i > count { break; }
         println!("====== file {:-<38} offset {:#012x} ======",
                  barc_path, offset);
         if parts.meta     { write_headers(fout, nl, rec.meta())?; }
@@ -282,10 +282,10 @@ fn cp(
 
     let mut skip = start.skip();
     let mut i = 0;
-    while let Some(record) = reader.read(&tune)? {
+    while i < count {
+        let record = if let Some(r) = reader.read(&tune)? { r } else { break };
         if skip > 0 { skip -= 1; continue; }
         i += 1;
-        if i > count { break; }
         writer.write(&record, strategy)?;
     }
 
-- 
2.43.0


From 63e3e1161443ff0ec3f2e75bccd9070ad0470bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:49:41 +0000
Subject: [PATCH 27/29] fix: report the remaining length as size hint of a
 stream

http_body::Body::size_hint is the bounds on the remaining length of the
stream, but the length of the whole body was returned throughout.
---
 body-image-futio/src/stream.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/body-image-futio/src/stream.rs b/body-image-futio/src/stream.rs
index b4dcbe4..0efc4a5 100644
--- a/body-image-futio/src/stream.rs
+++ b/body-image-futio/src/stream.rs
@@ -338,7 +338,7 @@ impl<B, BA> http_body::Body for AsyncBodyImage<B, BA>
     }
 
     fn size_hint(&self) -> http_body::SizeHint {
-        http_body::SizeHint::with_exact(self.len)
+        http_body::SizeHint::with_exact(self.len - self.consumed)
     }
 
     fn is_end_stream(&self) -> bool {
@@ -464,7 +464,7 @@ pub struct DispatchBodyImage<B>
     where B: OutputBuf
 {
     state: DispatchState<B>,
-    len: u64,
+    remaining: u64,
 }
 
 type DispatchReturn<B> = (
@@ -484,10 +484,10 @@ impl<B> StreamWrapper for DispatchBodyImage<B>
     where B: OutputBuf
 {
     fn new(body: BodyImage, tune: FutioTunables) -> Self {
-        let len = body.len();
+        let remaining = body.len();
         DispatchBodyImage {
             state: DispatchState::Image(Some(AsyncBodyImage::new(body, tune))),
-            len,
+            remaining,
         }
     }
 }
@@ -515,6 +515,7 @@ impl<B> Stream for DispatchBodyImage<B>
                     // Recurse for correct waking
                     return Pin::new(this).poll_next(cx);
                 }
+                this.remaining = ob.len - ob.consumed;
                 res
             }
             DispatchState::Dispatch(ref mut db) => {
@@ -524,6 +525,7 @@ impl<B> Stream for DispatchBodyImage<B>
                     Poll::Ready(Ok((res, ob))) => (res, ob),
                 };
                 debug_assert_eq!(ob.arbiter.state(), Blocking::Void);
+                this.remaining = ob.len - ob.consumed;
                 this.state = DispatchState::Image(Some(ob));
                 res
             }
@@ -550,7 +552,7 @@ impl<B> http_body::Body for DispatchBodyImage<B>
     }
 
     fn size_hint(&self) -> http_body::SizeHint {
-        http_body::SizeHint::with_exact(self.len)
+        http_body::SizeHint::with_exact(self.remaining)
     }
 
     fn is_end_stream(&self) -> bool {
-- 
2.43.0


From d10881a1008923efd0642665e24886c46d088bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:33:11 +0000
Subject: [PATCH 28/29] fix: decode all members of a gzip encoded body

Only the first member was decoded, and the rest of the body dropped
without error.
---
 body-image-futio/src/decode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/body-image-futio/src/decode.rs b/body-image-futio/src/decode.rs
index 158157e..f9c873c 100644
--- a/body-image-futio/src/decode.rs
+++ b/body-image-futio/src/decode.rs
@@ -2,7 +2,7 @@
 
 use std::io::{self, Read};
 
-use flate2::read::{DeflateDecoder, GzDecoder};
+use flate2::read::{DeflateDecoder, MultiGzDecoder};
 use hyperx::header::{
     ContentEncoding, Encoding as HyEncoding,
     Header, TransferEncoding, TypedHeaders
@@ -142,7 +142,7 @@ pub fn decompress(body: &BodyImage, compression: Encoding, tune: &Tunables)
     let reader = DecodeIn(body.reader());
     match compression {
         Encoding::Gzip => {
-            let mut decoder = GzDecoder::new(reader);
+            let mut decoder = MultiGzDecoder::new(reader);
             let len_est = body.len() * u64::from(tune.size_estimate_gzip());
             Ok(BodyImage::read_from(&mut decoder, len_est, tune)?)
         }
-- 
2.43.0


From 9d4472aa20714de1208afa666a287d3a29efead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:35:39 +0000
Subject: [PATCH 29/29] fix: limit the buffers allocated ahead by
 BodySink::with_ram

The size estimate may be a claimed content length, or the RAM limit itself
for responses without one. If that is set very high (no limit), the
allocation failed and aborted the process.
---
 body-image/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index c37480c..b5d316f 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -39,6 +39,7 @@
 
 #![warn(rust_2018_idioms)]
 
+use std::cmp;
 use std::error::Error as StdError;
 use std::env;
 use std::fmt;
@@ -204,8 +205,9 @@ impl BodySink {
         if size_estimate == 0 {
             BodySink::empty()
         } else {
-            // Estimate buffers based an 8 KiB buffer size + 1.
-            let cap = (size_estimate / 0x2000 + 1) as usize;
+            // Estimate buffers based an 8 KiB buffer size + 1. Limited, as the
+            // estimate may be no more than a claim or an upper bound.
+            let cap = cmp::min(size_estimate / 0x2000 + 1, 0x1000) as usize;
             BodySink::with_ram_buffers(cap)
         }
     }
-- 
2.43.0

