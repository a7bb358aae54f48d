From 16f238db1711f1b0d00b671609b8bf47b553070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 01/13] fix: keep decoding LZW data after clear codes

weezl returns early from decode_bytes at every clear code. That was
mistaken for being unable to make progress, so data following two
consecutive clear codes was dropped depending on how the input was
chunked, and FrameDecoder reported small frames as truncated.
---
 src/reader/decoder.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 35994f3..6c75986 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -227,7 +227,7 @@ impl FrameDecoder {
             loop {
                 let (bytes_read, bytes_written) = lzw_reader.decode_bytes(data, out)?;
                 data = data.get(bytes_read..).unwrap_or_default();
-                if bytes_written > 0 || bytes_read == 0 || data.is_empty() {
+                if bytes_written > 0 || bytes_read == 0 {
                     return Ok(bytes_written);
                 }
             }
@@ -294,20 +294,29 @@ impl LzwReader {
             OutputBuffer::Vec(_) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
 
-        let decoded = decoder.decode_bytes(lzw_data, decode_buffer);
-
-        match decoded.status {
-            Ok(LzwStatus::Done | LzwStatus::Ok) => {},
-            Ok(LzwStatus::NoProgress) => {
-                if self.check_for_end_code {
-                    return Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"));
+        let mut consumed = 0;
+        let mut written = 0;
+        loop {
+            let decoded = decoder.decode_bytes(&lzw_data[consumed..], &mut decode_buffer[written..]);
+            consumed += decoded.consumed_in;
+            written += decoded.consumed_out;
+
+            match decoded.status {
+                // The LZW decoder returns early at every clear code, possibly without having
+                // consumed or written anything, even though it can still make progress.
+                Ok(LzwStatus::Ok) if written < decode_buffer.len() => continue,
+                Ok(LzwStatus::Done | LzwStatus::Ok) => {},
+                Ok(LzwStatus::NoProgress) => {
+                    if self.check_for_end_code && consumed == 0 && written == 0 {
+                        return Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"));
+                    }
+                },
+                Err(err @ LzwError::InvalidCode) => {
+                    return Err(io::Error::new(io::ErrorKind::InvalidData, err));
                 }
-            },
-            Err(err @ LzwError::InvalidCode) => {
-                return Err(io::Error::new(io::ErrorKind::InvalidData, err));
             }
+            return Ok((consumed, written));
         }
-        Ok((decoded.consumed_in, decoded.consumed_out))
     }
 }
 
-- 
2.43.0


From 237e3c80a2be0ca265801b85beb2c7d15fc39782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 02/13] fix: look for the LZW end code in discarded frame data

With check_lzw_end_code(true), files with correct end codes were rejected
when the frame's data was skipped, or when the input was chunked such that
the end code arrived after all of the frame's pixels.
---
 src/reader/decoder.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 6c75986..6edc5dc 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -318,6 +318,21 @@ impl LzwReader {
             return Ok((consumed, written));
         }
     }
+
+    /// Consumes the data without keeping the pixels.
+    ///
+    /// It's decoded anyway if the end code has to be found. Empty `lzw_data` marks the end of the data.
+    fn discard_bytes(&mut self, lzw_data: &[u8]) -> io::Result<usize> {
+        if !self.check_for_end_code {
+            return Ok(lzw_data.len());
+        }
+        let mut consumed = 0;
+        let mut pixels = [0; 256];
+        while !self.has_ended() && (consumed < lzw_data.len() || lzw_data.is_empty()) {
+            consumed += self.decode_bytes(&lzw_data[consumed..], &mut OutputBuffer::Slice(&mut pixels))?.0;
+        }
+        Ok(lzw_data.len())
+    }
 }
 
 /// GIF decoder which emits [low-level events](Decoded) for items in the GIF file
@@ -750,9 +765,13 @@ impl StreamingDecoder {
                 debug_assert!(!self.skip_frame_decoding);
                 if left > 0 {
                     let n = cmp::min(left, buf.len());
-                    if self.lzw_reader.has_ended() || matches!(write_into, OutputBuffer::None) {
+                    if self.lzw_reader.has_ended() {
                         return goto!(n, DecodeSubBlock(left - n), emit Decoded::Nothing);
                     }
+                    if matches!(write_into, OutputBuffer::None) {
+                        let consumed = self.lzw_reader.discard_bytes(&buf[..n])?;
+                        return goto!(consumed, DecodeSubBlock(left - consumed), emit Decoded::Nothing);
+                    }
 
                     let (mut consumed, bytes_len) = self.lzw_reader.decode_bytes(&buf[..n], write_into)?;
 
@@ -770,6 +789,9 @@ impl StreamingDecoder {
                 } else if b != 0 {
                     // decode next sub-block
                     goto!(DecodeSubBlock(b as usize))
+                } else if matches!(write_into, OutputBuffer::None) {
+                    self.lzw_reader.discard_bytes(&[])?;
+                    goto!(0, FrameDecoded)
                 } else {
                     let (_, bytes_len) = self.lzw_reader.decode_bytes(&[], write_into)?;
 
-- 
2.43.0


From 0017bf7d79693714006a60fd923a2dc4acba776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 03/13] fix: parse extensions without any sub-blocks

The block terminator was consumed as the length of the first sub-block,
so the rest of the file was misparsed.
---
 src/reader/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 6edc5dc..bd1d583 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -685,7 +685,8 @@ impl StreamingDecoder {
             }
             ExtensionBlockStart => {
                 self.ext.data.push(b);
-                goto!(ExtensionDataBlock(b as usize))
+                // 0 is the block terminator, and has to be left for ExtensionDataBlock
+                goto!(usize::from(b != 0), ExtensionDataBlock(b as usize))
             }
             ExtensionDataBlock(left) => {
                 if left > 0 {
-- 
2.43.0


From 22e854c7b0c0a7200db40b530a8f11f22156f785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 04/13] fix: parse images without any sub-blocks

The block terminator was consumed as the length of the first sub-block,
so the decoder got out of sync with the rest of the file.
---
 src/reader/decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index bd1d583..a67c76b 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -741,13 +741,14 @@ impl StreamingDecoder {
                 }
             }
             LzwInit(min_code_size) => {
+                // b is the length of the first sub-block, or the terminator which is consumed later
                 if !self.skip_frame_decoding {
                     // Reset validates the min code size
                     self.lzw_reader.reset(min_code_size)?;
-                    goto!(DecodeSubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Pixels))
+                    goto!(usize::from(b != 0), DecodeSubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Pixels))
                 } else {
                     LzwReader::check_code_size(min_code_size)?;
-                    goto!(CopySubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Lzw { min_code_size }))
+                    goto!(usize::from(b != 0), CopySubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Lzw { min_code_size }))
                 }
             }
             CopySubBlock(left) => {
-- 
2.43.0


From 3b759bff1aeb6ce4f2f57b99ea1fe36f978c3903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 05/13] fix: accept files with no blocks before the trailer

Such files, as written by an Encoder given no frames, failed with
UnexpectedEof, or made the decoder consume a byte after the trailer.
---
 src/reader/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index a67c76b..176521e 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -637,7 +637,9 @@ impl StreamingDecoder {
                     }
                     goto!(n, GlobalPalette(left - n))
                 } else {
-                    goto!(BlockStart(b), emit Decoded::GlobalPalette(
+                    // can't consume the trailer yet, same as in BlockEnd
+                    let n = usize::from(b != Block::Trailer as u8);
+                    goto!(n, BlockStart(b), emit Decoded::GlobalPalette(
                         mem::take(&mut self.global_color_table).into_boxed_slice()
                     ))
                 }
-- 
2.43.0


From b9fa2d31da7bc44638846228e54f7152e883d558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 06/13] fix: don't interpret unknown blocks as the previous
 extension

Data of an unknown block was appended to the last extension's data and
handled as that extension. A block with no sub-blocks also lost sync.
---
 src/reader/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 176521e..47686e7 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -669,7 +669,9 @@ impl StreamingDecoder {
                     }
                     None => {
                         if self.allow_unknown_blocks {
-                            goto!(ExtensionDataBlock(b as usize))
+                            self.ext.data.clear();
+                            self.ext.id = AnyExtension(0);
+                            goto!(usize::from(b != 0), ExtensionDataBlock(b as usize))
                         } else {
                             Err(DecodingError::format("unknown block type encountered"))
                         }
-- 
2.43.0


From 0a12052190000c751ba95d985fca89a7b1695cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 07/13] fix: decode frames with zero pixels

They were reported as truncated, and filling an empty buffer discarded the
data of the frame.
---
 src/reader/converter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader/converter.rs b/src/reader/converter.rs
index dbc80df..20f36a8 100644
--- a/src/reader/converter.rs
+++ b/src/reader/converter.rs
@@ -90,6 +90,9 @@ impl PixelConverter {
     /// Use `read_into_buffer` to deinterlace
     #[inline(never)]
     pub(crate) fn fill_buffer(&mut self, current_frame: &Frame<'_>, mut buf: &mut [u8], data_callback: FillBufferCallback<'_>) -> Result<bool, DecodingError> {
+        if buf.is_empty() {
+            return Ok(true);
+        }
         loop {
             let decode_into = match self.color_output {
                 // When decoding indexed data, LZW can write the pixels directly
-- 
2.43.0


From a49c5f1be064edabc09bfe3bbb42001acc2b334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 08/13] fix: don't end iteration at a frame with zero pixels

The iterator claims to be fused, but returned None in the middle.
---
 src/reader/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 8911d8e..c51040b 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -363,11 +363,8 @@ impl<R> Decoder<R> where R: Read {
     }
 
     /// This is private for iterator's use
-    fn take_current_frame(&mut self) -> Option<Frame<'static>> {
-        if self.current_frame.buffer.is_empty() {
-            return None;
-        }
-        Some(self.current_frame.take())
+    fn take_current_frame(&mut self) -> Frame<'static> {
+        self.current_frame.take()
     }
 
     /// Reads the data of the current frame into a pre-allocated buffer.
@@ -496,7 +493,7 @@ impl<R: Read> Iterator for DecoderIter<R> {
     fn next(&mut self) -> Option<Self::Item> {
         if !self.ended {
             match self.inner.read_next_frame() {
-                Ok(Some(_)) => self.inner.take_current_frame().map(Ok),
+                Ok(Some(_)) => Some(Ok(self.inner.take_current_frame())),
                 Ok(None) => {
                     self.ended = true;
                     None
-- 
2.43.0


From 91235a731ef4a0c6b3883b645ee42d04ef047e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 09/13] fix: infinite loop in StreamingDecoder::update after
 the trailer

---
 src/reader/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 47686e7..c246ec3 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -814,7 +814,8 @@ impl StreamingDecoder {
                 debug_assert_eq!(0, b);
                 goto!(BlockEnd, emit Decoded::DataEnd)
             }
-            Trailer => goto!(0, Trailer, emit Decoded::Nothing),
+            // consumes everything, so that update() isn't stuck in a loop
+            Trailer => goto!(buf.len(), Trailer, emit Decoded::Nothing),
         }
     }
 
-- 
2.43.0


From 202821c61b5ebc1c90663edf9208bba051af7a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:14 +0000
Subject: [PATCH 10/13] fix: don't exceed memory limit when skipping frame
 decoding

Up to 1GB was reserved based only on the frame's declared size.
---
 src/reader/converter.rs |  5 +++++
 src/reader/mod.rs       | 10 +++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/reader/converter.rs b/src/reader/converter.rs
index 20f36a8..5663101 100644
--- a/src/reader/converter.rs
+++ b/src/reader/converter.rs
@@ -55,6 +55,11 @@ impl PixelConverter {
         Ok(pixel_bytes)
     }
 
+    #[inline]
+    pub(crate) fn memory_limit(&self) -> &MemoryLimit {
+        &self.memory_limit
+    }
+
     #[inline]
     pub(crate) fn read_frame(&mut self, frame: &mut Frame<'_>, data_callback: FillBufferCallback<'_>) -> Result<(), DecodingError> {
         let pixel_bytes = self.check_buffer_size(frame)?;
diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index c51040b..18c05bd 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -60,6 +60,13 @@ impl MemoryLimit {
         }
     }
 
+    fn clamp(&self, size: usize) -> usize {
+        match self {
+            Self::Unlimited => size,
+            Self::Bytes(limit) => usize::try_from(limit.get()).map_or(size, |limit| size.min(limit)),
+        }
+    }
+
     fn buffer_size(&self, color: ColorOutput, width: u16, height: u16) -> Option<usize> {
         let pixels = u64::from(width) * u64::from(height);
 
@@ -350,7 +357,8 @@ impl<R> Decoder<R> where R: Read {
                         Vec::new()
                     };
                     // Guesstimate 2bpp
-                    vec.try_reserve(usize::from(self.current_frame.width) * usize::from(self.current_frame.height) / 4)
+                    let size = usize::from(self.current_frame.width) * usize::from(self.current_frame.height) / 4;
+                    vec.try_reserve(self.pixel_converter.memory_limit().clamp(size))
                         .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
                     self.copy_lzw_into_buffer(min_code_size, &mut vec)?;
                     self.current_frame.buffer = Cow::Owned(vec);
-- 
2.43.0


From 3e83b04edb661b9285c13e335de30ae6a9fd98bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:14 +0000
Subject: [PATCH 11/13] fix: make all pixels with zero alpha transparent in
 from_rgba

If transparent pixels had various colors, only one of the colors ended up
as transparent in the frame.
---
 src/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 2458d06..e02cf76 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -218,7 +218,8 @@ impl Frame<'static> {
             if pix[3] != 0 {
                 pix[3] = 0xFF;
             } else {
-                transparent = Some([pix[0], pix[1], pix[2], pix[3]]);
+                // There can be only one transparent color
+                pix.copy_from_slice(transparent.get_or_insert([pix[0], pix[1], pix[2], pix[3]]));
             }
         }
 
-- 
2.43.0


From 364b641308b58b8a2d4b1d5e6b70f2156936e6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 12/13] fix: LZW pixels lost when the decoder holds a pending
 code

---
 src/reader/decoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index c246ec3..781a20f 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -296,8 +296,11 @@ impl LzwReader {
 
         let mut consumed = 0;
         let mut written = 0;
+        let mut stalled = false;
         loop {
             let decoded = decoder.decode_bytes(&lzw_data[consumed..], &mut decode_buffer[written..]);
+            let was_stalled = stalled;
+            stalled = decoded.consumed_in == 0 && decoded.consumed_out == 0;
             consumed += decoded.consumed_in;
             written += decoded.consumed_out;
 
@@ -305,6 +308,9 @@ impl LzwReader {
                 // The LZW decoder returns early at every clear code, possibly without having
                 // consumed or written anything, even though it can still make progress.
                 Ok(LzwStatus::Ok) if written < decode_buffer.len() => continue,
+                // It may have moved a code from its bit buffer to its output buffer, which counts as
+                // no progress, so it's stuck only if that happens again.
+                Ok(LzwStatus::NoProgress) if stalled && !was_stalled && written < decode_buffer.len() => continue,
                 Ok(LzwStatus::Done | LzwStatus::Ok) => {},
                 Ok(LzwStatus::NoProgress) => {
                     if self.check_for_end_code && consumed == 0 && written == 0 {
-- 
2.43.0


From 3fb9f1aee2d1f7871290c2f0de753a4b451fa930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 13/13] fix: return pixels which are already decoded before
 reading more

---
 src/reader/decoder.rs | 26 ++++++++++++++++++++------
 src/reader/mod.rs     |  4 ++++
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 781a20f..0abc71b 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -286,6 +286,16 @@ impl LzwReader {
     }
 
     pub fn decode_bytes(&mut self, lzw_data: &[u8], decode_buffer: &mut OutputBuffer<'_>) -> io::Result<(usize, usize)> {
+        match self.decode_available_bytes(lzw_data, decode_buffer)? {
+            (0, 0) if self.check_for_end_code && !self.has_ended() => {
+                Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"))
+            },
+            res => Ok(res),
+        }
+    }
+
+    /// Unlike `decode_bytes`, it's fine if there's nothing to decode.
+    fn decode_available_bytes(&mut self, lzw_data: &[u8], decode_buffer: &mut OutputBuffer<'_>) -> io::Result<(usize, usize)> {
         let decoder = self.decoder.as_mut().ok_or(io::ErrorKind::Unsupported)?;
 
         let decode_buffer = match decode_buffer {
@@ -311,12 +321,7 @@ impl LzwReader {
                 // It may have moved a code from its bit buffer to its output buffer, which counts as
                 // no progress, so it's stuck only if that happens again.
                 Ok(LzwStatus::NoProgress) if stalled && !was_stalled && written < decode_buffer.len() => continue,
-                Ok(LzwStatus::Done | LzwStatus::Ok) => {},
-                Ok(LzwStatus::NoProgress) => {
-                    if self.check_for_end_code && consumed == 0 && written == 0 {
-                        return Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"));
-                    }
-                },
+                Ok(LzwStatus::Done | LzwStatus::Ok | LzwStatus::NoProgress) => {},
                 Err(err @ LzwError::InvalidCode) => {
                     return Err(io::Error::new(io::ErrorKind::InvalidData, err));
                 }
@@ -472,6 +477,15 @@ impl StreamingDecoder {
         Ok((len - buf.len(), Decoded::Nothing))
     }
 
+    /// Pixels of image data that has been consumed already
+    pub(crate) fn pending_pixels(&mut self, write_into: &mut OutputBuffer<'_>) -> io::Result<Option<Decoded>> {
+        if let (DecodeSubBlock(_), OutputBuffer::Slice(_)) = (self.state, &*write_into) {
+            let (_, bytes_len) = self.lzw_reader.decode_available_bytes(&[], write_into)?;
+            return Ok(NonZeroUsize::new(bytes_len).map(Decoded::BytesDecoded));
+        }
+        Ok(None)
+    }
+
     /// Returns the data of the last extension that has been decoded.
     #[must_use]
     pub fn last_ext(&self) -> (AnyExtension, &[u8], bool) {
diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 18c05bd..4153744 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -210,6 +210,10 @@ struct ReadDecoder<R: Read> {
 impl<R: Read> ReadDecoder<R> {
     #[inline(never)]
     fn decode_next(&mut self, write_into: &mut OutputBuffer<'_>) -> Result<Option<Decoded>, DecodingError> {
+        // Doesn't need any more data
+        if let Some(result) = self.decoder.pending_pixels(write_into)? {
+            return Ok(Some(result));
+        }
         while !self.at_eof {
             let (consumed, result) = {
                 let buf = self.reader.fill_buf()?;
-- 
2.43.0

