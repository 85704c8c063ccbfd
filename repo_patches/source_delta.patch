From 301181f297c5998a742e1b94b0e87fff0e8208cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 01/28] fix: visit every sub-IFD offset at most once without
 dropping the enclosing IFD

An entry pointing at offset 0 was never recorded as visited, so a file whose
sub-IFD contains such an entry made iteration loop forever; and a repeated
sub-IFD offset dropped the remaining entries of the IFD that repeated it.
---
 src/exif/exif_iter.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index bbbf75b..f23cfd4 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -508,12 +508,14 @@ impl Iterator for ExifIter {
 
                     match entry {
                         IfdEntry::IfdNew(new_ifd) => {
-                            if new_ifd.offset > 0 {
-                                if self.visited_offsets.contains(&new_ifd.offset) {
-                                    // Ignore repeated ifd parsing to avoid dead looping
-                                    continue;
+                            if !self.visited_offsets.insert(new_ifd.offset) {
+                                // Ignore repeated ifd parsing to avoid dead
+                                // looping. A repeated sub-IFD only drops that
+                                // entry; the enclosing IFD goes on.
+                                if new_ifd.ifd_idx == ifd.ifd_idx {
+                                    self.ifds.push(ifd);
                                 }
-                                self.visited_offsets.insert(new_ifd.offset);
+                                continue;
                             }
 
                             let is_subifd = if new_ifd.ifd_idx == ifd.ifd_idx {
-- 
2.43.0


From 2bda02c27938bc39432dfe8e28bc1aa58a3aaaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 02/28] fix: report entries that fail to parse instead of
 dropping them silently

The per-entry errors promised by ExifIterEntry::error and Exif::errors were
unreachable: iteration skipped every failed entry. Yield them; and when the
nesting limit is hit resume the outermost IFD rather than restarting it, so
that its failed entries are not reported twice.
---
 src/exif/exif_iter.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index f23cfd4..eec9be6 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -396,6 +396,14 @@ impl ExifIterEntry {
             res: Ok(v),
         }
     }
+
+    pub(crate) fn make_err(ifd: usize, tag: TagOrCode, e: EntryError) -> Self {
+        Self {
+            ifd: IfdIndex::new(ifd),
+            tag,
+            res: Err(e),
+        }
+    }
 }
 
 impl std::fmt::Debug for ExifIterEntry {
@@ -492,12 +500,11 @@ impl Iterator for ExifIter {
 
             if self.ifds.len() > MAX_IFD_DEPTH {
                 let depth = self.ifds.len();
-                self.ifds.clear();
                 tracing::error!(
                     ifds_depth = depth,
-                    "ifd depth is too deep, just go back to ifd0"
+                    "ifd depth is too deep, just go back to the outermost ifd"
                 );
-                self.ifds.push(self.ifd0.clone_with_state());
+                self.ifds.truncate(1);
             }
 
             let mut ifd = self.ifds.pop()?;
@@ -562,8 +569,17 @@ impl Iterator for ExifIter {
                         }
                         IfdEntry::Err(e) => {
                             tracing::warn!(?tag_code, ?e, "parse ifd entry error");
+                            let ifd_idx = ifd.ifd_idx;
                             self.ifds.push(ifd);
-                            continue;
+                            let Some(tc) = tag_code else {
+                                continue;
+                            };
+                            // A failed entry does not claim its tag: a later
+                            // duplicate that parses is still returned.
+                            if self.encountered_tags.contains(&(ifd_idx, tc.code())) {
+                                continue;
+                            }
+                            return Some(ExifIterEntry::make_err(ifd_idx, tc, e));
                         }
                     }
                 }
@@ -943,13 +959,6 @@ impl IfdIter {
             speed,
         })
     }
-
-    fn clone_with_state(&self) -> IfdIter {
-        let mut it = self.clone();
-        it.index = self.index;
-        it.pos = self.pos;
-        it
-    }
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 262359b1d6744805e0932ae7e51ea311b2d31c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 03/28] fix: skip JPEG APP1 segments that are not Exif instead
 of failing the parse

An XMP, empty or short APP1 segment in front of the Exif APP1 made the whole
parse fail (Malformed or UnexpectedEof) because a non-matching header was
treated as a parse error.
---
 src/exif/exif_exif.rs | 4 ++--
 src/jpeg.rs           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/exif/exif_exif.rs b/src/exif/exif_exif.rs
index 00e95de..6256b12 100644
--- a/src/exif/exif_exif.rs
+++ b/src/exif/exif_exif.rs
@@ -278,8 +278,8 @@ impl TiffHeader {
     }
 }
 
-pub(crate) fn check_exif_header(data: &[u8]) -> Result<bool, nom::Err<nom::error::Error<&[u8]>>> {
-    tag::<_, _, nom::error::Error<_>>(EXIF_IDENT)(data).map(|_| true)
+pub(crate) fn check_exif_header(data: &[u8]) -> bool {
+    data.starts_with(EXIF_IDENT.as_bytes())
 }
 
 pub(crate) fn check_exif_header2(i: &[u8]) -> IResult<&[u8], ()> {
diff --git a/src/jpeg.rs b/src/jpeg.rs
index 9a2f757..c273fc1 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -222,7 +222,7 @@ fn find_exif_segment(input: &[u8]) -> IResult<&[u8], Option<Segment<'_>>> {
         );
 
         let s = &segment;
-        if (s.marker_code == MarkerCode::APP1.code() && check_exif_header(s.payload)?)
+        if (s.marker_code == MarkerCode::APP1.code() && check_exif_header(s.payload))
             || s.marker_code == MarkerCode::Sos.code()
         // searching stop at SOS
         {
-- 
2.43.0


From 1ec205c6499dea91b51dba2464928acea60db38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 04/28] fix: reject HEIF item locations whose offsets overflow
 instead of panicking

---
 src/bbox/iloc.rs |  2 +-
 src/bbox/meta.rs | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bbox/iloc.rs b/src/bbox/iloc.rs
index 4f6ad98..4ba1179 100644
--- a/src/bbox/iloc.rs
+++ b/src/bbox/iloc.rs
@@ -120,7 +120,7 @@ impl IlocBox {
             let extent = item.extents.first()?;
             Some((
                 item.construction_method,
-                item.base_offset + extent.offset,
+                item.base_offset.checked_add(extent.offset)?,
                 extent.length,
             ))
         })
diff --git a/src/bbox/meta.rs b/src/bbox/meta.rs
index caa2b0d..ab581a0 100644
--- a/src/bbox/meta.rs
+++ b/src/bbox/meta.rs
@@ -78,9 +78,11 @@ impl MetaBox {
                     .as_ref()
                     .and_then(|iloc| iloc.item_offset_len(exif_infe.id))
             })
-            .map(|(construction_method, offset, length)| {
-                let start = offset as usize;
-                let end = (offset + length) as usize;
+            .and_then(|(construction_method, offset, length)| {
+                Some((construction_method, offset, offset.checked_add(length)?))
+            })
+            .map(|(construction_method, start, end)| {
+                let (start, end) = (start as usize, end as usize);
                 match construction_method {
                     ConstructionMethod::FileOffset => {
                         if end > input.len() {
@@ -114,7 +116,7 @@ impl MetaBox {
             })
             .and_then(|(construction_method, offset, length)| {
                 let start = offset as usize;
-                let end = (offset + length) as usize;
+                let end = offset.checked_add(length)? as usize;
                 match construction_method {
                     ConstructionMethod::FileOffset => Some(start..end),
                     ConstructionMethod::IdatOffset => {
-- 
2.43.0


From c14a1f6c6369330d6cd52f051361893048cecc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 05/28] fix: keep PNG chunks collected before a skipped chunk
 when streaming

An eXIf or tEXt chunk in front of a chunk larger than the read buffer was
found in memory mode but lost when reading from a stream, because the walker
restarted with an empty output after the skip.
---
 src/exif.rs   |  2 +-
 src/parser.rs |  4 ++++
 src/png.rs    | 62 ++++++++++++++++++++++++++++++++++++++++++++-------
 3 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index 177d7b1..8ea1c60 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -249,7 +249,7 @@ fn extract_exif_range(
         ParsingState::TiffHeader(h) => Some(h),
         ParsingState::HeifExifSize(_) => None,
         ParsingState::Cr3ExifSize(_) => None,
-        ParsingState::PngPastSignature => None,
+        ParsingState::PngPastSignature | ParsingState::PngCollected(_) => None,
     });
     Ok(exif_data
         .and_then(|x| buf.subslice_in_range(x))
diff --git a/src/parser.rs b/src/parser.rs
index 91655da..578139a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -507,6 +507,9 @@ pub(crate) enum ParsingState {
     /// Carried across `Need` / `ClearAndSkip` retries so the resumed
     /// call doesn't re-check signature against a mid-stream slice.
     PngPastSignature,
+    /// Like `PngPastSignature`, plus what the walker had collected from the
+    /// buffers skipped so far.
+    PngCollected(crate::png::PngCollected),
 }
 
 impl Display for ParsingState {
@@ -516,6 +519,7 @@ impl Display for ParsingState {
             ParsingState::HeifExifSize(n) => Display::fmt(&format!("ParsingState: {n}"), f),
             ParsingState::Cr3ExifSize(n) => Display::fmt(&format!("ParsingState: {n}"), f),
             ParsingState::PngPastSignature => f.write_str("ParsingState: PngPastSignature"),
+            ParsingState::PngCollected(_) => f.write_str("ParsingState: PngCollected"),
         }
     }
 }
diff --git a/src/png.rs b/src/png.rs
index 030a6e8..ac62109 100644
--- a/src/png.rs
+++ b/src/png.rs
@@ -33,11 +33,43 @@ pub(crate) enum PngExifSource {
     EXif(Range<usize>),
 
     /// Legacy hex-encoded TIFF inside `Raw profile type {exif,APP1}` `tEXt`.
-    /// Already hex-decoded + APP1 prefix stripped — owned bytes. Phase 5
-    /// adds the actual decoding logic; until then this variant is unused.
+    /// Already hex-decoded + APP1 prefix stripped — owned bytes. Also holds
+    /// the body of an `eXIf` chunk whose buffer has been skipped since.
     Legacy(Vec<u8>),
 }
 
+/// What the walker collected before a `ClearAndSkip` dropped the buffer;
+/// handed back to the resumed call through [`ParsingState::PngCollected`].
+#[derive(Debug, Clone)]
+pub(crate) struct PngCollected {
+    exif: Option<Vec<u8>>,
+    exif_priority: u8,
+    text_chunks: Vec<(String, String)>,
+    text_total: usize,
+}
+
+/// State to resume with after a `ClearAndSkip`: everything collected so far.
+fn skip_state(
+    buf: &[u8],
+    out: PngParseOut,
+    exif_priority: u8,
+    text_total: usize,
+) -> Option<ParsingState> {
+    if out.exif.is_none() && out.text_chunks.is_empty() {
+        return Some(ParsingState::PngPastSignature);
+    }
+    let exif = out.exif.map(|source| match source {
+        PngExifSource::EXif(range) => buf[range].to_vec(),
+        PngExifSource::Legacy(bytes) => bytes,
+    });
+    Some(ParsingState::PngCollected(PngCollected {
+        exif,
+        exif_priority,
+        text_chunks: out.text_chunks,
+        text_total,
+    }))
+}
+
 const PNG_SIGNATURE: &[u8; 8] = b"\x89PNG\r\n\x1a\n";
 
 /// Maximum size of a single `tEXt` chunk we'll capture. Above this
@@ -114,7 +146,9 @@ fn hex_decode(s: &str) -> Result<Vec<u8>, ()> {
 /// After a `ClearAndSkip` the parser has dropped the buffer and the
 /// resumed `buf` starts at a fresh file offset, so the returned state
 /// flips to `Some(ParsingState::PngPastSignature)` to tell the next
-/// call not to look for the 8-byte signature at `buf[..8]`.
+/// call not to look for the 8-byte signature at `buf[..8]` — or to
+/// `Some(ParsingState::PngCollected(_))` if chunks in the dropped buffer
+/// contributed to the output.
 ///
 /// `ClearAndSkip(n)` is interpreted by the parser as "advance the
 /// parser's logical position by `n` bytes from where it is now". The
@@ -129,12 +163,18 @@ pub(crate) fn extract_chunks(
     buf: &[u8],
     state: Option<ParsingState>,
 ) -> Result<PngParseOut, ParsingErrorState> {
-    let past_signature = matches!(state, Some(ParsingState::PngPastSignature));
+    let past_signature = matches!(
+        state,
+        Some(ParsingState::PngPastSignature | ParsingState::PngCollected(_))
+    );
+    let collected = match &state {
+        Some(ParsingState::PngCollected(c)) => Some(c.clone()),
+        _ => None,
+    };
     // Preserves the incoming flag across error returns. A `Need` keeps
     // whatever the caller already had; only `ClearAndSkip` flips a
     // previously-false flag to true (handled at the skip sites).
-    let preserve = || past_signature.then_some(ParsingState::PngPastSignature);
-    let skipped = || Some(ParsingState::PngPastSignature);
+    let preserve = || state.clone().filter(|_| past_signature);
 
     let mut cursor = if past_signature {
         // Resumed after a ClearAndSkip; buf[0] is a chunk-header
@@ -165,6 +205,12 @@ pub(crate) fn extract_chunks(
     };
     let mut text_total: usize = 0;
     let mut exif_priority: u8 = 0; // 0 = none, 1 = legacy exif, 2 = legacy APP1, 3 = eXIf
+    if let Some(c) = collected {
+        out.exif = c.exif.map(PngExifSource::Legacy);
+        out.text_chunks = c.text_chunks;
+        text_total = c.text_total;
+        exif_priority = c.exif_priority;
+    }
 
     loop {
         // Need 8 bytes for the chunk header (length:4 + type:4).
@@ -222,7 +268,7 @@ pub(crate) fn extract_chunks(
                     if total > remaining {
                         return Err(ParsingErrorState::new(
                             ParsingError::ClearAndSkip(cursor + total),
-                            skipped(),
+                            skip_state(buf, out, exif_priority, text_total),
                         ));
                     }
                     cursor += total;
@@ -279,7 +325,7 @@ pub(crate) fn extract_chunks(
                 if total > remaining {
                     return Err(ParsingErrorState::new(
                         ParsingError::ClearAndSkip(cursor + total),
-                        skipped(),
+                        skip_state(buf, out, exif_priority, text_total),
                     ));
                 }
                 cursor += total;
-- 
2.43.0


From 9434815a58036dc6989d5b92d751cd424477d512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 06/28] fix: load more of a TIFF stream instead of failing when
 IFD data is further on

Reading a TIFF from a stream failed as Malformed whenever an IFD or an entry's
data lay beyond the bytes buffered so far; the travel that is meant to pull
that data in reported the shortage as a parse failure.
---
 src/exif/travel.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/exif/travel.rs b/src/exif/travel.rs
index 39bf989..174407f 100644
--- a/src/exif/travel.rs
+++ b/src/exif/travel.rs
@@ -4,7 +4,7 @@ use nom::{
 };
 
 use crate::{
-    error::{MalformedKind, ParsingError},
+    error::{nom_error_to_parsing_error_with_state, MalformedKind, ParsingError},
     exif::TiffHeader,
     values::{array_to_string, DataFormat},
     TagOrCode,
@@ -176,17 +176,13 @@ impl<'a> IfdHeaderTravel<'a> {
         }
 
         if self.offset + 2 > self.data.len() {
-            return Err(ParsingError::Failed {
-                kind: MalformedKind::TiffHeader,
-                message: format!("invalid ifd offset: {}", self.offset),
-            });
+            return Err(ParsingError::Need(self.offset + 2 - self.data.len()));
         }
 
         let (_, entry_num) =
             TiffHeader::parse_ifd_entry_num(&self.data[self.offset..], self.endian).map_err(
-                |e: nom::Err<nom::error::Error<&[u8]>>| ParsingError::Failed {
-                    kind: MalformedKind::TiffHeader,
-                    message: format!("parse ifd entry count failed: {e:?}"),
+                |e: nom::Err<nom::error::Error<&[u8]>>| {
+                    nom_error_to_parsing_error_with_state(e, MalformedKind::TiffHeader, None).err
                 },
             )?;
         let mut pos = self.offset + 2;
@@ -199,9 +195,8 @@ impl<'a> IfdHeaderTravel<'a> {
                 break;
             }
             let (_, sub_ifd) = self.parse_ifd_entry_header(pos as u32).map_err(
-                |e: nom::Err<nom::error::Error<&[u8]>>| ParsingError::Failed {
-                    kind: MalformedKind::IfdEntry,
-                    message: format!("parse ifd entry header failed: {e:?}"),
+                |e: nom::Err<nom::error::Error<&[u8]>>| {
+                    nom_error_to_parsing_error_with_state(e, MalformedKind::IfdEntry, None).err
                 },
             )?;
             pos += IFD_ENTRY_SIZE;
-- 
2.43.0


From f62a3087c859c9a9be6a79d3a0868c53e07780d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 07/28] fix: read every CMT block of a CR3 file in async mode
 too

---
 src/exif.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/exif.rs b/src/exif.rs
index 8ea1c60..d192cf0 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -101,6 +101,14 @@ fn parse_cr3_exif_iter<R: Read>(
         cr3::extract_all_cmt_ranges(buf)
     })?;
 
+    cr3_ranges_to_iter(parser, cmt_ranges)
+}
+
+/// Build the multi-block [`ExifIter`] of a CR3 file from its CMT ranges.
+fn cr3_ranges_to_iter(
+    parser: &mut impl ShareBuf,
+    cmt_ranges: Option<cr3::Cr3CmtRanges>,
+) -> Result<ExifIter, crate::Error> {
     let Some(cmt_ranges) = cmt_ranges else {
         return Err(crate::Error::Malformed {
             kind: crate::error::MalformedKind::IsoBmffBox,
@@ -286,6 +294,14 @@ pub(crate) async fn parse_exif_iter_async<P, R: AsyncRead + Unpin + Send>(
 where
     P: crate::parser_async::AsyncBufParser + crate::parser::ShareBuf,
 {
+    if mime_img == MediaMimeImage::Cr3 {
+        let cmt_ranges = parser
+            .load_and_parse(reader, skip_by_seek, |buf, _state| {
+                cr3::extract_all_cmt_ranges(buf)
+            })
+            .await?;
+        return cr3_ranges_to_iter(parser, cmt_ranges);
+    }
     if mime_img == MediaMimeImage::Png {
         return parse_png_exif_iter_async(parser, reader, skip_by_seek).await;
     }
-- 
2.43.0


From 31c6045c68e2d44165175a60b40a86a67851c856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 08/28] fix: rewinding or cloning a CR3 iterator starts over at
 the primary block

Loading an additional CMT block overwrote the IFD0 that rewind and clone use,
so after reaching the second block they silently dropped the first.
---
 src/exif/exif_iter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index eec9be6..03d460f 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -446,9 +446,9 @@ impl ExifIter {
         // Try to create an ExifIter for this block
         match input_into_iter(block_data, header) {
             Ok(iter) => {
-                // Update our state with the new block's data
-                self.ifd0 = iter.ifd0;
-                self.ifds = vec![self.ifd0.clone()];
+                // Update our state with the new block's data; `ifd0` stays
+                // that of the primary block, where a rewind starts over.
+                self.ifds = vec![iter.ifd0];
                 self.visited_offsets.clear();
                 self.current_block_index += 1;
 
-- 
2.43.0


From 82ae05f94362e086676c1da7061d20390b0141a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 09/28] fix: resolve the GPS IFD offset inside the TIFF block
 it was found in

---
 src/exif/exif_iter.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 03d460f..8c8b3e6 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -265,7 +265,12 @@ impl ExifIter {
             }
             Err(e) => return Err(e.clone().into()),
         };
-        if offset as usize >= iter.input.len() {
+        // The offset is relative to the TIFF block the entry came from, which
+        // is not the primary one for an additional CR3 block.
+        let Some(ifd) = iter.ifds.last() else {
+            return Ok(None);
+        };
+        if offset as usize >= ifd.input.len() {
             return Err(crate::Error::Malformed {
                 kind: crate::error::MalformedKind::IfdEntry,
                 message: "GPSInfo offset out of range".into(),
@@ -274,10 +279,10 @@ impl ExifIter {
 
         let mut gps_subifd = match IfdIter::try_new(
             gps.ifd().as_usize(),
-            iter.input.clone(),
-            iter.tiff_header,
+            ifd.input.clone(),
+            ifd.header.clone(),
             offset as usize,
-            iter.tz.clone(),
+            ifd.tz.clone(),
         ) {
             Ok(ifd0) => ifd0.tag_code(ExifTag::GPSInfo.code()),
             Err(e) => return Err(e),
-- 
2.43.0


From 3b9722feea159fcaf21ccdf7e4c0f93f9f361fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 10/28] fix: find a JPEG Motion Photo track in memory mode too

---
 src/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 578139a..b183056 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -848,6 +848,9 @@ impl MediaParser {
                 // Memory mode: zero-copy.
                 self.state.set_memory(memory);
                 let mime_track = match ms.mime {
+                    crate::file::MediaMime::Image(crate::file::MediaMimeImage::Jpeg) => {
+                        return Self::parse_motion_photo_trailer(self.buffer())
+                    }
                     crate::file::MediaMime::Image(_) => return Err(crate::Error::TrackNotFound),
                     crate::file::MediaMime::Track(t) => t,
                 };
@@ -888,7 +891,11 @@ impl MediaParser {
         // Drain the rest of the JPEG into the parse buffer so we can
         // address the trailing MP4 by its byte offset from EOF.
         reader.read_to_end(self.buf_mut())?;
-        let buf = self.buf_mut();
+        Self::parse_motion_photo_trailer(self.buf_mut())
+    }
+
+    /// Locate and parse the Motion Photo trailer of a complete JPEG.
+    fn parse_motion_photo_trailer(buf: &[u8]) -> crate::Result<TrackInfo> {
         let Some(offset) = crate::jpeg::find_motion_photo_offset(buf) else {
             return Err(crate::Error::TrackNotFound);
         };
-- 
2.43.0


From 604a956f4b3c65efa3ce99481fcb4dce27cab548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 11/28] fix: read 4-byte EBML floats instead of returning zero

---
 src/ebml/element.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/ebml/element.rs b/src/ebml/element.rs
index d70714e..1a2fe39 100644
--- a/src/ebml/element.rs
+++ b/src/ebml/element.rs
@@ -249,15 +249,8 @@ pub(crate) fn get_as_f64(cursor: &mut Cursor<&[u8]>, size: usize) -> Option<f64>
     }
 
     let n = match size {
-        4 => {
-            let buf = [0u8; 4];
-            f32::from_be_bytes(buf) as f64
-        }
-        5..=8 => {
-            let mut buf = [0u8; 8];
-            cursor.read_exact(&mut buf[8 - size..]).ok()?;
-            f64::from_be_bytes(buf)
-        }
+        4 => cursor.get_f32() as f64,
+        8 => cursor.get_f64(),
         _ => return None,
     };
 
-- 
2.43.0


From 83846b678d1d60b3b8e7020f11df9e82fd5c9f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 12/28] fix: apply the WebM TimestampScale regardless of
 element order

---
 src/ebml/webm.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 0b0960c..5988eaa 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -339,11 +339,13 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
     // timestamp in nanosecond = element value * TimestampScale
     // By default, one segment tick represents one millisecond
     let mut time_scale = 1_000_000;
+    let mut duration = 0.0;
     let mut info = SegmentInfo::default();
 
     while cursor.has_remaining() {
         let header = next_element_header(cursor)?;
         let id = TryInto::<InfoId>::try_into(header.id);
+        let end = cursor.position().saturating_add(header.data_size as u64);
         tracing::debug!(?header, "segment info sub-element");
 
         if let Ok(id) = id {
@@ -355,7 +357,7 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
                 }
                 InfoId::Duration => {
                     if let Some(v) = get_as_f64(cursor, header.data_size) {
-                        info.duration = v * time_scale as f64;
+                        duration = v;
                     }
                 }
                 InfoId::Date => {
@@ -371,11 +373,15 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
                     }
                 }
             }
-        } else {
-            cursor.consume(header.data_size);
         }
+        // Always resume right behind the element, whether or not its value
+        // could be read
+        cursor.set_position(end);
     }
 
+    // The TimestampScale element may come after the Duration element
+    info.duration = duration * time_scale as f64;
+
     Ok(info)
 }
 
-- 
2.43.0


From c04204065a9f824da2f435734de72a1a4e7fdad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:57 +0000
Subject: [PATCH 13/28] fix: find the WebM video track when other tracks come
 before it

---
 src/ebml/webm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 5988eaa..9e5a79f 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -206,6 +206,11 @@ fn parse_tracks_info(input: &[u8], pos: usize) -> Result<Option<TracksInfo>, Par
                 })
             })?;
 
+            // Not a video track, go on with the next entry
+            if track.is_none() {
+                return Err(nom::Err::Error((Z, ErrorKind::Fail)));
+            }
+
             Ok((Z, track))
         },
     )
-- 
2.43.0


From 3282bc7dc3d396cd300582c0d8e2cde67dfef90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 14/28] fix: resolve WebM seek positions against the start of
 the segment data

---
 src/ebml/webm.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 9e5a79f..46faf05 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -399,11 +399,11 @@ fn parse_seeks(input: &[u8], pos: usize) -> Result<HashMap<u32, u64>, ParsingErr
         return Err(ParsingError::Need(header.data_size - cursor.remaining()));
     }
 
-    let header_pos = pos + cursor.position() as usize - header.header_size;
     let mut cur = Cursor::new(&cursor.chunk()[..header.data_size]);
     let mut seeks = parse_seek_head(&mut cur)?;
-    for (_, pos) in seeks.iter_mut() {
-        *pos += header_pos as u64;
+    // SeekPosition is relative to the first byte of the Segment data
+    for seek_pos in seeks.values_mut() {
+        *seek_pos = seek_pos.saturating_add(pos as u64);
     }
     Ok(seeks)
 }
-- 
2.43.0


From 840d3fe136d5a942e989654b22cf6ca7af7ecd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 15/28] fix: recognise MP4 compatible brands behind an unknown
 major brand

---
 src/file.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index d9ad76e..c824d04 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -8,7 +8,6 @@ use crate::{
     exif::TiffHeader,
     jpeg::check_jpeg,
     raf::RafInfo,
-    slice::SubsliceRange,
 };
 
 const HEIF_HEIC_BRAND_NAMES: &[&[u8]] = &[
@@ -187,7 +186,7 @@ fn parse_bmff_mime(input: &[u8]) -> crate::Result<MediaMime> {
 
     if MP4_BRAND_NAMES
         .iter()
-        .any(|v| compatible_brands.subslice_in_range(v.as_bytes()).is_some())
+        .any(|v| compatible_brands.find_substring(v.as_bytes()).is_some())
     {
         if major_brand.starts_with(b"3gp") {
             return Ok(MediaMime::Track(MediaMimeTrack::_3gpp));
-- 
2.43.0


From e345737d5c0d5becf7535476210699a5dda5175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 16/28] fix: follow the next-IFD link at the very end of the
 TIFF data

---
 src/exif/exif_iter.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 8c8b3e6..05e76da 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -1046,10 +1046,6 @@ impl Iterator for IfdIter {
             pos = format!("{:08x}", self.pos),
             "next IFD entry"
         );
-        if self.input.len() < self.pos + IFD_ENTRY_SIZE {
-            return None;
-        }
-
         let endian = self.header.endian;
         if self.index > self.entry_num {
             return None;
-- 
2.43.0


From 3c530a32d96f72d2c9c79651e6e5b7350e8e31c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 17/28] fix: visit each sub-IFD of a TIFF stream once while
 loading it

---
 src/exif/travel.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/exif/travel.rs b/src/exif/travel.rs
index 174407f..a0dcb85 100644
--- a/src/exif/travel.rs
+++ b/src/exif/travel.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use nom::{
     number::{streaming, Endianness},
     IResult, Needed, Parser,
@@ -164,8 +166,18 @@ impl<'a> IfdHeaderTravel<'a> {
         Ok((remain, None))
     }
 
-    #[tracing::instrument(skip(self))]
     pub fn travel_ifd(&mut self, depth: usize) -> Result<(), ParsingError> {
+        self.travel_unvisited(depth, &mut HashSet::new())
+    }
+
+    /// `visited` holds the sub-IFD offsets that are already loaded: visiting
+    /// them once is enough, and many entries may point to the same sub-IFD.
+    #[tracing::instrument(skip(self, visited))]
+    fn travel_unvisited(
+        &mut self,
+        depth: usize,
+        visited: &mut HashSet<usize>,
+    ) -> Result<(), ParsingError> {
         if depth >= 3 {
             let msg = "depth shouldn't be greater than 3";
             tracing::error!(msg);
@@ -211,7 +223,9 @@ impl<'a> IfdHeaderTravel<'a> {
         }
 
         for mut ifd in sub_ifds {
-            ifd.travel_ifd(depth + 1)?;
+            if visited.insert(ifd.offset) {
+                ifd.travel_unvisited(depth + 1, visited)?;
+            }
         }
 
         // Currently, we ignore ifd1 data in *.tif files
-- 
2.43.0


From 27248d0dfa1e87b744d63e962494d5be9dadd687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 18/28] fix: end the iteration of a directory with 65535
 entries

---
 src/exif/exif_iter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 05e76da..0a93806 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -611,7 +611,7 @@ pub(crate) struct IfdIter {
     pub tz: Option<String>,
 
     // Iterating status
-    index: u16,
+    index: u32,
     pos: usize,
 }
 
@@ -1047,10 +1047,10 @@ impl Iterator for IfdIter {
             "next IFD entry"
         );
         let endian = self.header.endian;
-        if self.index > self.entry_num {
+        if self.index > u32::from(self.entry_num) {
             return None;
         }
-        if self.index == self.entry_num {
+        if self.index == u32::from(self.entry_num) {
             tracing::debug!(
                 self.ifd_idx,
                 self.index,
-- 
2.43.0


From 09b6c77441b422cbb6775f8b44aa01a3fcc1d1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:58 +0000
Subject: [PATCH 19/28] fix: read 64-bit times and durations of version 1 movie
 and track headers

---
 src/bbox/mvhd.rs | 47 ++++++++++++++++++++++++++++++++++++-----------
 src/bbox/tkhd.rs | 43 ++++++++++++++-----------------------------
 2 files changed, 50 insertions(+), 40 deletions(-)

diff --git a/src/bbox/mvhd.rs b/src/bbox/mvhd.rs
index d00d7df..02d7198 100644
--- a/src/bbox/mvhd.rs
+++ b/src/bbox/mvhd.rs
@@ -1,5 +1,10 @@
 use chrono::{DateTime, Duration, FixedOffset, Local, NaiveDate, NaiveDateTime, TimeZone, Utc};
-use nom::{bytes::complete::take, number::complete::be_u32, Parser};
+use nom::{
+    bytes::complete::take,
+    combinator::fail,
+    number::complete::{be_u32, be_u64},
+    Parser,
+};
 
 use super::{FullBoxHeader, ParseBody};
 
@@ -15,10 +20,10 @@ pub struct MvhdBox {
     header: FullBoxHeader,
 
     /// seconds since midnight, January 1, 1904
-    creation_time: u32,
+    creation_time: u64,
 
     /// seconds since midnight, January 1, 1904
-    modification_time: u32,
+    modification_time: u64,
 
     /// The number of time units that pass per second in its time coordinate
     /// system.
@@ -29,7 +34,7 @@ pub struct MvhdBox {
     /// # convert to seconds
     ///
     /// seconds = duration / time_scale
-    duration: u32,
+    duration: u64,
     // omit 76 bytes...
     next_track_id: u32,
 }
@@ -40,11 +45,7 @@ impl MvhdBox {
     }
 
     fn creation_time_naive(&self) -> NaiveDateTime {
-        NaiveDate::from_ymd_opt(1904, 1, 1)
-            .unwrap()
-            .and_hms_opt(0, 0, 0)
-            .unwrap()
-            + Duration::seconds(self.creation_time as i64)
+        epoch() + Duration::seconds(self.creation_time as i64)
     }
 
     pub fn creation_time(&self) -> DateTime<FixedOffset> {
@@ -61,10 +62,34 @@ impl MvhdBox {
     }
 }
 
+fn epoch() -> NaiveDateTime {
+    NaiveDate::from_ymd_opt(1904, 1, 1)
+        .unwrap()
+        .and_hms_opt(0, 0, 0)
+        .unwrap()
+}
+
 impl ParseBody<MvhdBox> for MvhdBox {
     fn parse_body(body: &[u8], header: FullBoxHeader) -> nom::IResult<&[u8], MvhdBox> {
-        let (remain, (creation_time, modification_time, time_scale, duration, _, next_track_id)) =
-            (be_u32, be_u32, be_u32, be_u32, take(76usize), be_u32).parse(body)?;
+        // Times and duration are 64-bit wide in version 1
+        let (remain, (creation_time, modification_time, time_scale, duration)) =
+            if header.version == 1 {
+                (be_u64, be_u64, be_u32, be_u64).parse(body)?
+            } else {
+                let (remain, (c, m, t, d)) = (be_u32, be_u32, be_u32, be_u32).parse(body)?;
+                (remain, (c as u64, m as u64, t, d as u64))
+            };
+        let (remain, (_, next_track_id)) = (take(76usize), be_u32).parse(remain)?;
+
+        // A creation time no calendar reaches
+        if i64::try_from(creation_time)
+            .ok()
+            .and_then(Duration::try_seconds)
+            .and_then(|d| epoch().checked_add_signed(d))
+            .is_none()
+        {
+            return fail().parse(remain);
+        }
 
         Ok((
             remain,
diff --git a/src/bbox/tkhd.rs b/src/bbox/tkhd.rs
index 9afe179..06a888a 100644
--- a/src/bbox/tkhd.rs
+++ b/src/bbox/tkhd.rs
@@ -20,14 +20,14 @@ pub struct TkhdBox {
     header: FullBoxHeader,
 
     /// seconds since midnight, January 1, 1904
-    creation_time: u32,
+    creation_time: u64,
 
     /// seconds since midnight, January 1, 1904
-    modification_time: u32,
+    modification_time: u64,
 
     track_id: u32,
     // reserved: u32,
-    duration: u32,
+    duration: u64,
     // reserved2: u64,
     layer: u16,
     alt_group: u16,
@@ -41,31 +41,16 @@ pub struct TkhdBox {
 
 impl ParseBody<TkhdBox> for TkhdBox {
     fn parse_body(body: &[u8], header: FullBoxHeader) -> nom::IResult<&[u8], TkhdBox> {
-        let (
-            remain,
-            (
-                creation_time,
-                modification_time,
-                track_id,
-                _,
-                duration,
-                _,
-                layer,
-                alt_group,
-                volume,
-                _,
-                _,
-                width,
-                _,
-                height,
-                _,
-            ),
-        ) = (
-            be_u32,
-            be_u32,
-            be_u32,
-            be_u32,
-            be_u32,
+        // Times and duration are 64-bit wide in version 1
+        let (remain, (creation_time, modification_time, track_id, _, duration)) =
+            if header.version == 1 {
+                (be_u64, be_u64, be_u32, be_u32, be_u64).parse(body)?
+            } else {
+                let (remain, (c, m, id, reserved, d)) =
+                    (be_u32, be_u32, be_u32, be_u32, be_u32).parse(body)?;
+                (remain, (c as u64, m as u64, id, reserved, d as u64))
+            };
+        let (remain, (_, layer, alt_group, volume, _, _, width, _, height, _)) = (
             be_u64,
             be_u16,
             be_u16,
@@ -77,7 +62,7 @@ impl ParseBody<TkhdBox> for TkhdBox {
             be_u16,
             be_u16,
         )
-            .parse(body)?;
+            .parse(remain)?;
 
         Ok((
             remain,
-- 
2.43.0


From fac632c7f800ddfb8c7c9ad948122c8a5a8b9b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:58 +0000
Subject: [PATCH 20/28] fix: compute the movie duration in milliseconds without
 rounding errors

---
 src/bbox/mvhd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bbox/mvhd.rs b/src/bbox/mvhd.rs
index 02d7198..bcb5ba0 100644
--- a/src/bbox/mvhd.rs
+++ b/src/bbox/mvhd.rs
@@ -41,7 +41,8 @@ pub struct MvhdBox {
 
 impl MvhdBox {
     pub fn duration_ms(&self) -> u64 {
-        ((self.duration as f64) / (self.time_scale as f64) * 1000_f64) as u64
+        let ms = (self.duration as u128 * 1000).checked_div(self.time_scale as u128);
+        u64::try_from(ms.unwrap_or(0)).unwrap_or(u64::MAX)
     }
 
     fn creation_time_naive(&self) -> NaiveDateTime {
-- 
2.43.0


From d781cc0ff718dd01e6ee9ea15ce17cc0aa9cfdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 21/28] fix: pair QuickTime metadata items with keys by index
 and skip unsupported items

---
 src/bbox/ilst.rs | 26 +++++++++++++++++++++-----
 src/mov.rs       | 11 +++++++----
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/bbox/ilst.rs b/src/bbox/ilst.rs
index 7d3bcea..62021c7 100644
--- a/src/bbox/ilst.rs
+++ b/src/bbox/ilst.rs
@@ -1,7 +1,6 @@
 use nom::bytes::complete::{tag, take};
 use nom::combinator::{fail, map_res};
 use nom::error::context;
-use nom::multi::many0;
 use nom::number::complete::{
     be_f32, be_f64, be_i16, be_i24, be_i32, be_i64, be_u16, be_u24, be_u32, be_u64, u8,
 };
@@ -27,18 +26,35 @@ pub struct IlstBox {
 
 impl IlstBox {
     pub fn parse_box(input: &[u8]) -> nom::IResult<&[u8], IlstBox> {
-        let (remain, header) = BoxHeader::parse(input)?;
-        let (remain, items) = many0(IlstItem::parse).parse(remain)?;
+        let (mut remain, header) = BoxHeader::parse(input)?;
+        let mut items = Vec::new();
+        // Every item starts with its size, an item of an unsupported kind
+        // doesn't hide the ones behind it
+        while let Ok((rest, item)) = take_item(remain) {
+            if let Ok((_, item)) = IlstItem::parse(item) {
+                items.push(item);
+            }
+            remain = rest;
+        }
 
         Ok((remain, IlstBox { header, items }))
     }
 }
 
+/// Split off the bytes of the first item, including its size field.
+fn take_item(input: &[u8]) -> nom::IResult<&[u8], &[u8]> {
+    let (_, size) = be_u32(input)?;
+    if size < 8 {
+        return fail().parse(input);
+    }
+    take(size).parse(input)
+}
+
 #[derive(Debug, Clone, PartialEq)]
 pub struct IlstItem {
     size: u32,
-    index: u32,    // 1-based index (start from 1)
-    data_len: u32, // including self size
+    pub index: u32, // 1-based index (start from 1)
+    data_len: u32,  // including self size
 
     /// Type indicator, see [type
     /// indicator](https://developer.apple.com/documentation/quicktime-file-format/type_indicator)
diff --git a/src/mov.rs b/src/mov.rs
index d7886df..c878507 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -237,11 +237,14 @@ fn parse_meta(input: &[u8]) -> Option<Vec<(String, EntryValue)>> {
     let (_, keys) = KeysBox::parse_box(keys.data).ok()?;
     let (_, ilst) = IlstBox::parse_box(ilst.data).ok()?;
 
-    let entries = keys
-        .entries
+    // An item names its key by its 1-based index
+    let entries = ilst
+        .items
         .into_iter()
-        .map(|k| k.key)
-        .zip(ilst.items.into_iter().map(|v| v.value))
+        .filter_map(|item| {
+            let key = keys.entries.get((item.index as usize).checked_sub(1)?)?;
+            Some((key.key.clone(), item.value))
+        })
         .collect::<Vec<_>>();
 
     Some(entries)
-- 
2.43.0


From 45665cfbdf3962c3e50b5e7dc1876db55efb0bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:00 +0000
Subject: [PATCH 22/28] fix: accept the zero terminator of a QuickTime user
 data list

---
 src/bbox.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bbox.rs b/src/bbox.rs
index 49ac77a..d919b30 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -183,7 +183,8 @@ pub fn to_boxes(input: &[u8]) -> crate::Result<Vec<BoxHolder<'_>>> {
     let mut res = Vec::new();
     let mut remain = input;
     loop {
-        if remain.is_empty() {
+        // A user data list may be terminated by a 32-bit zero
+        if remain.is_empty() || remain == [0_u8; 4] {
             break;
         }
 
-- 
2.43.0


From 59b1263faf595b71b58b8ac8f1817c0f15289685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:46 +0000
Subject: [PATCH 23/28] fix: keep looking for the HEIF/CR3 metadata box when a
 loaded buffer ends at a box boundary

---
 src/exif.rs | 84 +++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 75 insertions(+), 9 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index d192cf0..2132156 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -1,5 +1,6 @@
 use crate::error::{
-    nom_error_to_parsing_error_with_state, MalformedKind, ParsingError, ParsingErrorState,
+    nom_error_to_parsing_error_with_state, MalformedKind, ParsedError, ParsingError,
+    ParsingErrorState,
 };
 use crate::file::MediaMimeImage;
 use crate::parser::{BufParser, ParsingState, ShareBuf};
@@ -13,8 +14,11 @@ pub use exif_iter::{ExifEntry, ExifIter, ExifIterEntry, IfdIndex};
 pub use gps::{GPSInfo, LatLng};
 pub use tags::{ExifTag, TagOrCode};
 
+use std::cell::Cell;
 use std::io::Read;
 use std::ops::Range;
+#[cfg(feature = "tokio")]
+use std::sync::atomic::{AtomicBool, Ordering};
 
 pub(crate) mod ifd;
 pub(crate) use exif_exif::{check_exif_header, check_exif_header2, TiffHeader};
@@ -43,9 +47,15 @@ pub(crate) fn parse_exif_iter<R: Read>(
         return parse_png_exif_iter(parser, reader, skip_by_seek);
     }
 
+    let at_box_end = Cell::new(false);
     let out = parser.load_and_parse(reader, skip_by_seek, |buf, state| {
-        extract_exif_range(mime_img, buf, state)
-    })?;
+        at_box_end.set(false);
+        let first = state.is_none();
+        let out = extract_exif_range(mime_img, buf, state)?;
+        at_box_end.set(first && out.is_none() && ends_before_exif_box(mime_img, buf));
+        need_more_if(at_box_end.get(), out)
+    });
+    let out = none_at_eof(at_box_end.get(), out)?;
 
     let has_track = match mime_img {
         MediaMimeImage::Jpeg => detect_motion_photo(parser, reader),
@@ -55,6 +65,44 @@ pub(crate) fn parse_exif_iter<R: Read>(
     range_to_iter(parser, out, has_track)
 }
 
+/// True if `buf` holds nothing but complete ISO BMFF boxes, none of which is
+/// the one carrying the Exif data. The bytes loaded so far may just happen to
+/// end where a box ends, so that box can still follow.
+fn ends_before_exif_box(img: MediaMimeImage, buf: &[u8]) -> bool {
+    match img {
+        MediaMimeImage::Heic | MediaMimeImage::Heif | MediaMimeImage::Avif => {
+            matches!(heif::parse_meta_box(buf), Ok((_, None)))
+        }
+        MediaMimeImage::Cr3 => matches!(cr3::parse_moov_box(buf), Ok((_, None))),
+        _ => false,
+    }
+}
+
+fn need_more_if<T>(need_more: bool, out: T) -> Result<T, ParsingErrorState> {
+    if need_more {
+        Err(ParsingErrorState::new(ParsingError::Need(1), None))
+    } else {
+        Ok(out)
+    }
+}
+
+/// The input ended right after a complete box (see [`ends_before_exif_box`]):
+/// the box looked for does not exist.
+fn none_at_eof<T>(
+    at_box_end: bool,
+    out: Result<Option<T>, ParsedError>,
+) -> Result<Option<T>, ParsedError> {
+    match out {
+        Err(ParsedError::NoEnoughBytes) if at_box_end => Ok(None),
+        Err(ParsedError::IOError(e))
+            if at_box_end && e.kind() == std::io::ErrorKind::UnexpectedEof =>
+        {
+            Ok(None)
+        }
+        out => out,
+    }
+}
+
 /// Demand-driven scan for a Pixel/Google Motion Photo signal in a JPEG
 /// buffer that may not yet hold all APP segments.
 ///
@@ -97,9 +145,14 @@ fn parse_cr3_exif_iter<R: Read>(
     skip_by_seek: crate::parser::SkipBySeekFn<R>,
 ) -> Result<ExifIter, crate::Error> {
     // First, parse to get all CMT ranges
+    let at_box_end = Cell::new(false);
     let cmt_ranges = parser.load_and_parse(reader, skip_by_seek, |buf, _state| {
-        cr3::extract_all_cmt_ranges(buf)
-    })?;
+        at_box_end.set(false);
+        let out = cr3::extract_all_cmt_ranges(buf)?;
+        at_box_end.set(out.is_none() && ends_before_exif_box(MediaMimeImage::Cr3, buf));
+        need_more_if(at_box_end.get(), out)
+    });
+    let cmt_ranges = none_at_eof(at_box_end.get(), cmt_ranges)?;
 
     cr3_ranges_to_iter(parser, cmt_ranges)
 }
@@ -295,22 +348,35 @@ where
     P: crate::parser_async::AsyncBufParser + crate::parser::ShareBuf,
 {
     if mime_img == MediaMimeImage::Cr3 {
+        let at_box_end = AtomicBool::new(false);
         let cmt_ranges = parser
             .load_and_parse(reader, skip_by_seek, |buf, _state| {
-                cr3::extract_all_cmt_ranges(buf)
+                at_box_end.store(false, Ordering::Relaxed);
+                let out = cr3::extract_all_cmt_ranges(buf)?;
+                let at_end = out.is_none() && ends_before_exif_box(MediaMimeImage::Cr3, buf);
+                at_box_end.store(at_end, Ordering::Relaxed);
+                need_more_if(at_end, out)
             })
-            .await?;
+            .await;
+        let cmt_ranges = none_at_eof(at_box_end.load(Ordering::Relaxed), cmt_ranges)?;
         return cr3_ranges_to_iter(parser, cmt_ranges);
     }
     if mime_img == MediaMimeImage::Png {
         return parse_png_exif_iter_async(parser, reader, skip_by_seek).await;
     }
 
+    let at_box_end = AtomicBool::new(false);
     let out = parser
         .load_and_parse(reader, skip_by_seek, |buf, state| {
-            extract_exif_range(mime_img, buf, state)
+            at_box_end.store(false, Ordering::Relaxed);
+            let first = state.is_none();
+            let out = extract_exif_range(mime_img, buf, state)?;
+            let at_end = first && out.is_none() && ends_before_exif_box(mime_img, buf);
+            at_box_end.store(at_end, Ordering::Relaxed);
+            need_more_if(at_end, out)
         })
-        .await?;
+        .await;
+    let out = none_at_eof(at_box_end.load(Ordering::Relaxed), out)?;
 
     let has_track = match mime_img {
         MediaMimeImage::Jpeg => detect_motion_photo_async(parser, reader).await,
-- 
2.43.0


From bcac34e85fa9da7ad6dea0b3e5cc3da1feaa35a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:43 +0000
Subject: [PATCH 24/28] fix: a RAF stream failed when a loaded buffer ended at
 the preview's start marker

---
 src/raf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raf.rs b/src/raf.rs
index 27252ce..9bb0716 100644
--- a/src/raf.rs
+++ b/src/raf.rs
@@ -48,7 +48,8 @@ impl RafInfo<'_> {
             })?;
         let (remain, _) = take(skip_n)(remain)?;
 
-        // parse as a JPEG
+        // parse as a JPEG; its SOI marker may not have been loaded yet
+        let _ = take(2usize)(remain)?;
         jpeg::check_jpeg(remain).map_err(|_| {
             nom::Err::Failure(nom::error::make_error(remain, nom::error::ErrorKind::Fail))
         })?;
-- 
2.43.0


From dca8c5b722e460eefb406e860096221b15c1a05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:09 +0000
Subject: [PATCH 25/28] fix: a CR3 file with nothing but maker notes has no
 Exif data

---
 src/exif.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exif.rs b/src/exif.rs
index 2132156..2ac12b7 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -169,7 +169,8 @@ fn cr3_ranges_to_iter(
         });
     };
 
-    if cmt_ranges.ranges.is_empty() {
+    // MakerNotes alone (CMT3) are not Exif data
+    if cmt_ranges.ranges.iter().all(|(id, _)| *id == "CMT3") {
         return Err(crate::Error::Malformed {
             kind: crate::error::MalformedKind::IsoBmffBox,
             message: "cr3: no CMT ranges available".into(),
-- 
2.43.0


From 32a5acf0bc70a15258833e9fb61484167ea3b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 26/28] fix: a long GPSVersionID lying past the loaded part of
 a streamed TIFF was reported truncated

---
 src/exif/travel.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/exif/travel.rs b/src/exif/travel.rs
index a0dcb85..909e339 100644
--- a/src/exif/travel.rs
+++ b/src/exif/travel.rs
@@ -9,7 +9,7 @@ use crate::{
     error::{nom_error_to_parsing_error_with_state, MalformedKind, ParsingError},
     exif::TiffHeader,
     values::{array_to_string, DataFormat},
-    TagOrCode,
+    ExifTag, TagOrCode,
 };
 
 use super::{exif_exif::IFD_ENTRY_SIZE, exif_iter::SUBIFD_TAGS};
@@ -19,12 +19,9 @@ use super::{exif_exif::IFD_ENTRY_SIZE, exif_iter::SUBIFD_TAGS};
 /// Currently only used to extract Exif data for *.tiff files.
 ///
 /// NOTE: `parse_tag_entry_header` short-circuits on `tag == 0` as a guard
-/// against zero-padded malformed IFDs. This is safe **today** because we
-/// only observe `sub_ifd_offset`, and tag 0 is never in `SUBIFD_TAGS`. If
-/// this struct is ever extended to emit entry values, gate that
-/// short-circuit on "not inside the GPS sub-IFD" — tag 0 is the legitimate
-/// GPSVersionID and dropping it loses every following GPS field. See
-/// `IfdIter::is_gps_subifd` in `exif_iter.rs` and issue #50.
+/// against zero-padded malformed IFDs, but not inside the GPS sub-IFD: there
+/// tag 0 is the legitimate GPSVersionID, whose data has to be loaded like any
+/// other entry's. See `IfdIter::is_gps_subifd` in `exif_iter.rs` and issue #50.
 pub(crate) struct IfdHeaderTravel<'a> {
     // starts from file beginning
     data: &'a [u8],
@@ -73,7 +70,7 @@ impl<'a> IfdHeaderTravel<'a> {
         )
             .parse(entry_data)?;
 
-        if tag == 0 {
+        if tag == 0 && !self.is_gps_subifd() {
             return Ok((remain, None));
         }
 
@@ -133,6 +130,10 @@ impl<'a> IfdHeaderTravel<'a> {
         Ok((&[][..], Some(entry)))
     }
 
+    fn is_gps_subifd(&self) -> bool {
+        self.tag.tag() == Some(ExifTag::GPSInfo)
+    }
+
     fn get_data_pos(&'a self, value_or_offset: u32) -> u32 {
         // value_or_offset.saturating_sub(self.offset)
         value_or_offset
@@ -170,13 +171,14 @@ impl<'a> IfdHeaderTravel<'a> {
         self.travel_unvisited(depth, &mut HashSet::new())
     }
 
-    /// `visited` holds the sub-IFD offsets that are already loaded: visiting
-    /// them once is enough, and many entries may point to the same sub-IFD.
+    /// `visited` holds the sub-IFDs (offset and whether read as GPS) that are
+    /// already loaded: visiting them once is enough, and many entries may point
+    /// to the same sub-IFD.
     #[tracing::instrument(skip(self, visited))]
     fn travel_unvisited(
         &mut self,
         depth: usize,
-        visited: &mut HashSet<usize>,
+        visited: &mut HashSet<(usize, bool)>,
     ) -> Result<(), ParsingError> {
         if depth >= 3 {
             let msg = "depth shouldn't be greater than 3";
@@ -223,7 +225,7 @@ impl<'a> IfdHeaderTravel<'a> {
         }
 
         for mut ifd in sub_ifds {
-            if visited.insert(ifd.offset) {
+            if visited.insert((ifd.offset, ifd.is_gps_subifd())) {
                 ifd.travel_unvisited(depth + 1, visited)?;
             }
         }
-- 
2.43.0


From ccc1dc135d2daa8f9cf1148614f9c65a760d5552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 27/28] fix: a zero sub-IFD pointer was followed to the start
 of the data if a directory fits there

---
 src/exif/exif_iter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 0a93806..c90040d 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -270,7 +270,7 @@ impl ExifIter {
         let Some(ifd) = iter.ifds.last() else {
             return Ok(None);
         };
-        if offset as usize >= ifd.input.len() {
+        if offset == 0 || offset as usize >= ifd.input.len() {
             return Err(crate::Error::Malformed {
                 kind: crate::error::MalformedKind::IfdEntry,
                 message: "GPSInfo offset out of range".into(),
@@ -808,7 +808,8 @@ impl IfdIter {
         tag: Option<u16>,
     ) -> Option<IfdEntry> {
         let offset = self.get_data_pos(value_or_offset);
-        if offset < self.input.len() {
+        // A zero pointer means there is no such IFD
+        if offset > 0 && offset < self.input.len() {
             match IfdIter::try_new(
                 ifd_idx,
                 self.input.clone(),
-- 
2.43.0


From eedbbd6594da4716a568aaabc5e611dc8a28ebbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 28/28] fix: an IFD of a TIFF lying across the 4 GiB mark was
 checked at a wrapped position

---
 src/exif/travel.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/exif/travel.rs b/src/exif/travel.rs
index 909e339..b6d76e6 100644
--- a/src/exif/travel.rs
+++ b/src/exif/travel.rs
@@ -140,9 +140,8 @@ impl<'a> IfdHeaderTravel<'a> {
     }
 
     #[tracing::instrument(skip(self))]
-    fn parse_ifd_entry_header(&self, pos: u32) -> IResult<&[u8], Option<IfdHeaderTravel<'a>>> {
-        let (_, entry_data) =
-            nom::bytes::streaming::take(IFD_ENTRY_SIZE)(&self.data[pos as usize..])?;
+    fn parse_ifd_entry_header(&self, pos: usize) -> IResult<&[u8], Option<IfdHeaderTravel<'a>>> {
+        let (_, entry_data) = nom::bytes::streaming::take(IFD_ENTRY_SIZE)(&self.data[pos..])?;
 
         let (remain, entry) = self.parse_tag_entry_header(entry_data)?;
 
@@ -208,7 +207,7 @@ impl<'a> IfdHeaderTravel<'a> {
             if pos >= self.data.len() {
                 break;
             }
-            let (_, sub_ifd) = self.parse_ifd_entry_header(pos as u32).map_err(
+            let (_, sub_ifd) = self.parse_ifd_entry_header(pos).map_err(
                 |e: nom::Err<nom::error::Error<&[u8]>>| {
                     nom_error_to_parsing_error_with_state(e, MalformedKind::IfdEntry, None).err
                 },
-- 
2.43.0

