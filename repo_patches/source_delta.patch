From e5419b777586a0fd4dfa3a36818d05570cc19c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 01/36] fix: reject VBRs that do not fit into 64 bits

An over-long VBR (more continuation chunks than 64 bits can hold)
overflowed the shift: a panic with overflow checks, a wrong value without.
---
 llvm-bitcursor/src/error.rs | 4 ++++
 llvm-bitcursor/src/lib.rs   | 9 ++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/llvm-bitcursor/src/error.rs b/llvm-bitcursor/src/error.rs
index 905a66c..c5ee9ed 100644
--- a/llvm-bitcursor/src/error.rs
+++ b/llvm-bitcursor/src/error.rs
@@ -25,6 +25,10 @@ pub enum Error {
     #[cfg(any(feature = "vbr", doc))]
     #[error("invalid VBR width (must be > 1 but <= system word width)")]
     InvalidVbrWidth,
+    /// A VBR-encoded integer doesn't fit into 64 bits.
+    #[cfg(any(feature = "vbr", doc))]
+    #[error("VBR is too large (must fit in 64 bits)")]
+    VbrTooLarge,
     /// An I/O operation completed partially, but the inner buffer ended before it full completion.
     #[error("too little data to service request")]
     Short,
diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 70a6d59..8317014 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -298,7 +298,14 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
             // Read a block, add it to the result (with the potential continuation bit masked off)
             let block = self.read(width)?;
             log::debug!("block: {:#b}, masked: {:#b}", block, block & !block_mask);
-            result |= (block & !block_mask) << shift;
+            let value = block & !block_mask;
+
+            // Like LLVM, we only support VBRs that fit into 64 bits. Anything larger is
+            // malformed, and would otherwise be silently truncated (or overflow our shift).
+            if shift >= Self::BLOCK_SIZE_BITS || (value << shift) >> shift != value {
+                return Err(Error::VbrTooLarge);
+            }
+            result |= value << shift;
 
             // If we don't have a continuation bit, then we're done with the VBR.
             let continuation = (block & block_mask) != 0;
-- 
2.43.0


From 189bd69e7a93c89398050d195a383db0295f0c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 02/36] fix: don't overflow on relative seeks

Seeking by close to i64::MAX from the current position overflowed. The
wrapped sum is negative, i.e. rejected by the bounds check that follows.
---
 llvm-bitcursor/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 8317014..74f31b3 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -380,7 +380,7 @@ impl<T: AsRef<[u8]>> io::Seek for BitCursor<T> {
                 // Seeking backwards from the end is perfectly fine.
                 ((self.byte_len() as i64) + pos) as u64
             }
-            io::SeekFrom::Current(pos) => ((self.tell_byte() as i64) + pos) as u64,
+            io::SeekFrom::Current(pos) => (self.tell_byte() as i64).wrapping_add(pos) as u64,
         } as usize;
 
         // Sanity check: we can't seek before or beyond the backing buffer.
-- 
2.43.0


From 09aee41629bb70ca2870fa7d6e0f6a00b8dc45cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:37 +0000
Subject: [PATCH 03/36] fix: align32 aligns relative to the stream's start

The alignment was computed from the bits left in the current block, which
is wrong for short blocks and for blocks loaded after an unaligned seek.
---
 llvm-bitcursor/src/lib.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 74f31b3..20a3424 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -345,12 +345,13 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
     pub fn align32(&mut self) {
         log::debug!("aligning the cursor");
 
-        if self.bit_index >= 32 {
-            self.current_block >>= self.bit_index - 32;
-            self.bit_index = 32;
-        } else {
-            self.clear_block_state();
-        }
+        // NOTE: The boundary is relative to the beginning of the stream. We can't derive it from
+        // the number of bits left in the current block, since blocks can begin at any byte
+        // (after a byte-granular seek) and can be short (at the end of the stream).
+        let aligned = (self.tell_bit() + 31) / 32 * 4;
+
+        self.clear_block_state();
+        self.byte_pos = aligned.min(self.byte_len());
     }
 }
 
-- 
2.43.0


From a3c54c0ae2b8d6564621885cf2d538a37d4143e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 04/36] fix: don't reserve memory for untrusted operand counts

A corrupted operand count, array length or blob length made the parser
panic (capacity overflow) or abort (allocation failure).
---
 llvm-bitstream/src/abbrev.rs | 6 ++++--
 llvm-bitstream/src/parser.rs | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index e7293f7..424b317 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -78,7 +78,8 @@ impl AbbrevOp {
                 // TODO(ww): Sanity check array_len here.
                 let array_len = cur.read_vbr(6)? as usize;
 
-                let mut fields: Fields = Vec::with_capacity(array_len);
+                // NOTE: `array_len` is untrusted, so we can't use it to reserve space up front.
+                let mut fields: Fields = Vec::new();
                 for _ in 0..array_len {
                     fields.extend(elem.parse(cur)?);
                 }
@@ -98,7 +99,8 @@ impl AbbrevOp {
                 // TODO(ww): This read loop is probably slower than it needs to be;
                 // `BitCursor` could probably learn a `read_bytes` API that's
                 // only allowed when the stream is byte-aligned.
-                let mut fields: Fields = Vec::with_capacity(blob_len);
+                // NOTE: Like `array_len` above, `blob_len` is untrusted.
+                let mut fields: Fields = Vec::new();
                 for _ in 0..blob_len {
                     fields.push(cur.read_exact::<u8>()?.into());
                 }
diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index a92a88a..15cdde6 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -322,7 +322,8 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
 
         log::debug!("unabbrev record code={}, num_opnds={}", code, num_opnds);
 
-        let mut fields: Fields = Vec::with_capacity(num_opnds as usize);
+        // NOTE: `num_opnds` is untrusted, so we can't use it to reserve space up front.
+        let mut fields: Fields = Vec::new();
         for _ in 0..num_opnds {
             fields.push(self.cursor.read_vbr(6)?);
         }
-- 
2.43.0


From f531a672e69efa8e1314a1f6883c3f37f7f8f5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:06 +0000
Subject: [PATCH 05/36] fix: don't panic on a SETBID record without operands

---
 llvm-bitstream/src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 15cdde6..8f3d594 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -333,7 +333,10 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
             let code: BlockInfoCode = record.code.try_into()?;
             match code {
                 BlockInfoCode::SetBid => {
-                    let block_id: u64 = record.fields[0];
+                    let block_id: u64 = *record
+                        .fields
+                        .first()
+                        .ok_or_else(|| Error::StreamParse("SETBID without a block ID".into()))?;
                     log::debug!("SETBID: BLOCKINFO block ID is now {}", block_id);
                     self.scope_mut().set_blockinfo_block_id(block_id)?;
                 }
-- 
2.43.0


From 6cc3f2e59f118c5b49d39a3329e12cfcc0399e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 06/36] fix: don't panic on degenerate abbreviations

An abbreviation whose only operand is an array underflowed while being
defined; one that begins with an empty array or blob yields no record code.
---
 llvm-bitstream/src/abbrev.rs | 2 +-
 llvm-bitstream/src/parser.rs | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index 424b317..e62a671 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -176,7 +176,7 @@ impl Abbrev {
                 AbbrevOpEnc::Array => {
                     // There is only ever one array operand in an abbreviation definition,
                     // and it is always the second-to-last operand. Anything else is an error.
-                    if idx != num_abbrev_opnds - 2 {
+                    if idx + 2 != num_abbrev_opnds {
                         return Err(Error::AbbrevParse("array operand at invalid index".into()));
                     }
 
diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 8f3d594..d611fbb 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -365,8 +365,11 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         let mut fields = abbrev.parse(&mut self.cursor)?;
         log::debug!("parsed fields: {:?}", fields);
 
-        // Panic safety: every abbrev contains at least one operand, so this cannot panic.
-        // We also expect the first operand to always be a u64, indicating the record code.
+        // Every abbrev contains at least one operand, but that operand can be an empty
+        // array or blob. We expect the first field to always be a u64, indicating the record code.
+        if fields.is_empty() {
+            return Err(Error::StreamParse("abbreviated record has no code".into()));
+        }
         let code: u64 = fields.remove(0);
 
         if self.scope().is_blockinfo() {
-- 
2.43.0


From ff5c70f051f07f075f398d59176cda389badcf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 07/36] fix: reject unreadable abbreviation ID widths on block
 entry

A block that declares a width of 64 bits or more left the parser in a scope
where every read fails without consuming anything, i.e. iteration past
errors never terminated.
---
 llvm-bitstream/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index d611fbb..f48b085 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -12,6 +12,9 @@ use crate::abbrev::{self, AbbrevId};
 use crate::error::Error;
 use crate::record::{Block, Fields, Record};
 
+/// The maximum abbreviation ID width that a block can declare.
+const MAX_ABBREV_ID_WIDTH: u64 = 32;
+
 /// The kinds of entries we can see while advancing through the bitstream.
 /// Abbreviations are handled transparently by the parser, and thus are
 /// never surfaced as `StreamEntry` values.
@@ -212,7 +215,8 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
 
         self.cursor.align32();
 
-        if new_width < 1 {
+        // Like LLVM, we don't support abbreviation IDs wider than 32 bits.
+        if !(1..=MAX_ABBREV_ID_WIDTH).contains(&new_width) {
             return Err(Error::BadScope(format!(
                 "can't enter block: invalid code side: {}",
                 new_width
-- 
2.43.0


From d10561fe40f6bd1f99a42f12896a45b18026c94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 08/36] fix: don't recurse once per hidden item while advancing

A long run of items that produce no entry (abbreviation definitions, the
contents of BLOCKINFO) recursed once per item and overflowed the stack.
---
 llvm-bitstream/src/parser.rs | 38 +++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index f48b085..b818fc7 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -393,6 +393,19 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
     /// [`Error::Exhausted`](Error::Exhausted) if the bitstream has
     /// been fully consumed.
     pub fn advance(&mut self) -> Result<StreamEntry, Error> {
+        // NOTE: Parse details that a stream consumer shouldn't have to be aware of (such as abbrev
+        // definitions and the BLOCKINFO block) don't produce entries. There can be any number of
+        // them in sequence, so skip them iteratively instead of recursing.
+        loop {
+            if let Some(entry) = self.advance_once()? {
+                return Ok(entry);
+            }
+        }
+    }
+
+    /// Parse a single item in the bitstream, returning the [`StreamEntry`](StreamEntry)
+    /// for it, or `None` if the item is a parse detail without an entry.
+    fn advance_once(&mut self) -> Result<Option<StreamEntry>, Error> {
         if self.cursor.exhausted() {
             return Err(Error::Exhausted);
         }
@@ -412,32 +425,17 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
             .into();
         log::debug!("next entry ID: {:?}", id);
 
-        // NOTE(ww): The strange `map` + `unwrap_or_else` pattern below is to keep the parser
-        // generalized without having to return `StreamEntries` that correspond to
-        // parse details that a stream consumer shouldn't have to be aware of
-        // (such as abbrev definitions and the BLOCKINFO block).
         match id {
-            AbbrevId::Reserved(ReservedAbbrevId::EndBlock) => {
-                self.exit_block()?.map(Ok).unwrap_or_else(|| self.advance())
-            }
-            AbbrevId::Reserved(ReservedAbbrevId::EnterSubBlock) => self
-                .enter_block()?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
+            AbbrevId::Reserved(ReservedAbbrevId::EndBlock) => self.exit_block(),
+            AbbrevId::Reserved(ReservedAbbrevId::EnterSubBlock) => self.enter_block(),
             AbbrevId::Reserved(ReservedAbbrevId::DefineAbbrev) => {
                 // DEFINE_ABBREV is always a parse detail, so we don't even bother
                 // trying to return a StreamEntry for it.
                 self.define_abbrev()?;
-                self.advance()
+                Ok(None)
             }
-            AbbrevId::Reserved(ReservedAbbrevId::UnabbrevRecord) => self
-                .parse_unabbrev()?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
-            AbbrevId::Defined(abbrev_id) => self
-                .parse_with_abbrev(abbrev_id)?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
+            AbbrevId::Reserved(ReservedAbbrevId::UnabbrevRecord) => self.parse_unabbrev(),
+            AbbrevId::Defined(abbrev_id) => self.parse_with_abbrev(abbrev_id),
         }
     }
 }
-- 
2.43.0


From eebcc1ad9abaee12e249d89883744f16cf853455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 09/36] fix: end wrapped bitstreams at offset + size

The end was computed from the header's size instead of the declared offset:
bytes were cut off or bytes beyond the wrapped bitstream were parsed whenever
the bitstream doesn't directly follow the header.
---
 llvm-bitstream/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/llvm-bitstream/src/lib.rs b/llvm-bitstream/src/lib.rs
index 8b68c61..dde4d96 100644
--- a/llvm-bitstream/src/lib.rs
+++ b/llvm-bitstream/src/lib.rs
@@ -120,10 +120,11 @@ impl<T: AsRef<[u8]>> Bitstream<T> {
         // NOTE(ww): The `new_with_len` API is a little bit silly -- ideally we'd just
         // take a slice of `inner` and create a new `BitCursor` with it, but we can't do
         // that while preserving the generic `T` bound.
-        // The manual fixup (+ 20) is another artifact of this -- we keep the wrapper header
-        // in the new cursor to make the offsets more intelligible, which means that we
-        // also need to extend the end of our cursor's buffer.
-        let actual_length = (wrapper.size as usize) + 20;
+        // The manual fixup (+ offset) is another artifact of this -- we keep everything that
+        // precedes the bitstream (i.e., at least the wrapper header) in the new cursor to make
+        // the offsets more intelligible, which means that we also need to extend the end of our
+        // cursor's buffer.
+        let actual_length = (wrapper.offset as usize) + (wrapper.size as usize);
         let mut cur = BitCursor::new_with_len(inner, actual_length)?;
 
         cur.seek(SeekFrom::Start(wrapper.offset.into()))
-- 
2.43.0


From f14d91c8bf75936831740aca03bcd2f004eeaa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 10/36] fix: bound the depth of nested blocks while unrolling

Unrolling recurses once per nested block, so a damaged or hostile stream
overflowed the stack.
---
 llvm-mapper/src/unroll.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 614ccd0..d1847d3 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -15,6 +15,10 @@ use crate::error::Error;
 use crate::map::PartialMapCtx;
 use crate::record::{RecordBlobError, RecordStringError};
 
+/// The maximum depth of nested blocks that we're willing to unroll. This is well beyond
+/// anything that LLVM itself produces.
+const MAX_BLOCK_DEPTH: usize = 64;
+
 /// An "unrolled" record. This is internally indistinguishable from a raw bitstream
 /// [`Record`](llvm_bitstream::record::Record), but is newtyped to enforce proper
 /// isolation of concerns.
@@ -266,7 +270,14 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
         fn enter_block<T: AsRef<[u8]>>(
             bitstream: &mut Bitstream<T>,
             block: BsBlock,
+            depth: usize,
         ) -> Result<Block, Error> {
+            // Each level of nesting is a level of recursion (here, and when e.g. cloning or
+            // dropping the unrolled block), so it needs to be bounded.
+            if depth > MAX_BLOCK_DEPTH {
+                return Err(Error::Unroll("blocks are nested too deeply".into()));
+            }
+
             let mut unrolled_block = Block::new(block.block_id);
 
             // Once we're in a block, we do the following:
@@ -283,7 +294,7 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
                 match entry? {
                     StreamEntry::Record(record) => unrolled_block.records.0.push(Record(record)),
                     StreamEntry::SubBlock(block) => {
-                        let unrolled_child = enter_block(bitstream, block)?;
+                        let unrolled_child = enter_block(bitstream, block, depth + 1)?;
                         unrolled_block
                             .blocks
                             .0
@@ -325,7 +336,7 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
                     Error::Unroll("bitstream has non-blocks at the top-level scope".into())
                 })?;
 
-                enter_block(&mut bitstream, block)?
+                enter_block(&mut bitstream, block, 1)?
             };
 
             // Our top-level block can be one of four cases, if it's valid.
-- 
2.43.0


From 364094209c72e5dfa90664992fdc226ac917542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 11/36] fix: don't underflow when extracting strings from empty
 records

---
 llvm-mapper/src/unroll.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index d1847d3..261d569 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -38,7 +38,7 @@ impl Record {
     pub fn try_string(&self, idx: usize) -> Result<String, RecordStringError> {
         // If our start index lies beyond the record fields or would produce
         // an empty string, it's invalid.
-        if idx >= self.0.fields.len() - 1 {
+        if idx >= self.0.fields.len().saturating_sub(1) {
             return Err(RecordStringError::BadIndex(idx, self.0.fields.len()));
         }
 
@@ -58,7 +58,7 @@ impl Record {
     pub fn try_blob(&self, idx: usize) -> Result<Vec<u8>, RecordBlobError> {
         // If our start index lies beyond the record fields or would produce
         // an empty string, it's invalid.
-        if idx >= self.0.fields.len() - 1 {
+        if idx >= self.0.fields.len().saturating_sub(1) {
             return Err(RecordBlobError::BadIndex(idx, self.0.fields.len()));
         }
 
-- 
2.43.0


From 29a0a4c3a20d36d8dd16794d8e847c8bda026beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 12/36] fix: don't panic on an unterminated attribute key

A string key-value attribute whose key isn't terminated within the record
made the parser slice past the record's fields.
---
 llvm-mapper/src/block/attributes.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index ad39a9c..80e37bf 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -393,7 +393,12 @@ impl Attribute {
         macro_rules! take_string {
             // NOTE(ww): Weird double-brace to make sure the macro expands as a full expression.
             () => {{
-                let str_bytes = record.fields()[start + fieldcount..]
+                // NOTE: The previous string might not have been terminated, in which case we've
+                // counted one field more than the record has.
+                let str_bytes = record
+                    .fields()
+                    .get(start + fieldcount..)
+                    .ok_or(AttributeError::TooShort)?
                     .iter()
                     .take_while(|f| **f != 0)
                     .map(|f| u8::try_from(*f))
-- 
2.43.0


From 385d0664838e46959a7150e75206da1f4d31add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 13/36] fix: return errors instead of panicking on unsupported
 records

Function blocks and old-style attribute entries aren't supported yet, but
that's no reason to panic while parsing a (possibly damaged) input. The block
count of a function is untrusted, so don't reserve memory for it either.
---
 llvm-mapper/src/block/attributes.rs   |  4 +-
 llvm-mapper/src/block/function/mod.rs | 98 ++++++++++++++-------------
 2 files changed, 55 insertions(+), 47 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 80e37bf..0536c89 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -480,7 +480,9 @@ impl TryFrom<(&'_ Block, &'_ PartialMapCtx)> for Attributes {
 
             match code {
                 AttributeCode::EntryOld => {
-                    unimplemented!();
+                    return Err(
+                        MapError::Unsupported("old-style attribute entries".into()).into()
+                    );
                 }
                 AttributeCode::Entry => {
                     let mut groups = vec![];
diff --git a/llvm-mapper/src/block/function/mod.rs b/llvm-mapper/src/block/function/mod.rs
index 605ede3..d18d36c 100644
--- a/llvm-mapper/src/block/function/mod.rs
+++ b/llvm-mapper/src/block/function/mod.rs
@@ -58,7 +58,7 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
         // TODO: Handle each `MODULE_CODE_FUNCTION`'s sub-blocks.
 
         // A function block should have exactly one DECLAREBLOCKS record.
-        let nblocks = {
+        let _nblocks = {
             let declareblocks = block
                 .records
                 .exactly_one(FunctionCode::DeclareBlocks)
@@ -72,7 +72,7 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
 
         // Like the type table, we need a little bit of a state machine to
         // construct each function's basic blocks and constituent instructions.
-        let mut _bbs: Vec<BasicBlock> = Vec::with_capacity(nblocks as usize);
+        let mut _bbs: Vec<BasicBlock> = Vec::new();
         let mut _bb = BasicBlock::default();
 
         for record in block.records.into_iter() {
@@ -103,6 +103,12 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                 };
             }
 
+            macro_rules! unsupported {
+                () => {
+                    return Err(MapError::Unsupported(format!("function record: {code:?}")).into())
+                };
+            }
+
             // Function codes fall into a few general categories:
             //
             // * State machine management (`DECLAREBLOCKS`)
@@ -116,11 +122,11 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                 FunctionCode::DeclareBlocks => continue,
 
                 // Operand bundles.
-                FunctionCode::OperandBundle => unimplemented!(),
+                FunctionCode::OperandBundle => unsupported!(),
 
                 // Debug state.
-                FunctionCode::DebugLoc => unimplemented!(),
-                FunctionCode::DebugLocAgain => unimplemented!(),
+                FunctionCode::DebugLoc => unsupported!(),
+                FunctionCode::DebugLocAgain => unsupported!(),
 
                 // The big one: all instructions.
                 FunctionCode::InstBinop => {
@@ -133,18 +139,18 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                     // [opval, opty, destty, castopc]
                     let [_opval, _opty, _destty, _castopc] = unpack_fields!(4)?;
                 }
-                FunctionCode::InstGepOld => todo!(),
-                FunctionCode::InstSelect => todo!(),
-                FunctionCode::InstExtractelt => todo!(),
-                FunctionCode::InstInsertelt => todo!(),
-                FunctionCode::InstShufflevec => todo!(),
-                FunctionCode::InstCmp => todo!(),
-                FunctionCode::InstRet => todo!(),
-                FunctionCode::InstBr => todo!(),
-                FunctionCode::InstSwitch => todo!(),
-                FunctionCode::InstInvoke => todo!(),
-                FunctionCode::InstUnreachable => todo!(),
-                FunctionCode::InstPhi => todo!(),
+                FunctionCode::InstGepOld => unsupported!(),
+                FunctionCode::InstSelect => unsupported!(),
+                FunctionCode::InstExtractelt => unsupported!(),
+                FunctionCode::InstInsertelt => unsupported!(),
+                FunctionCode::InstShufflevec => unsupported!(),
+                FunctionCode::InstCmp => unsupported!(),
+                FunctionCode::InstRet => unsupported!(),
+                FunctionCode::InstBr => unsupported!(),
+                FunctionCode::InstSwitch => unsupported!(),
+                FunctionCode::InstInvoke => unsupported!(),
+                FunctionCode::InstUnreachable => unsupported!(),
+                FunctionCode::InstPhi => unsupported!(),
                 FunctionCode::InstAlloca => {
                     // [instty, opty, op, align]
                     let [_instty, _opty, _op, _align] = unpack_fields!(4)?;
@@ -153,49 +159,49 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                     // [opty, op, align, vol]
                     let [_opty, _op, _align, _vol] = unpack_fields!(4)?;
                 }
-                FunctionCode::InstVaarg => todo!(),
-                FunctionCode::InstStoreOld => todo!(),
-                FunctionCode::InstExtractval => todo!(),
-                FunctionCode::InstInsertval => todo!(),
-                FunctionCode::InstCmp2 => todo!(),
-                FunctionCode::InstVselect => todo!(),
-                FunctionCode::InstInboundsGepOld => todo!(),
-                FunctionCode::InstIndirectbr => todo!(),
-                FunctionCode::InstCall => todo!(),
-                FunctionCode::InstFence => todo!(),
-                FunctionCode::InstCmpxchgOld => todo!(),
-                FunctionCode::InstAtomicrmwOld => todo!(),
-                FunctionCode::InstResume => todo!(),
-                FunctionCode::InstLandingpadOld => todo!(),
-                FunctionCode::InstLoadatomic => todo!(),
-                FunctionCode::InstStoreatomicOld => todo!(),
-                FunctionCode::InstGep => todo!(),
+                FunctionCode::InstVaarg => unsupported!(),
+                FunctionCode::InstStoreOld => unsupported!(),
+                FunctionCode::InstExtractval => unsupported!(),
+                FunctionCode::InstInsertval => unsupported!(),
+                FunctionCode::InstCmp2 => unsupported!(),
+                FunctionCode::InstVselect => unsupported!(),
+                FunctionCode::InstInboundsGepOld => unsupported!(),
+                FunctionCode::InstIndirectbr => unsupported!(),
+                FunctionCode::InstCall => unsupported!(),
+                FunctionCode::InstFence => unsupported!(),
+                FunctionCode::InstCmpxchgOld => unsupported!(),
+                FunctionCode::InstAtomicrmwOld => unsupported!(),
+                FunctionCode::InstResume => unsupported!(),
+                FunctionCode::InstLandingpadOld => unsupported!(),
+                FunctionCode::InstLoadatomic => unsupported!(),
+                FunctionCode::InstStoreatomicOld => unsupported!(),
+                FunctionCode::InstGep => unsupported!(),
                 FunctionCode::InstStore => {
                     // [ptrty, ptr, valty, val, align, vol]
                     let [_ptrty, _ptr, _valty, _val] = unpack_fields!(4)?;
 
                     // NOTE: Two more optional fields: align and vol.
                 }
-                FunctionCode::InstStoreatomic => todo!(),
-                FunctionCode::InstCmpxchg => todo!(),
-                FunctionCode::InstLandingpad => todo!(),
-                FunctionCode::InstCleanupret => todo!(),
-                FunctionCode::InstCatchret => todo!(),
-                FunctionCode::InstCatchpad => todo!(),
-                FunctionCode::InstCleanuppad => todo!(),
-                FunctionCode::InstCatchswitch => todo!(),
+                FunctionCode::InstStoreatomic => unsupported!(),
+                FunctionCode::InstCmpxchg => unsupported!(),
+                FunctionCode::InstLandingpad => unsupported!(),
+                FunctionCode::InstCleanupret => unsupported!(),
+                FunctionCode::InstCatchret => unsupported!(),
+                FunctionCode::InstCatchpad => unsupported!(),
+                FunctionCode::InstCleanuppad => unsupported!(),
+                FunctionCode::InstCatchswitch => unsupported!(),
                 FunctionCode::InstUnop => {
                     // [opval, ty, opcode]
                     let [_opval, ty, opcode] = unpack_fields!(3)?;
                     let _ty = get_type!(ty)?;
                     let _opcode = UnaryOp::try_from(opcode)?;
                 }
-                FunctionCode::Instcallbr => todo!(),
-                FunctionCode::InstFreeze => todo!(),
-                FunctionCode::InstAtomicrmw => todo!(),
+                FunctionCode::Instcallbr => unsupported!(),
+                FunctionCode::InstFreeze => unsupported!(),
+                FunctionCode::InstAtomicrmw => unsupported!(),
             }
         }
 
-        unimplemented!()
+        Err(MapError::Unsupported("function blocks".into()).into())
     }
 }
-- 
2.43.0


From f3d6edf22f9558e5445a1468d8f4298889bb2749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 14/36] fix: don't reserve memory for an untrusted type count

---
 llvm-mapper/src/block/type_table.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 3ffdaa9..a58e21c 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -228,7 +228,8 @@ impl PartialTypeTable {
     fn new(numentries: usize) -> Self {
         Self {
             numentries: numentries,
-            inner: Vec::with_capacity(numentries),
+            // NOTE: `numentries` is untrusted, so we can't use it to reserve space up front.
+            inner: Vec::new(),
         }
     }
 
@@ -291,7 +292,7 @@ impl TryFrom<&'_ Block> for TypeTable {
     type Error = TypeTableError;
 
     fn try_from(block: &Block) -> Result<Self, Self::Error> {
-        // Figure out how many type entries we have, and reserve the space for them up-front.
+        // Figure out how many type entries we have.
         let numentries = *block
             .records
             .one(TypeCode::NumEntry)
-- 
2.43.0


From 153a39ed5f94edadc4bd7ceebd976a8ba936b9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 15/36] fix: bound the depth of nested types

Recursive types (which are legal, but not representable by our fully owned
types) and very deeply nested types overflowed the stack while being resolved.
---
 llvm-mapper/src/block/type_table.rs | 31 +++++++++++++++++++----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index a58e21c..fd97be1 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -13,6 +13,9 @@ use thiserror::Error;
 use crate::map::MapError;
 use crate::unroll::Block;
 
+/// The maximum depth of nested types that we're willing to resolve.
+const MAX_TYPE_DEPTH: usize = 128;
+
 /// Errors that can occur when mapping the type table.
 #[derive(Debug, Error)]
 pub enum TypeTableError {
@@ -108,7 +111,13 @@ enum PartialType {
 impl PartialType {
     /// Fallibly convert this `PartialType` into a `Type`, using the given
     /// `PartialTypeTable` as a reference.
-    fn resolve(&self, partials: &PartialTypeTable) -> Result<Type, TypeTableError> {
+    fn resolve(&self, partials: &PartialTypeTable, depth: usize) -> Result<Type, TypeTableError> {
+        // Types are fully owned once resolved, so they can't be recursive: each level of
+        // nesting is a level of recursion here.
+        if depth > MAX_TYPE_DEPTH {
+            return Err(MapError::Unsupported("recursive or deeply nested type".into()).into());
+        }
+
         match self {
             PartialType::Half => Ok(Type::Half),
             PartialType::BFloat => Ok(Type::BFloat),
@@ -125,17 +134,17 @@ impl PartialType {
             PartialType::Token => Ok(Type::Token),
             PartialType::Integer(ity) => Ok(Type::new_integer(ity.bit_width)?),
             PartialType::Function(fty) => {
-                let return_type = partials.resolve(&fty.return_type)?;
+                let return_type = partials.resolve(&fty.return_type, depth + 1)?;
                 let param_types = fty
                     .param_types
                     .iter()
-                    .map(|ty_ref| partials.resolve(ty_ref))
+                    .map(|ty_ref| partials.resolve(ty_ref, depth + 1))
                     .collect::<Result<Vec<_>, _>>()?;
 
                 Ok(Type::new_function(return_type, param_types, fty.is_vararg)?)
             }
             PartialType::Pointer(pty) => {
-                let pointee = partials.resolve(&pty.pointee)?;
+                let pointee = partials.resolve(&pty.pointee, depth + 1)?;
 
                 Ok(Type::new_pointer(pointee, pty.address_space)?)
             }
@@ -144,7 +153,7 @@ impl PartialType {
                 let field_types = sty
                     .field_types
                     .iter()
-                    .map(|fty| partials.resolve(fty))
+                    .map(|fty| partials.resolve(fty, depth + 1))
                     .collect::<Result<Vec<_>, _>>()?;
 
                 Ok(Type::new_struct(
@@ -154,20 +163,20 @@ impl PartialType {
                 )?)
             }
             PartialType::Array(aty) => {
-                let element_type = partials.resolve(&aty.element_type)?;
+                let element_type = partials.resolve(&aty.element_type, depth + 1)?;
 
                 Ok(Type::new_array(aty.num_elements, element_type)?)
             }
             PartialType::FixedVector(vty) => {
                 log::debug!("vty: {:?}", vty);
 
-                let element_type = partials.resolve(&vty.element_type)?;
+                let element_type = partials.resolve(&vty.element_type, depth + 1)?;
                 log::debug!("element_type: {:?}", partials.get(&vty.element_type));
 
                 Ok(Type::new_vector(vty.num_elements, element_type)?)
             }
             PartialType::ScalableVector(vty) => {
-                let element_type = partials.resolve(&vty.element_type)?;
+                let element_type = partials.resolve(&vty.element_type, depth + 1)?;
 
                 Ok(Type::new_scalable_vector(vty.num_elements, element_type)?)
             }
@@ -249,14 +258,14 @@ impl PartialTypeTable {
     }
 
     /// Fallibly converts the given `TypeRef` into a fully owned `Type`.
-    fn resolve(&self, ty_ref: &TypeRef) -> Result<Type, TypeTableError> {
+    fn resolve(&self, ty_ref: &TypeRef, depth: usize) -> Result<Type, TypeTableError> {
         // `TypeRef` resolution happens in two steps: we grab the corresponding
         // `PartialType`, and then resolve its subtypes.
         let pty = self.get(ty_ref)?;
 
         log::debug!("type ref {} resolves to {:?}", ty_ref.0, pty);
 
-        pty.resolve(self)
+        pty.resolve(self, depth)
     }
 
     /// Fallibly converts this `PartialTypeTable` into a `TypeTable`.
@@ -270,7 +279,7 @@ impl PartialTypeTable {
         let types = self
             .inner
             .iter()
-            .map(|pty| pty.resolve(&self))
+            .map(|pty| pty.resolve(&self, 0))
             .collect::<Result<Vec<_>, _>>()?;
 
         Ok(TypeTable(types))
-- 
2.43.0


From e889be97d62fdd507b9580a876b49a2365804b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 16/36] fix: give every named struct its own type table entry

A named or opaque struct that directly follows another struct was taken for
a completion of that struct: modules with two consecutive structs were either
rejected or had the two merged (and were then rejected for their table size).
---
 llvm-mapper/src/block/type_table.rs | 57 +++++++----------------------
 1 file changed, 13 insertions(+), 44 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index fd97be1..a6c1cc5 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -246,10 +246,6 @@ impl PartialTypeTable {
         self.inner.push(ty)
     }
 
-    fn last_mut(&mut self) -> Option<&mut PartialType> {
-        self.inner.last_mut()
-    }
-
     /// Fallibly convert a `TypeRef` into its `PartialType` in this partial type table.
     fn get(&self, ty_ref: &TypeRef) -> Result<&PartialType, TypeTableError> {
         self.inner
@@ -354,25 +350,13 @@ impl TryFrom<&'_ Block> for TypeTable {
                         .into());
                     }
 
-                    // Our opaque type might be forward-referenced. If so, we
-                    // fill in the previous type's name. Otherwise, we create
-                    // a new structure type with no body.
-                    if let Some(PartialType::Struct(s)) = partial_types.last_mut() {
-                        if s.name.is_some() {
-                            return Err(MapError::Invalid(
-                                "forward-declared opaque type already has name".into(),
-                            )
-                            .into());
-                        }
-
-                        s.name = Some(last_type_name.clone());
-                    } else {
-                        partial_types.add(PartialType::Struct(PartialStructType {
-                            name: Some(last_type_name.clone()),
-                            field_types: vec![],
-                            is_packed: false,
-                        }));
-                    }
+                    // NOTE: Forward references to this type are symbolic until the table is
+                    // reified, so there's never an existing entry to fill in here.
+                    partial_types.add(PartialType::Struct(PartialStructType {
+                        name: Some(last_type_name.clone()),
+                        field_types: vec![],
+                        is_packed: false,
+                    }));
 
                     last_type_name.clear();
                 }
@@ -466,27 +450,12 @@ impl TryFrom<&'_ Block> for TypeTable {
                         .map(|f| TypeRef(*f as usize))
                         .collect::<Vec<_>>();
 
-                    // Like with opaque types, we might be forward-referenced here.
-                    // If so, we update our pre-existing structure type with its
-                    // correct name and fields.
-                    if let Some(PartialType::Struct(s)) = partial_types.last_mut() {
-                        if s.name.is_some() || !s.field_types.is_empty() {
-                            return Err(MapError::Invalid(
-                                "forward-declared struct type already has name and/or type fields"
-                                    .into(),
-                            )
-                            .into());
-                        }
-
-                        s.name = Some(last_type_name.clone());
-                        s.field_types = field_types;
-                    } else {
-                        partial_types.add(PartialType::Struct(PartialStructType {
-                            name: Some(last_type_name.clone()),
-                            field_types,
-                            is_packed,
-                        }));
-                    }
+                    // Like with opaque types: there's never an existing entry to fill in here.
+                    partial_types.add(PartialType::Struct(PartialStructType {
+                        name: Some(last_type_name.clone()),
+                        field_types,
+                        is_packed,
+                    }));
 
                     last_type_name.clear();
                 }
-- 
2.43.0


From a1b0dabbe97704055e15a1be9e9b87e5b7141b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 17/36] fix: don't overflow on impossible string table
 references

---
 llvm-mapper/src/block/strtab.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/strtab.rs b/llvm-mapper/src/block/strtab.rs
index 8b1548f..e5ca0fe 100644
--- a/llvm-mapper/src/block/strtab.rs
+++ b/llvm-mapper/src/block/strtab.rs
@@ -79,7 +79,10 @@ impl Strtab {
     pub fn try_get(&self, sref: &StrtabRef) -> Result<&str, StrtabError> {
         let inner = self.as_ref();
 
-        if sref.size == 0 || sref.offset >= inner.len() || sref.offset + sref.size > inner.len() {
+        if sref.size == 0
+            || sref.offset >= inner.len()
+            || sref.size > inner.len() - sref.offset
+        {
             return Err(StrtabError::BadRange);
         }
 
-- 
2.43.0


From c596e21d8b89353c8ef50f68b7a27c7b63ab930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 18/36] fix: don't truncate widths, alignments and group
 references

Out-of-range values were truncated into (unrelated) valid ones, e.g. an
attribute group reference of 2^32 + 1 resolved to group 1.
---
 llvm-mapper/src/block/attributes.rs | 4 +++-
 llvm-mapper/src/block/type_table.rs | 3 ++-
 llvm-mapper/src/record/function.rs  | 4 +++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 0536c89..516613b 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -487,7 +487,9 @@ impl TryFrom<(&'_ Block, &'_ PartialMapCtx)> for Attributes {
                 AttributeCode::Entry => {
                     let mut groups = vec![];
                     for group_id in record.fields() {
-                        let group_id = *group_id as u32;
+                        // NOTE: Group IDs are 32 bits wide, so anything larger can't be defined.
+                        let group_id = u32::try_from(*group_id)
+                            .map_err(|_| AttributeError::BadAttributeGroup(u32::MAX))?;
                         log::debug!("group id: {}", group_id);
                         groups.push(
                             ctx.attribute_groups()
diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index a6c1cc5..73fd8c2 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -361,7 +361,8 @@ impl TryFrom<&'_ Block> for TypeTable {
                     last_type_name.clear();
                 }
                 TypeCode::Integer => {
-                    let bit_width = type_field!(0) as u32;
+                    let bit_width = u32::try_from(type_field!(0))
+                        .map_err(|_| IntegerTypeError::BadWidth)?;
                     partial_types.add(PartialType::Integer(PartialIntegerType { bit_width }));
                 }
                 TypeCode::Pointer => {
diff --git a/llvm-mapper/src/record/function.rs b/llvm-mapper/src/record/function.rs
index ed1966a..3d33fd2 100644
--- a/llvm-mapper/src/record/function.rs
+++ b/llvm-mapper/src/record/function.rs
@@ -155,7 +155,9 @@ impl<'ctx> CtxMappable<'ctx, Record> for Function<'ctx> {
 
         // TODO: Upgrade attributes here? It's what LLVM does.
 
-        let alignment = MaybeAlign::try_from(fields[7] as u8)?;
+        let alignment = MaybeAlign::try_from(
+            u8::try_from(fields[7]).map_err(|_| AlignError::ShiftTooBig(u8::MAX))?,
+        )?;
 
         let section = match fields[8] as usize {
             0 => None,
-- 
2.43.0


From 076fd207ae990950d6203a025cb886006a03c44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 19/36] fix: don't copy BLOCKINFO abbreviations into every
 block scope

---
 llvm-bitstream/src/parser.rs | 47 ++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index b818fc7..600f0b9 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -53,6 +53,9 @@ enum Scope {
         abbrev_id_width: u64,
         block_id: u64,
         blockinfo_block_id: Option<u64>,
+        /// How many of the `BLOCKINFO`-defined abbreviations for this block's ID
+        /// are visible in this scope. These precede the scope's own `abbrevs`.
+        blockinfo_abbrevs: usize,
         abbrevs: Vec<abbrev::Abbrev>,
     },
 }
@@ -65,11 +68,12 @@ impl Default for Scope {
 
 impl Scope {
     /// Returns a new (block) scope.
-    pub(self) fn new(abbrev_id_width: u64, block_id: u64) -> Self {
+    pub(self) fn new(abbrev_id_width: u64, block_id: u64, blockinfo_abbrevs: usize) -> Self {
         Self::Block {
             abbrev_id_width: abbrev_id_width,
             block_id: block_id,
             blockinfo_block_id: None,
+            blockinfo_abbrevs: blockinfo_abbrevs,
             abbrevs: vec![],
         }
     }
@@ -103,18 +107,33 @@ impl Scope {
         }
     }
 
-    /// Return a reference to the abbreviation definition with the given `abbrev_id`.
+    /// Return a reference to the abbreviation definition with the given `abbrev_id`,
+    /// which is either one of the given `BLOCKINFO`-defined ones or one of the scope's own.
     ///
     /// Returns an error if the scope cannot contain abbreviation definitions or does
     /// not have one for the given ID.
-    pub(self) fn get_abbrev(&self, abbrev_id: u64) -> Result<&abbrev::Abbrev, Error> {
+    pub(self) fn get_abbrev<'a>(
+        &'a self,
+        blockinfo: &'a HashMap<u64, Vec<abbrev::Abbrev>>,
+        abbrev_id: u64,
+    ) -> Result<&'a abbrev::Abbrev, Error> {
         match self {
             Scope::Initial => Err(Error::BadScope(
                 "non-block scope cannot contain records".into(),
             )),
-            Scope::Block { abbrevs, .. } => {
+            Scope::Block {
+                block_id,
+                blockinfo_abbrevs,
+                abbrevs,
+                ..
+            } => {
                 let idx = (abbrev_id as usize) - FIRST_APPLICATION_ABBREV_ID;
-                abbrevs.get(idx).ok_or(Error::BadAbbrev(abbrev_id))
+                let abbrev = if idx < *blockinfo_abbrevs {
+                    blockinfo.get(block_id).and_then(|a| a.get(idx))
+                } else {
+                    abbrevs.get(idx - *blockinfo_abbrevs)
+                };
+                abbrev.ok_or(Error::BadAbbrev(abbrev_id))
             }
         }
     }
@@ -235,13 +254,12 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
             self.cursor.tell_bit()
         );
 
-        // Create a new scope for the block we've just entered.
-        self.scopes.push(Scope::new(new_width, block_id));
-
-        // If our blockinfo map contains any abbrevs for the current block ID, add them here.
-        if let Some(abbrevs) = self.blockinfo.get(&block_id).map(|a| a.to_vec()) {
-            self.scope_mut().extend_abbrevs(abbrevs)?;
-        }
+        // Create a new scope for the block we've just entered. If our blockinfo map contains
+        // any abbrevs for the current block ID, they're visible in it. We only ever add to
+        // that map, so there's no need to copy them: knowing how many there are is enough.
+        let blockinfo_abbrevs = self.blockinfo.get(&block_id).map_or(0, |a| a.len());
+        self.scopes
+            .push(Scope::new(new_width, block_id, blockinfo_abbrevs));
 
         // If we've just entered a BLOCKINFO block, return `None` to avoid
         // surfacing parse details to the `advance()` API.
@@ -364,7 +382,10 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         // TODO(ww): The clone at the end here is a little annoying, but we
         // need it to avoid mixing mutable and immutable borrows here.
         // There is absolutely a better way to do that.
-        let abbrev = self.scope().get_abbrev(abbrev_id)?.clone();
+        let abbrev = self
+            .scope()
+            .get_abbrev(&self.blockinfo, abbrev_id)?
+            .clone();
 
         let mut fields = abbrev.parse(&mut self.cursor)?;
         log::debug!("parsed fields: {:?}", fields);
-- 
2.43.0


From 371d455b78d63a2b374e8b227cb03e601ccd095a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 20/36] fix: share attribute groups instead of copying them per
 reference

---
 llvm-mapper/src/block/attributes.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 516613b..86a1ac1 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -1,6 +1,7 @@
 //! Functionality for mapping the `PARAMATTR_BLOCK` and `PARAMATTR_GROUP_BLOCK` blocks.
 
 use std::convert::{TryFrom, TryInto};
+use std::sync::Arc;
 
 use hashbrown::HashMap;
 use llvm_support::bitcodes::AttributeCode;
@@ -456,8 +457,9 @@ impl Attribute {
 }
 
 /// Represents all of the [`AttributeGroup`](AttributeGroup)s associated with some function.
+// NOTE: Groups are shared, since any number of entries can reference the same group.
 #[derive(Debug)]
-pub struct AttributeEntry(Vec<AttributeGroup>);
+pub struct AttributeEntry(Vec<Arc<AttributeGroup>>);
 
 /// Maps all attributes in an IR module.
 #[derive(Debug, Default)]
@@ -544,10 +546,10 @@ pub struct AttributeGroup {
 
 /// Maps all attribute groups in an IR module.
 #[derive(Debug, Default)]
-pub struct AttributeGroups(HashMap<u32, AttributeGroup>);
+pub struct AttributeGroups(HashMap<u32, Arc<AttributeGroup>>);
 
 impl AttributeGroups {
-    pub(crate) fn get(&self, group_id: u32) -> Option<&AttributeGroup> {
+    pub(crate) fn get(&self, group_id: u32) -> Option<&Arc<AttributeGroup>> {
         self.0.get(&group_id)
     }
 }
@@ -597,10 +599,10 @@ impl TryFrom<&'_ Block> for AttributeGroups {
 
             groups.insert(
                 group_id,
-                AttributeGroup {
+                Arc::new(AttributeGroup {
                     disposition,
                     attributes,
-                },
+                }),
             );
         }
 
-- 
2.43.0


From d4fd830c8fca0b054e546a65716e5df7c8401230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 21/36] fix: don't truncate attribute group IDs and parameter
 indices

An attribute group defined with ID 2^32 + 1 replaced group 1.
---
 llvm-mapper/src/block/attributes.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 86a1ac1..46aee59 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -574,8 +574,11 @@ impl TryFrom<&'_ Block> for AttributeGroups {
             }
 
             // Panic safety: We check for at least three fields above.
-            let group_id = record.fields()[0] as u32;
-            let disposition: AttributeGroupDisposition = (record.fields()[1] as u32).into();
+            let group_id = u32::try_from(record.fields()[0])
+                .map_err(|_| AttributeError::BadAttributeGroup(u32::MAX))?;
+            let disposition: AttributeGroupDisposition = u32::try_from(record.fields()[1])
+                .map_err(|_| AttributeError::BadAttributeGroup(group_id))?
+                .into();
 
             // Each attribute in the group can potentially span multiple fields
             // in the record. Keep track of our field index to ensure that we
-- 
2.43.0


From f29443e2d6484a7f46983a2a599fe5473a7c79b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 22/36] fix: skip the address space in alias records

---
 llvm-mapper/src/record/alias.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/llvm-mapper/src/record/alias.rs b/llvm-mapper/src/record/alias.rs
index 4bad8d2..5e7581a 100644
--- a/llvm-mapper/src/record/alias.rs
+++ b/llvm-mapper/src/record/alias.rs
@@ -16,7 +16,7 @@ use crate::unroll::Record;
 #[derive(Debug, Error)]
 pub enum AliasError {
     /// The alias record is too short to be well-formed.
-    #[error("alias record too short: {0} < 5 fields")]
+    #[error("alias record too short: {0} < 6 fields")]
     TooShort(usize),
 
     /// The alias record is in an old unsupported format.
@@ -81,10 +81,10 @@ impl<'ctx> CtxMappable<'ctx, Record> for Alias<'ctx> {
             return Err(AliasError::V1Unsupported);
         }
 
-        // Every alias record has at least 5 fields, corresponding to
-        // [strtab_offset, strtab_size, *v1], where v1 has 3 mandatory fields:
-        // [alias type, aliasee value#, linkage, ...]
-        if fields.len() < 5 {
+        // Every alias record has at least 6 fields, corresponding to
+        // [strtab_offset, strtab_size, *v1], where v1 has 4 mandatory fields:
+        // [alias type, address space, aliasee value#, linkage, ...]
+        if fields.len() < 6 {
             return Err(AliasError::TooShort(fields.len()));
         }
 
@@ -93,32 +93,32 @@ impl<'ctx> CtxMappable<'ctx, Record> for Alias<'ctx> {
             .type_table
             .get(fields[2])
             .ok_or(AliasError::Type(fields[2]))?;
-        let value_index = fields[3];
-        let linkage = Linkage::from(fields[4]);
+        let value_index = fields[4];
+        let linkage = Linkage::from(fields[5]);
 
         let visibility = fields
-            .get(5)
+            .get(6)
             .map_or_else(|| Ok(Visibility::Default), |v| Visibility::try_from(*v))?;
 
-        let storage_class = fields.get(6).map_or_else(
+        let storage_class = fields.get(7).map_or_else(
             || Ok(DllStorageClass::Default),
             |v| DllStorageClass::try_from(*v),
         )?;
 
         let tls_mode = fields
-            .get(7)
+            .get(8)
             .copied()
             .map(ThreadLocalMode::from)
             .unwrap_or(ThreadLocalMode::NotThreadLocal);
 
         let unnamed_addr = fields
-            .get(8)
+            .get(9)
             .copied()
             .map(UnnamedAddr::from)
             .unwrap_or(UnnamedAddr::None);
 
         let preemption_specifier = fields
-            .get(9)
+            .get(10)
             .copied()
             .map(RuntimePreemption::from)
             .unwrap_or(RuntimePreemption::DsoPreemptable);
-- 
2.43.0


From 8a4e2cf0c54e8a23f010f6a6be8dc5e376fd5b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 23/36] fix: COMDAT selection kinds start at one

---
 llvm-mapper/src/record/comdat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/comdat.rs b/llvm-mapper/src/record/comdat.rs
index 38a97ab..41bd89f 100644
--- a/llvm-mapper/src/record/comdat.rs
+++ b/llvm-mapper/src/record/comdat.rs
@@ -43,7 +43,7 @@ pub enum ComdatError {
 #[repr(u64)]
 pub enum SelectionKind {
     /// The linker may choose any COMDAT.
-    Any,
+    Any = 1,
     /// The data referenced by the COMDAT must be the same.
     ExactMatch,
     /// The linker will choose the largest COMDAT.
-- 
2.43.0


From beda02f77020f2895a1672b3f6d6a88d71855f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 24/36] fix: rewrite pointer alignments by address space

---
 llvm-support/src/align.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 163c2ba..13a608d 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -720,17 +720,10 @@ impl PointerAlignSpecs {
         let pos = self.0.iter().rposition(|&other| other <= spec);
         match pos {
             // If we have a match, then we need to either insert or update
-            // depending on whether our match is the same spec as us.
+            // depending on whether our match is for the same address space as us.
             // Panic safety: `pos` is a valid index returned above.
-            Some(pos) => match self.0[pos] == spec {
-                true => {
-                    // Unwrap safety: `pos` is a valid index returned above.
-                    #[allow(clippy::unwrap_used)]
-                    let other = self.0.get_mut(pos).unwrap();
-
-                    other.abi_alignment = spec.abi_alignment;
-                    other.preferred_alignment = spec.preferred_alignment;
-                }
+            Some(pos) => match self.0[pos].address_space == spec.address_space {
+                true => self.0[pos] = spec,
                 false => {
                     self.0.insert(pos + 1, spec);
                 }
-- 
2.43.0


From 0f457a6ac58a8f5535a60234715a5b58e7a4f913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 25/36] fix: check the preferred alignment of parsed pointer
 specs

---
 llvm-support/src/align.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 13a608d..d35f919 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -644,13 +644,7 @@ impl FromStr for PointerAlignSpec {
             .map(|idx| idx.parse::<u64>())
             .unwrap_or(Ok(pointer_size))?;
 
-        Ok(Self {
-            address_space: address_space,
-            abi_alignment: abi,
-            preferred_alignment: pref,
-            pointer_size: pointer_size,
-            index_size: index_size,
-        })
+        Self::new(address_space, abi, pref, pointer_size, index_size)
     }
 }
 
-- 
2.43.0


From 35c269c675c78d2ab91e514e2cc8250c82b94a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 26/36] fix: allow aggregates without an ABI alignment

---
 llvm-support/src/align.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index d35f919..e8c02f0 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -368,7 +368,12 @@ impl FromStr for TypeAlignSpec {
                 let abi = parts[0]
                     .parse::<u64>()
                     .map_err(|e| AlignSpecError::Parse(e.to_string()))
-                    .and_then(|a| Align::from_bit_align(a).map_err(Into::into))?;
+                    .and_then(|a| match a {
+                        // Aggregates can have an ABI alignment of zero, which means
+                        // that they're aligned to one byte.
+                        0 => Ok(Align::ALIGN8),
+                        a => Align::from_bit_align(a).map_err(Into::into),
+                    })?;
 
                 let pref = parts
                     .get(1)
-- 
2.43.0


From 8e7cbebf1f730ed38034626bc215cdfd9abdc617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 27/36] fix: keep the aggregate alignment of datalayouts

---
 llvm-mapper/src/record/datalayout.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index ec771eb..bfe44a0 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -5,7 +5,7 @@ use std::num::ParseIntError;
 use std::str::FromStr;
 
 use llvm_support::{
-    AddressSpace, AddressSpaceError, Align, AlignError, AlignSpecError, Endian,
+    AddressSpace, AddressSpaceError, Align, AlignError, AlignSpecError, AlignedType, Endian,
     FunctionPointerAlign, Mangling, PointerAlignSpec, PointerAlignSpecs, TypeAlignSpec,
     TypeAlignSpecs,
 };
@@ -138,6 +138,9 @@ impl FromStr for DataLayout {
                 'i' | 'v' | 'f' | 'a' => {
                     // Pass the entire spec in here, since we need the spec identifier as well.
                     let align_spec = spec.parse::<TypeAlignSpec>()?;
+                    if align_spec.aligned_type == AlignedType::Aggregate {
+                        datalayout.aggregate_alignment = align_spec.abi_alignment;
+                    }
                     datalayout.type_alignments.update(align_spec);
                 }
                 'F' => match body.chars().next() {
-- 
2.43.0


From 03ceb0c83fb46b028169e8341e140ab9b1532bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 28/36] fix: use LLVM's default type alignments

---
 llvm-support/src/align.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index e8c02f0..6ca8c5e 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -260,6 +260,8 @@ impl AlignedType {
     make_const_aligned!(Integer, 16);
     make_const_aligned!(Integer, 32);
     make_const_aligned!(Integer, 64);
+    make_const_aligned!(Vector, 64);
+    make_const_aligned!(Vector, 128);
 }
 
 /// Errors that can occur when constructing a [`TypeAlignSpec`](TypeAlignSpec)
@@ -474,7 +476,7 @@ impl Default for TypeAlignSpecs {
         // into an infallible constant.
         #[allow(clippy::unwrap_used)]
         Self(vec![
-            TypeAlignSpec::new(AlignedType::Aggregate, Align::ALIGN64, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::Aggregate, Align::ALIGN8, Align::ALIGN64).unwrap(),
             TypeAlignSpec::new(AlignedType::FLOAT16, Align::ALIGN16, Align::ALIGN16).unwrap(),
             TypeAlignSpec::new(AlignedType::FLOAT32, Align::ALIGN32, Align::ALIGN32).unwrap(),
             TypeAlignSpec::new(AlignedType::FLOAT64, Align::ALIGN64, Align::ALIGN64).unwrap(),
@@ -483,7 +485,9 @@ impl Default for TypeAlignSpecs {
             TypeAlignSpec::new(AlignedType::INTEGER8, Align::ALIGN8, Align::ALIGN8).unwrap(),
             TypeAlignSpec::new(AlignedType::INTEGER16, Align::ALIGN16, Align::ALIGN16).unwrap(),
             TypeAlignSpec::new(AlignedType::INTEGER32, Align::ALIGN32, Align::ALIGN32).unwrap(),
-            TypeAlignSpec::new(AlignedType::INTEGER64, Align::ALIGN64, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::INTEGER64, Align::ALIGN32, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::VECTOR64, Align::ALIGN64, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::VECTOR128, Align::ALIGN128, Align::ALIGN128).unwrap(),
         ])
     }
 }
-- 
2.43.0


From 5639ad976510c67606ff7c87fbd33d030c365141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 29/36] fix: allow vectors of opaque pointers

---
 llvm-support/src/ty.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/ty.rs b/llvm-support/src/ty.rs
index f015dff..a5c2bec 100644
--- a/llvm-support/src/ty.rs
+++ b/llvm-support/src/ty.rs
@@ -166,7 +166,11 @@ impl Type {
     /// assert!(!Type::Metadata.is_vector_element());
     /// ```
     pub fn is_vector_element(&self) -> bool {
-        self.is_floating() || matches!(self, Type::Integer(_) | Type::Pointer(_))
+        self.is_floating()
+            || matches!(
+                self,
+                Type::Integer(_) | Type::Pointer(_) | Type::OpaquePointer(_)
+            )
     }
 
     /// Returns whether this type is "first class", i.e. is a valid type for an LLVM value.
-- 
2.43.0


From b8f645da0789c041f95b8cdcdd76bca0d81e570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 30/36] fix: order the bounds of vscale_range, which can lack a
 maximum

---
 llvm-mapper/src/block/attributes.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 46aee59..4bc6811 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -262,7 +262,7 @@ pub enum IntAttribute {
     /// `allocsize(<EltSizeParam>[, <NumEltsParam>])`
     AllocSize(u32, Option<u32>),
     /// `vscale_range(<Min>[, <Max>])`
-    VScaleRange(u32, u32),
+    VScaleRange(u32, Option<u32>),
     /// `uwTable ([variant])`
     UwTable(UwTableVariant),
     /// `allockind (<KindBitset>)`
@@ -336,13 +336,14 @@ impl TryFrom<(AttributeId, u64)> for IntAttribute {
                 IntAttribute::AllocSize(elt_size, num_elts)
             }
             AttributeId::VScaleRange => {
+                // NOTE: A maximum of 0 means that there isn't one.
                 let min = (value >> 32) as u32;
                 let max = match value as u32 {
-                    0 => min,
-                    max => max,
+                    0 => None,
+                    max => Some(max),
                 };
 
-                IntAttribute::VScaleRange(max, min)
+                IntAttribute::VScaleRange(min, max)
             }
             AttributeId::UwTable => {
                 IntAttribute::UwTable(UwTableVariant::try_from(value).map_err(|_| {
-- 
2.43.0


From 24b0f2ab6a4bceb5432bfe676b275cbd3baf5ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 31/36] fix: support the nosanitize_bounds attribute

---
 llvm-mapper/src/block/attributes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 4bc6811..9c7e7ab 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -213,6 +213,8 @@ pub enum EnumAttribute {
     ElementType = AttributeId::ElementType as u64,
     /// `disable_sanitizer_instrumentation`
     DisableSanitizerInstrumentation = AttributeId::DisableSanitizerInstrumentation as u64,
+    /// `nosanitize_bounds`
+    NoSanitizeBounds = AttributeId::NoSanitizeBounds as u64,
     /// ``allocalign`
     AllocAlign = AttributeId::AllocAlign as u64,
     /// `allocptr`
-- 
2.43.0


From c2ffe4cbd4c056dd81c9245418edab9c2ab1a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 32/36] fix: attribute alignments are in bytes

---
 llvm-mapper/src/block/attributes.rs | 37 +++++++----------------------
 llvm-support/src/align.rs           | 11 +++++++++
 2 files changed, 20 insertions(+), 28 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 9c7e7ab..a4eeefa 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -288,34 +288,15 @@ impl TryFrom<(AttributeId, u64)> for IntAttribute {
         }
 
         Ok(match key {
-            AttributeId::Alignment => {
-                let value = u8::try_from(value).map_err(|_| {
-                    AttributeError::AttributeMalformed(
-                        "attribute value too large (invalid alignment)",
-                        key,
-                    )
-                })?;
-
-                IntAttribute::Alignment(
-                    MaybeAlign::try_from(value).map_err(|_| {
-                        AttributeError::AttributeMalformed("invalid alignment", key)
-                    })?,
-                )
-            }
-            AttributeId::StackAlignment => {
-                let value = u8::try_from(value).map_err(|_| {
-                    AttributeError::AttributeMalformed(
-                        "attribute value too large (invalid alignment)",
-                        key,
-                    )
-                })?;
-
-                IntAttribute::StackAlignment(
-                    MaybeAlign::try_from(value).map_err(|_| {
-                        AttributeError::AttributeMalformed("invalid alignment", key)
-                    })?,
-                )
-            }
+            // NOTE: Unlike elsewhere in bitcode, these are plain byte alignments.
+            AttributeId::Alignment => IntAttribute::Alignment(
+                MaybeAlign::from_byte_align(value)
+                    .map_err(|_| AttributeError::AttributeMalformed("invalid alignment", key))?,
+            ),
+            AttributeId::StackAlignment => IntAttribute::StackAlignment(
+                MaybeAlign::from_byte_align(value)
+                    .map_err(|_| AttributeError::AttributeMalformed("invalid alignment", key))?,
+            ),
             AttributeId::Dereferenceable => IntAttribute::Dereferenceable(value),
             AttributeId::DereferenceableOrNull => IntAttribute::DereferenceableOrNull(value),
             AttributeId::AllocSize => {
diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 6ca8c5e..2e28f52 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -138,6 +138,17 @@ pub enum AlignedTypeWidthError {
 #[derive(Copy, Clone, Debug, PartialEq, Eq)]
 pub struct MaybeAlign(Option<Align>);
 
+impl MaybeAlign {
+    /// Create a `MaybeAlign` from the given byte alignment value, with `0` being
+    /// the unspecified alignment.
+    pub fn from_byte_align(byte_align: u64) -> Result<MaybeAlign, AlignError> {
+        match byte_align {
+            0 => Ok(MaybeAlign(None)),
+            _ => Ok(MaybeAlign(Some(Align::from_byte_align(byte_align)?))),
+        }
+    }
+}
+
 impl TryFrom<u8> for MaybeAlign {
     type Error = AlignError;
 
-- 
2.43.0


From 46cac232e07c8e03b474761794e688cb8a9d09ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 33/36] fix: support GOFF mangling in datalayouts

---
 llvm-mapper/src/record/datalayout.rs | 1 +
 llvm-support/src/lib.rs              | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index bfe44a0..0c165d1 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -200,6 +200,7 @@ impl FromStr for DataLayout {
                         Some('x') => Mangling::WindowsX86Coff,
                         Some('w') => Mangling::WindowsCoff,
                         Some('a') => Mangling::XCoff,
+                        Some('l') => Mangling::Goff,
                         Some(u) => {
                             return Err(DataLayoutError::BadSpecParse(format!(
                                 "unknown mangling kind in spec: {}",
diff --git a/llvm-support/src/lib.rs b/llvm-support/src/lib.rs
index 8d85f03..86edb0e 100644
--- a/llvm-support/src/lib.rs
+++ b/llvm-support/src/lib.rs
@@ -80,6 +80,8 @@ pub enum Mangling {
     WindowsCoff,
     /// XCOFF-style mangling.
     XCoff,
+    /// GOFF-style mangling.
+    Goff,
 }
 
 /// Global value linkage types.
-- 
2.43.0


From 62ab7140c5acb3272d23a34971e3ad446825ca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 34/36] fix: let each BLOCKINFO block replace the previous one

---
 llvm-bitstream/src/parser.rs | 44 +++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 600f0b9..bd45950 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -53,6 +53,8 @@ enum Scope {
         abbrev_id_width: u64,
         block_id: u64,
         blockinfo_block_id: Option<u64>,
+        /// Which `BLOCKINFO` block was the latest one when this scope was entered.
+        blockinfo_set: usize,
         /// How many of the `BLOCKINFO`-defined abbreviations for this block's ID
         /// are visible in this scope. These precede the scope's own `abbrevs`.
         blockinfo_abbrevs: usize,
@@ -68,11 +70,17 @@ impl Default for Scope {
 
 impl Scope {
     /// Returns a new (block) scope.
-    pub(self) fn new(abbrev_id_width: u64, block_id: u64, blockinfo_abbrevs: usize) -> Self {
+    pub(self) fn new(
+        abbrev_id_width: u64,
+        block_id: u64,
+        blockinfo_set: usize,
+        blockinfo_abbrevs: usize,
+    ) -> Self {
         Self::Block {
             abbrev_id_width: abbrev_id_width,
             block_id: block_id,
             blockinfo_block_id: None,
+            blockinfo_set: blockinfo_set,
             blockinfo_abbrevs: blockinfo_abbrevs,
             abbrevs: vec![],
         }
@@ -114,7 +122,7 @@ impl Scope {
     /// not have one for the given ID.
     pub(self) fn get_abbrev<'a>(
         &'a self,
-        blockinfo: &'a HashMap<u64, Vec<abbrev::Abbrev>>,
+        blockinfo: &'a [HashMap<u64, Vec<abbrev::Abbrev>>],
         abbrev_id: u64,
     ) -> Result<&'a abbrev::Abbrev, Error> {
         match self {
@@ -123,13 +131,17 @@ impl Scope {
             )),
             Scope::Block {
                 block_id,
+                blockinfo_set,
                 blockinfo_abbrevs,
                 abbrevs,
                 ..
             } => {
                 let idx = (abbrev_id as usize) - FIRST_APPLICATION_ABBREV_ID;
                 let abbrev = if idx < *blockinfo_abbrevs {
-                    blockinfo.get(block_id).and_then(|a| a.get(idx))
+                    blockinfo
+                        .get(*blockinfo_set)
+                        .and_then(|b| b.get(block_id))
+                        .and_then(|a| a.get(idx))
                 } else {
                     abbrevs.get(idx - *blockinfo_abbrevs)
                 };
@@ -193,7 +205,8 @@ impl Scope {
 pub struct StreamParser<T: AsRef<[u8]>> {
     cursor: BitCursor<T>,
     scopes: Vec<Scope>,
-    blockinfo: HashMap<u64, Vec<abbrev::Abbrev>>,
+    // The abbreviations defined by each `BLOCKINFO` block so far. The last one is in force.
+    blockinfo: Vec<HashMap<u64, Vec<abbrev::Abbrev>>>,
 }
 
 impl<T: AsRef<[u8]>> StreamParser<T> {
@@ -204,7 +217,7 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         Self {
             cursor: cur,
             scopes: vec![Scope::default()],
-            blockinfo: Default::default(),
+            blockinfo: vec![Default::default()],
         }
     }
 
@@ -257,13 +270,24 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         // Create a new scope for the block we've just entered. If our blockinfo map contains
         // any abbrevs for the current block ID, they're visible in it. We only ever add to
         // that map, so there's no need to copy them: knowing how many there are is enough.
-        let blockinfo_abbrevs = self.blockinfo.get(&block_id).map_or(0, |a| a.len());
-        self.scopes
-            .push(Scope::new(new_width, block_id, blockinfo_abbrevs));
+        let blockinfo_set = self.blockinfo.len() - 1;
+        let blockinfo_abbrevs = self.blockinfo[blockinfo_set]
+            .get(&block_id)
+            .map_or(0, |a| a.len());
+        self.scopes.push(Scope::new(
+            new_width,
+            block_id,
+            blockinfo_set,
+            blockinfo_abbrevs,
+        ));
 
         // If we've just entered a BLOCKINFO block, return `None` to avoid
         // surfacing parse details to the `advance()` API.
+        //
+        // Like LLVM, each BLOCKINFO block replaces the previous one: in a file with multiple
+        // modules, each module comes with its own.
         if self.scope().is_blockinfo() {
+            self.blockinfo.push(Default::default());
             return Ok(None);
         }
 
@@ -315,7 +339,11 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
             let block_id = self.scope().blockinfo_block_id().ok_or_else(|| {
                 Error::StreamParse("DEFINE_ABBREV in BLOCKINFO but no preceding SETBID".into())
             })?;
+            // Unwrap safety: `blockinfo` is always created with at least one map.
+            #[allow(clippy::unwrap_used)]
             self.blockinfo
+                .last_mut()
+                .unwrap()
                 .entry(block_id)
                 .or_insert_with(Vec::new)
                 .push(abbrev);
-- 
2.43.0


From f4138e3a754171610ffd73b9e10d5dbd0ac5824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 35/36] fix: read abbreviation operands without bits as literal
 zeros

---
 llvm-bitstream/src/abbrev.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index e62a671..3e0f65d 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -171,8 +171,16 @@ impl Abbrev {
             // operand encoding includes extra data.
             let enc: AbbrevOpEnc = cur.read(3)?.try_into()?;
             let opnd = match enc {
-                AbbrevOpEnc::Fixed => AbbrevOp::Fixed(cur.read_vbr(5)?),
-                AbbrevOpEnc::Vbr => AbbrevOp::Vbr(cur.read_vbr(5)?),
+                // NOTE: Like LLVM, we treat operands without any bits as a literal zero. LLVM emits
+                // these for fields that can only be zero.
+                AbbrevOpEnc::Fixed => match cur.read_vbr(5)? {
+                    0 => AbbrevOp::Literal(0),
+                    width => AbbrevOp::Fixed(width),
+                },
+                AbbrevOpEnc::Vbr => match cur.read_vbr(5)? {
+                    0 => AbbrevOp::Literal(0),
+                    width => AbbrevOp::Vbr(width),
+                },
                 AbbrevOpEnc::Array => {
                     // There is only ever one array operand in an abbreviation definition,
                     // and it is always the second-to-last operand. Anything else is an error.
-- 
2.43.0


From bf01ab3089be85ffa36f50fef8be53908921f719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 36/36] fix: read the sign-extended characters of strings

---
 llvm-mapper/src/block/attributes.rs |  4 ++--
 llvm-mapper/src/unroll.rs           | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index a4eeefa..0db7b3b 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -10,7 +10,7 @@ use num_enum::{TryFromPrimitive, TryFromPrimitiveError};
 use thiserror::Error;
 
 use crate::map::{MapError, PartialMapCtx};
-use crate::unroll::{Block, Record};
+use crate::unroll::{string_byte, Block, Record};
 
 /// Errors that can occur when mapping attribute blocks.
 #[derive(Debug, Error)]
@@ -386,7 +386,7 @@ impl Attribute {
                     .ok_or(AttributeError::TooShort)?
                     .iter()
                     .take_while(|f| **f != 0)
-                    .map(|f| u8::try_from(*f))
+                    .map(|f| string_byte(*f))
                     .collect::<Result<Vec<_>, _>>()
                     .map_err(|_| AttributeError::BadString)?;
 
diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 261d569..15ac4cd 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -2,6 +2,7 @@
 //! into a block-and-record hierarchy.
 
 use std::convert::{TryFrom, TryInto};
+use std::num::TryFromIntError;
 
 use indexmap::IndexMap;
 use llvm_bitstream::parser::StreamEntry;
@@ -19,6 +20,17 @@ use crate::record::{RecordBlobError, RecordStringError};
 /// anything that LLVM itself produces.
 const MAX_BLOCK_DEPTH: usize = 64;
 
+/// Returns the byte that the given field of a string stands for.
+///
+/// LLVM writes strings as one `char` per field. On hosts where `char` is signed the bytes above 0x7f
+/// (i.e. anything that isn't ASCII) come out sign-extended, to either 32 or 64 bits.
+pub(crate) fn string_byte(field: u64) -> Result<u8, TryFromIntError> {
+    match field {
+        0xffff_ff80..=0xffff_ffff | 0xffff_ffff_ffff_ff80..=u64::MAX => Ok(field as u8),
+        _ => u8::try_from(field),
+    }
+}
+
 /// An "unrolled" record. This is internally indistinguishable from a raw bitstream
 /// [`Record`](llvm_bitstream::record::Record), but is newtyped to enforce proper
 /// isolation of concerns.
@@ -45,7 +57,7 @@ impl Record {
         // Each individual field in our string must fit into a byte.
         let raw = self.0.fields[idx..]
             .iter()
-            .map(|f| u8::try_from(*f))
+            .map(|f| string_byte(*f))
             .collect::<Result<Vec<_>, _>>()?;
 
         // Finally, the buffer itself must decode correctly.
-- 
2.43.0

