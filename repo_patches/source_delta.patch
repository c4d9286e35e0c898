From 06f3120a13ed8c43c6d641f904529e32d4b83203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:31 +0000
Subject: [PATCH 01/53] fix: stream reader no longer reserves 4 GiB per
 instance

---
 brec/src/packet/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 07a98db..094c82a 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -257,7 +257,7 @@ impl<
             inner: std::io::BufReader::new(inner),
             rules: RulesDef::default(),
             recent: HeaderReadState::Empty,
-            buffered: Vec::with_capacity(u32::MAX as usize),
+            buffered: Vec::new(),
         }
     }
 
-- 
2.43.0


From cf56f031249051eb60ff6d83dd222c245f64ea5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:31 +0000
Subject: [PATCH 02/53] fix: stream reader finds packets whose header ends the
 stream after foreign bytes

---
 brec/src/packet/header/mod.rs |  2 +-
 brec/src/packet/reader.rs     | 33 +++++++++++++++------------------
 2 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/brec/src/packet/header/mod.rs b/brec/src/packet/header/mod.rs
index fef7f9a..2d25e4a 100644
--- a/brec/src/packet/header/mod.rs
+++ b/brec/src/packet/header/mod.rs
@@ -108,7 +108,7 @@ impl PacketHeader {
     /// The offset of the first occurrence of `PACKET_SIG`, or `None` if not found.
     pub fn get_pos(buffer: &[u8]) -> Option<usize> {
         let mut offset = 0;
-        while buffer.len() > offset + PACKET_SIG.len() {
+        while buffer.len() >= offset + PACKET_SIG.len() {
             if buffer[offset..].starts_with(&PACKET_SIG) {
                 return Some(offset);
             } else {
diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 094c82a..9b328e2 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -218,7 +218,6 @@ impl<
         }
         // Second, if buffer has litter, header might be in next bytes. Trying all available bytes
         buffer.extend_from_slice(&extracted[needed..]);
-        let header_len = PacketHeader::ssize() as usize;
         match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(&buffer)? {
             PacketHeaderState::Found(header, sgmt) => {
                 if sgmt.start() > &0 {
@@ -239,13 +238,15 @@ impl<
                 Ok(NextPacket::NotEnoughData(needed))
             }
             PacketHeaderState::NotFound => {
-                if buffer.len() > header_len {
-                    self.rules.ignore(&buffer[..buffer.len() - header_len])?;
-                    // We can drain most bytes in buffer and left only length of header signature
-                    buffer.drain(..(buffer.len() - header_len));
-                }
+                // We can drain most bytes in buffer; only the beginning of a signature might be left
+                let keep = PACKET_SIG.len() - 1;
+                self.rules.ignore(&buffer[..buffer.len() - keep])?;
+                buffer.drain(..(buffer.len() - keep));
                 self.inner.consume(extracted_len);
-                self.recent = HeaderReadState::Refill(Some((buffer, header_len)));
+                self.recent = HeaderReadState::Refill(Some((
+                    buffer,
+                    PacketHeader::ssize() as usize - keep,
+                )));
                 Ok(NextPacket::NotFound)
             }
         }
@@ -305,17 +306,13 @@ impl<
                 }
                 match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(buffer)? {
                     PacketHeaderState::NotFound => {
-                        let header_len = PacketHeader::ssize() as usize;
-                        if available > header_len {
-                            self.rules.ignore(&buffer[..available - header_len])?;
-                            self.recent = HeaderReadState::Refill(Some((
-                                buffer[available - header_len..].to_vec(),
-                                header_len,
-                            )));
-                        } else {
-                            self.recent =
-                                HeaderReadState::Refill(Some((buffer.to_vec(), header_len)));
-                        }
+                        // Only the beginning of a signature might be left at the end of data
+                        let keep = PACKET_SIG.len() - 1;
+                        self.rules.ignore(&buffer[..available - keep])?;
+                        self.recent = HeaderReadState::Refill(Some((
+                            buffer[available - keep..].to_vec(),
+                            PacketHeader::ssize() as usize - keep,
+                        )));
                         self.inner.consume(available);
                         return Ok(NextPacket::NotFound);
                     }
-- 
2.43.0


From f1dadb675460379532866791c535146e2590e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:31 +0000
Subject: [PATCH 03/53] fix: stream reader skips a damaged packet header
 instead of failing on it forever

---
 brec/src/packet/reader.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 9b328e2..48575fe 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -116,18 +116,30 @@ impl<
     /// it returns `PacketHeaderState::NotEnoughData`. If the header is successfully parsed,
     /// it returns `PacketHeaderState::Found`.
     fn read_header(buffer: &[u8]) -> Result<PacketHeaderState, Error> {
-        let Some(offset) = PacketHeader::get_pos(buffer) else {
-            // Signature of PacketDef isn't found
-            return Ok(PacketHeaderState::NotFound);
-        };
-        if let Some(needed) = PacketHeader::is_not_enought(&buffer[offset..]) {
-            // Header is detected, but not enough data to load it
-            return Ok(PacketHeaderState::NotEnoughData(offset, needed));
+        let mut from = 0;
+        while let Some(pos) = PacketHeader::get_pos(&buffer[from..]) {
+            let offset = from + pos;
+            if let Some(needed) = PacketHeader::is_not_enought(&buffer[offset..]) {
+                // Header is detected, but not enough data to load it
+                return Ok(PacketHeaderState::NotEnoughData(offset, needed));
+            }
+            match PacketHeader::read_from_slice(&buffer[offset..], false) {
+                Ok(header) => {
+                    return Ok(PacketHeaderState::Found(
+                        header,
+                        std::ops::RangeInclusive::new(
+                            offset,
+                            offset + PacketHeader::ssize() as usize,
+                        ),
+                    ));
+                }
+                // Damaged header or foreign data with the same signature: keep looking after it
+                Err(Error::CrcDismatch) => from = offset + 1,
+                Err(err) => return Err(err),
+            }
         }
-        Ok(PacketHeaderState::Found(
-            PacketHeader::read_from_slice(&buffer[offset..], false)?,
-            std::ops::RangeInclusive::new(offset, offset + PacketHeader::ssize() as usize),
-        ))
+        // Signature of PacketDef isn't found
+        Ok(PacketHeaderState::NotFound)
     }
 
     /// Clears the internal buffer and consumes a specified number of bytes from the reader.
-- 
2.43.0


From b08ae60f463e9e7fe652f33f68ea06d8985f672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:32 +0000
Subject: [PATCH 04/53] fix: stream reader moves past a packet with a damaged
 payload or too many blocks

---
 brec/src/packet/reader.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 48575fe..b844426 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -376,8 +376,7 @@ impl<
         if !blocks_buffer.is_empty() {
             loop {
                 if count == MAX_BLOCKS_COUNT {
-                    self.buffered.clear();
-                    return Err(Error::MaxBlocksCount);
+                    return self.drop_and_consume(consume, Err(Error::MaxBlocksCount));
                 }
                 let blk = match BR::read_from_slice(&blocks_buffer[processed..], false) {
                     Ok(blk) => blk,
@@ -413,12 +412,12 @@ impl<
                     match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(
                         &mut payload_buffer,
                         &header,
-                    )? {
-                        ReadStatus::Success(payload) => PacketDef::new(
+                    ) {
+                        Ok(ReadStatus::Success(payload)) => PacketDef::new(
                             blocks.into_iter().map(|blk| blk.into()).collect::<Vec<B>>(),
                             Some(payload),
                         ),
-                        ReadStatus::NotEnoughData(needed) => {
+                        Ok(ReadStatus::NotEnoughData(needed)) => {
                             // This is error, but not NextPacket::NotEnoughData because length of payload
                             // already has been check. If we are here - some data is invalid and
                             // it's an error
@@ -427,6 +426,9 @@ impl<
                                 Err(Error::NotEnoughData(needed as usize)),
                             );
                         }
+                        Err(err) => {
+                            return self.drop_and_consume(consume, Err(err));
+                        }
                     }
                 }
                 Ok(ReadStatus::NotEnoughData(needed)) => {
-- 
2.43.0


From b058f108b3f80e59c86113b96c9b94b042605eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:32 +0000
Subject: [PATCH 05/53] fix: stream reader survives headers with inconsistent
 or huge lengths

---
 brec/src/packet/reader.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index b844426..6b34f06 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -345,7 +345,7 @@ impl<
                             self.rules.ignore(&buffer[..*sgmt.start()])?;
                         }
                         let packet_size = header.size as usize;
-                        let needs = packet_size + *sgmt.end();
+                        let needs = packet_size.saturating_add(*sgmt.end());
                         if needs > available {
                             // Not enough data to load packet
                             self.buffered.extend_from_slice(&buffer[*sgmt.end()..]);
@@ -368,6 +368,15 @@ impl<
                 return Err(Error::InvalidPacketReaderLogic);
             }
         };
+        if header.blocks_len > header.size {
+            return self.drop_and_consume(
+                consume,
+                Err(Error::OutOfBounds(
+                    header.size as usize,
+                    header.blocks_len as usize,
+                )),
+            );
+        }
         let blocks_len = header.blocks_len as usize;
         let blocks_buffer = &packet_buffer[..blocks_len];
         let mut blocks = Vec::new();
-- 
2.43.0


From 2ebe50d0f53e19a2c3f4e9863b452a2c1e8ddec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:32 +0000
Subject: [PATCH 06/53] fix: stream reader reports no data for a packet cut at
 the end of the source

---
 brec/src/packet/reader.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 6b34f06..fb274c8 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -172,6 +172,11 @@ impl<
         let packet_size = header.size as usize;
         let available = self.buffered.len() + buffer.len();
         if packet_size > available {
+            if buffer.is_empty() {
+                // Source is exhausted, packet is incomplete
+                self.recent = HeaderReadState::Ready(Some(header));
+                return Ok(ResolveHeaderReady::Next(NextPacket::NoData));
+            }
             // Not enough data to load packet
             let consumed = buffer.len();
             self.buffered.extend_from_slice(buffer);
-- 
2.43.0


From 0fe7d79c64d11a90829d99decaee3861ae6f2454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:32 +0000
Subject: [PATCH 07/53] fix: stream reader keeps its state when the source
 fails

---
 brec/src/packet/reader.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index fb274c8..829d3e6 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -167,7 +167,14 @@ impl<
         &mut self,
         header: PacketHeader,
     ) -> Result<ResolveHeaderReady<B, P, Inner>, Error> {
-        let buffer = self.inner.fill_buf()?;
+        let buffer = match self.inner.fill_buf() {
+            Ok(buffer) => buffer,
+            Err(err) => {
+                // Keep the state, reading can be continued later
+                self.recent = HeaderReadState::Ready(Some(header));
+                return Err(err.into());
+            }
+        };
         // Check do we have enough data to load packet
         let packet_size = header.size as usize;
         let available = self.buffered.len() + buffer.len();
@@ -205,7 +212,14 @@ impl<
         mut buffer: Vec<u8>,
         needed: usize,
     ) -> Result<NextPacket<B, P, Inner>, Error> {
-        let extracted = self.inner.fill_buf()?;
+        let extracted = match self.inner.fill_buf() {
+            Ok(extracted) => extracted,
+            Err(err) => {
+                // Keep the state, reading can be continued later
+                self.recent = HeaderReadState::Refill(Some((buffer, needed)));
+                return Err(err.into());
+            }
+        };
         if extracted.is_empty() {
             self.rules.ignore(&buffer)?;
             return Ok(NextPacket::NoData);
-- 
2.43.0


From ec05d10841115e8bee64f48c431d6c6f6f13b8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:46 +0000
Subject: [PATCH 08/53] fix: borrowed blocks are parsed correctly when the
 signature is already skipped

---
 brec_macros/src/codegen/read/block.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 504afd7..32981fb 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -59,6 +59,8 @@ impl ReadFromSlice for Block {
         let mut fnames = Vec::new();
         let mut offset = 0usize;
         let src: syn::Ident = format_ident!("buf");
+        // Content of the block without signature
+        let body: syn::Ident = format_ident!("__body");
         for field in self.fields.iter() {
             if &field.name == "__sig" {
                 let name = format_ident!("{}", FIELD_SIG);
@@ -68,15 +70,18 @@ impl ReadFromSlice for Block {
                     } else {
                         <&[u8; #BLOCK_SIG_LEN]>::try_from(&#src[0usize..#BLOCK_SIG_LEN])?
                     };
+                    let #body = if skip_sig { #src } else { &#src[#BLOCK_SIG_LEN..] };
                 });
+                fnames.push(name);
+                continue;
             } else if field.name == FIELD_CRC {
                 let name = format_ident!("{}", FIELD_CRC);
                 fields.push(quote! {
-                    let #name = <&[u8; #BLOCK_CRC_LEN]>::try_from(&#src[#offset..#offset + #BLOCK_CRC_LEN])?;
+                    let #name = <&[u8; #BLOCK_CRC_LEN]>::try_from(&#body[#offset..#offset + #BLOCK_CRC_LEN])?;
                     let crc = #name;
                 });
             } else {
-                fields.push(field.safe(&src, offset, offset + field.ty.size()));
+                fields.push(field.safe(&body, offset, offset + field.ty.size()));
             }
             fnames.push(format_ident!("{}", field.name));
             offset += field.ty.size();
-- 
2.43.0


From 9bba6525429547de143f9e2b629ceb7d0447d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:46 +0000
Subject: [PATCH 09/53] fix: seekable incremental block read restores the
 position unless it succeeds

---
 brec_macros/src/codegen/read/block.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 32981fb..27294c9 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -160,9 +160,16 @@ impl TryRead for Block {
                         return Err(brec::Error::SignatureDismatch);
                     }
                     if len < #block_name::ssize() {
+                        buf.seek(std::io::SeekFrom::Start(start_pos))?;
                         return Ok(brec::ReadStatus::NotEnoughData(#block_name::ssize() - len));
                     }
-                    Ok(brec::ReadStatus::Success(#block_name::read(buf, true)?))
+                    match <#block_name as brec::ReadBlockFrom>::read(buf, true) {
+                        Ok(blk) => Ok(brec::ReadStatus::Success(blk)),
+                        Err(err) => {
+                            buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                            Err(err)
+                        }
+                    }
                 }
             }
         })
-- 
2.43.0


From b012d05f6eaca6a0fc1c3d03e4c5e178d64bed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:46 +0000
Subject: [PATCH 10/53] fix: buffered incremental block read consumes nothing
 unless it succeeds

---
 brec_macros/src/codegen/read/block.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 27294c9..1d8dd64 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -204,9 +204,16 @@ impl TryReadBuffered for Block {
                         return Err(brec::Error::SignatureDismatch);
                     }
 
-                    reader.consume(#sig_len);
-                    let blk = #block_name::read(reader, true);
-                    Ok(brec::ReadStatus::Success(blk?))
+                    let required = #block_name::ssize() as usize;
+                    if bytes.len() < required {
+                        return Ok(brec::ReadStatus::NotEnoughData(
+                            (required - bytes.len()) as u64,
+                        ));
+                    }
+
+                    let blk = <#block_name as brec::ReadBlockFrom>::read(&mut &bytes[#sig_len..], true)?;
+                    reader.consume(required);
+                    Ok(brec::ReadStatus::Success(blk))
                 }
             }
         })
-- 
2.43.0


From 44bc0996714101b7cf31a771ab938888bb3909bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:46 +0000
Subject: [PATCH 11/53] fix: streaming read of the unified block recognizes
 every kind, not only the first one

---
 brec_macros/src/collector/blocks/read.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/brec_macros/src/collector/blocks/read.rs b/brec_macros/src/collector/blocks/read.rs
index 8a46740..b72057a 100644
--- a/brec_macros/src/collector/blocks/read.rs
+++ b/brec_macros/src/collector/blocks/read.rs
@@ -9,7 +9,7 @@ pub fn read_from(blocks: &[&Block]) -> Result<TokenStream, E> {
         let fullname = blk.fullname()?;
         let fullpath = blk.fullpath()?;
         variants.push(quote! {
-            match <#fullpath as brec::ReadBlockFrom>::read(buf, false) {
+            match <#fullpath as brec::ReadBlockFrom>::read(&mut std::io::Read::chain(&sig[..], &mut *buf), false) {
                 Ok(blk) => return Ok(Block::#fullname(blk)),
                 Err(err) => {
                     if !matches!(err, brec::Error::SignatureDismatch) {
@@ -25,6 +25,9 @@ pub fn read_from(blocks: &[&Block]) -> Result<TokenStream, E> {
             where
                 Self: Sized,
             {
+                // The signature can be taken from the source only once
+                let mut sig = [0u8; #BLOCK_SIG_LEN];
+                buf.read_exact(&mut sig)?;
                 #(#variants)*
                 Err(brec::Error::SignatureDismatch)
             }
@@ -54,6 +57,9 @@ pub fn read_block_from(blocks: &[&Block]) -> Result<TokenStream, E> {
             where
                 Self: Sized,
             {
+                if !skip_sig {
+                    return <Block as brec::ReadFrom>::read(buf);
+                }
                 #(#variants)*
                 Err(brec::Error::SignatureDismatch)
             }
-- 
2.43.0


From 70158d18a7725f780f62681224414b4ea7597e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:46 +0000
Subject: [PATCH 12/53] fix: blocks with a path directive do not need their
 borrowed view in scope

---
 brec_macros/src/collector/blocks/enums.rs | 4 ++--
 brec_macros/src/collector/blocks/read.rs  | 4 ++--
 brec_macros/src/entities/block/mod.rs     | 3 +++
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/brec_macros/src/collector/blocks/enums.rs b/brec_macros/src/collector/blocks/enums.rs
index b50afb6..e83f192 100644
--- a/brec_macros/src/collector/blocks/enums.rs
+++ b/brec_macros/src/collector/blocks/enums.rs
@@ -30,8 +30,8 @@ pub fn gen_referred(blocks: &[&Block]) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for blk in blocks.iter() {
         let fullname = blk.fullname()?;
-        let referred_name = blk.referred_name();
-        variants.push(quote! {#fullname(#referred_name<'a>)});
+        let referred_path = blk.referred_fullpath()?;
+        variants.push(quote! {#fullname(#referred_path<'a>)});
     }
     Ok(quote! {
         pub enum BlockReferred<'a> {
diff --git a/brec_macros/src/collector/blocks/read.rs b/brec_macros/src/collector/blocks/read.rs
index b72057a..5b5dd25 100644
--- a/brec_macros/src/collector/blocks/read.rs
+++ b/brec_macros/src/collector/blocks/read.rs
@@ -140,10 +140,10 @@ pub fn try_read_from_buffered(blocks: &[&Block]) -> Result<TokenStream, E> {
 pub fn read_from_slice(blocks: &[&Block]) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for blk in blocks.iter() {
-        let referred_name = blk.referred_name();
+        let referred_path = blk.referred_fullpath()?;
         let fullname = blk.fullname()?;
         variants.push(quote! {
-            match #referred_name::read_from_slice(buf, skip_sig) {
+            match <#referred_path as brec::ReadBlockFromSlice>::read_from_slice(buf, skip_sig) {
                 Ok(blk) => return Ok(BlockReferred::#fullname(blk)),
                 Err(err) => {
                     if !matches!(err, brec::Error::SignatureDismatch) {
diff --git a/brec_macros/src/entities/block/mod.rs b/brec_macros/src/entities/block/mod.rs
index 35935ac..e13b341 100644
--- a/brec_macros/src/entities/block/mod.rs
+++ b/brec_macros/src/entities/block/mod.rs
@@ -79,6 +79,9 @@ impl Block {
     pub fn fullpath(&self) -> Result<TokenStream, E> {
         self.attrs.fullpath(self.name())
     }
+    pub fn referred_fullpath(&self) -> Result<TokenStream, E> {
+        self.attrs.fullpath(self.referred_name())
+    }
     pub fn vis_token(&self) -> Result<TokenStream, E> {
         self.vis.as_token()
     }
-- 
2.43.0


From b314c62cc70958932ea81c621aafb16c546227fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:23 +0000
Subject: [PATCH 13/53] fix: reading a packet or payload does not allocate more
 than the source provides

---
 brec/src/packet/mod.rs      | 16 ++++++++++++++--
 brec/src/packet/read.rs     | 10 ++++++++--
 brec/src/traits/read/mod.rs | 10 ++++++++--
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/brec/src/packet/mod.rs b/brec/src/packet/mod.rs
index 34b1f5a..feb1e70 100644
--- a/brec/src/packet/mod.rs
+++ b/brec/src/packet/mod.rs
@@ -126,8 +126,20 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketDef<B, P,
         let header = <PacketHeader as ReadFrom>::read(reader)?;
         let mut read = 0;
         let mut blocks = Vec::new();
-        let mut packet_buffer = vec![0; header.size as usize];
-        reader.read_exact(&mut packet_buffer)?;
+        let mut packet_buffer = Vec::new();
+        std::io::Read::read_to_end(
+            &mut std::io::Read::take(&mut *reader, header.size),
+            &mut packet_buffer,
+        )?;
+        if (packet_buffer.len() as u64) < header.size {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
+        if header.blocks_len > header.size {
+            return Err(Error::OutOfBounds(
+                header.size as usize,
+                header.blocks_len as usize,
+            ));
+        }
         let blocks_len = header.blocks_len as usize;
         if blocks_len > 0 {
             loop {
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 3e68fd6..3cb4885 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -24,8 +24,14 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReadFrom
         let header = PacketHeader::read(buf)?;
         let mut pkg = PacketDef::default();
         let mut read = 0;
-        let mut inner = vec![0u8; header.size as usize];
-        buf.read_exact(&mut inner)?;
+        let mut inner = Vec::new();
+        std::io::Read::read_to_end(
+            &mut std::io::Read::take(&mut *buf, header.size),
+            &mut inner,
+        )?;
+        if (inner.len() as u64) < header.size {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         let mut reader = std::io::Cursor::new(&mut inner);
         if header.blocks_len > 0 {
             let mut iterations = 0;
diff --git a/brec/src/traits/read/mod.rs b/brec/src/traits/read/mod.rs
index b5e9ec1..29400eb 100644
--- a/brec/src/traits/read/mod.rs
+++ b/brec/src/traits/read/mod.rs
@@ -72,8 +72,14 @@ pub trait ReadPayloadFrom<
         if header.sig != T::ssig() {
             return Err(Error::SignatureDismatch);
         }
-        let mut bytes = vec![0u8; header.payload_len()];
-        buf.read_exact(&mut bytes)?;
+        let mut bytes = Vec::new();
+        std::io::Read::read_to_end(
+            &mut std::io::Read::take(&mut *buf, header.payload_len() as u64),
+            &mut bytes,
+        )?;
+        if bytes.len() < header.payload_len() {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         let value = T::decode(&bytes)?;
         let crc = value.crc()?;
         if header.crc != crc {
-- 
2.43.0


From e246fa9639a8b7116564bf1b68762bc3f8085c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:23 +0000
Subject: [PATCH 14/53] fix: incremental packet header reads consume exactly
 one header and only on success

---
 brec/src/packet/header/read.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/brec/src/packet/header/read.rs b/brec/src/packet/header/read.rs
index 3ddd873..4af26c7 100644
--- a/brec/src/packet/header/read.rs
+++ b/brec/src/packet/header/read.rs
@@ -120,7 +120,13 @@ impl TryReadFrom for PacketHeader {
             return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - len));
         }
 
-        Ok(ReadStatus::Success(PacketHeader::read(buf)?))
+        match PacketHeader::read(buf) {
+            Ok(header) => Ok(ReadStatus::Success(header)),
+            Err(err) => {
+                buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                Err(err)
+            }
+        }
     }
 }
 
@@ -145,7 +151,7 @@ impl TryReadFromBuffered for PacketHeader {
             ));
         }
 
-        let header = ReadStatus::Success(PacketHeader::read(reader)?);
+        let header = ReadStatus::Success(PacketHeader::read_from_slice(bytes, false)?);
         reader.consume(PacketHeader::ssize() as usize);
         Ok(header)
     }
-- 
2.43.0


From 7a8055fc0c206ca1b1ba9f39d8ddcae55586fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:24 +0000
Subject: [PATCH 15/53] fix: seekable incremental packet read reports the full
 shortfall and restores the position

---
 brec/src/packet/read.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 3cb4885..26e0e37 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -94,8 +94,10 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
             ReadStatus::NotEnoughData(needed) => return Ok(ReadStatus::NotEnoughData(needed)),
             ReadStatus::Success(header) => header,
         };
-        if header.size > available {
-            return Ok(ReadStatus::NotEnoughData(header.size - available));
+        let required = PacketHeader::ssize().saturating_add(header.size);
+        if required > available {
+            buf.seek(std::io::SeekFrom::Start(start_pos))?;
+            return Ok(ReadStatus::NotEnoughData(required - available));
         }
         let mut pkg = PacketDef::default();
         let mut read = 0;
@@ -127,8 +129,8 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
             }
         }
         if header.payload {
-            match <PayloadHeader as TryReadFrom>::try_read(buf)? {
-                ReadStatus::Success(header) => {
+            match <PayloadHeader as TryReadFrom>::try_read(buf) {
+                Ok(ReadStatus::Success(header)) => {
                     match <P as TryExtractPayloadFrom<Inner>>::try_read(buf, &header) {
                         Ok(ReadStatus::Success(payload)) => {
                             pkg.payload = Some(payload);
@@ -143,10 +145,14 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
                         }
                     }
                 }
-                ReadStatus::NotEnoughData(needed) => {
+                Ok(ReadStatus::NotEnoughData(needed)) => {
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     return Err(Error::NotEnoughData(needed as usize));
                 }
+                Err(err) => {
+                    buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                    return Err(err);
+                }
             }
         }
         Ok(ReadStatus::Success(pkg))
-- 
2.43.0


From 5f374edc21d1525580b6eee5eae22096f0ff2f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:24 +0000
Subject: [PATCH 16/53] fix: buffered incremental packet read requires the
 whole packet and consumes only on success

---
 brec/src/packet/read.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 26e0e37..d7f39e7 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -1,4 +1,5 @@
 use crate::*;
+use std::io::BufRead;
 
 /// Reads a complete `PacketDef` from a stream, including header, blocks, and optional payload.
 ///
@@ -189,16 +190,18 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
             return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - available));
         }
         let header = PacketHeader::read_from_slice(bytes, false)?;
-        if header.size > available {
-            return Ok(ReadStatus::NotEnoughData(header.size - available));
+        let required = PacketHeader::ssize().saturating_add(header.size);
+        if required > available {
+            return Ok(ReadStatus::NotEnoughData(required - available));
         }
-        reader.consume(PacketHeader::ssize() as usize);
+        // Packet is consumed only after it has been read completely
+        let mut body = &bytes[PacketHeader::ssize() as usize..required as usize];
         let mut pkg = PacketDef::default();
         let mut read = 0;
         if header.blocks_len > 0 {
             let mut iterations = 0;
             loop {
-                match <B as TryReadFromBuffered>::try_read(reader)? {
+                match <B as TryReadFromBuffered>::try_read(&mut body)? {
                     ReadStatus::Success(blk) => {
                         read += blk.size();
                         pkg.blocks.push(blk);
@@ -217,10 +220,10 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
             }
         }
         if header.payload {
-            match <PayloadHeader as TryReadFromBuffered>::try_read(reader)? {
+            match <PayloadHeader as TryReadFromBuffered>::try_read(&mut body)? {
                 ReadStatus::Success(header) => {
-                    reader.consume(header.size());
-                    match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(reader, &header)? {
+                    body.consume(header.size());
+                    match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(&mut body, &header)? {
                         ReadStatus::Success(payload) => {
                             pkg.payload = Some(payload);
                         }
@@ -234,6 +237,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
                 }
             }
         }
+        reader.consume(required as usize);
         Ok(ReadStatus::Success(pkg))
     }
 }
-- 
2.43.0


From 4662895460c311c3b7df9b0820cd2a186aee0173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:24 +0000
Subject: [PATCH 17/53] fix: seekable incremental payload header read restores
 the position on unsupported lengths

---
 brec/src/payload/header/read.rs    | 10 ++++++++--
 brec/src/payload/header/sreader.rs |  7 +++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/brec/src/payload/header/read.rs b/brec/src/payload/header/read.rs
index 2414c15..9d9c319 100644
--- a/brec/src/payload/header/read.rs
+++ b/brec/src/payload/header/read.rs
@@ -64,7 +64,10 @@ impl TryReadFrom for PayloadHeader {
             NextChunk::U8(v) => v,
             _ => return Err(Error::FailToReadPayloadHeader),
         };
-        ByteBlock::is_valid_capacity(sig_len)?;
+        if let Err(err) = ByteBlock::is_valid_capacity(sig_len) {
+            reader.reset()?;
+            return Err(err);
+        }
         let sig = match reader.next_bytes(sig_len as u64)? {
             NextChunk::NotEnoughData(n) => return Ok(ReadStatus::NotEnoughData(n)),
             NextChunk::Bytes(v) => v,
@@ -75,7 +78,10 @@ impl TryReadFrom for PayloadHeader {
             NextChunk::U8(v) => v,
             _ => return Err(Error::FailToReadPayloadHeader),
         };
-        ByteBlock::is_valid_capacity(crc_len)?;
+        if let Err(err) = ByteBlock::is_valid_capacity(crc_len) {
+            reader.reset()?;
+            return Err(err);
+        }
         let crc = match reader.next_bytes(crc_len as u64)? {
             NextChunk::NotEnoughData(n) => return Ok(ReadStatus::NotEnoughData(n)),
             NextChunk::Bytes(v) => v,
diff --git a/brec/src/payload/header/sreader.rs b/brec/src/payload/header/sreader.rs
index efa8ef0..0a93c1d 100644
--- a/brec/src/payload/header/sreader.rs
+++ b/brec/src/payload/header/sreader.rs
@@ -63,6 +63,13 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
         })
     }
 
+    /// Returns the stream to the position it had before reading.
+    pub fn reset(&mut self) -> Result<(), Error> {
+        self.buf.seek(std::io::SeekFrom::Start(self.spos))?;
+        self.read = 0;
+        Ok(())
+    }
+
     /// Attempts to read a single `u8` from the stream.
     ///
     /// If insufficient data is available, resets the stream and returns
-- 
2.43.0


From a990075585cc14148289bb12ad82997313665f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:02 +0000
Subject: [PATCH 18/53] fix: packet header accounts for the checksum length of
 the payload at hand

---
 brec/src/payload/header/mod.rs              | 2 +-
 brec/src/traits/props/mod.rs                | 8 ++++++++
 brec_macros/src/collector/payloads/props.rs | 9 +++++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/brec/src/payload/header/mod.rs b/brec/src/payload/header/mod.rs
index d9f37a5..9e48205 100644
--- a/brec/src/payload/header/mod.rs
+++ b/brec/src/payload/header/mod.rs
@@ -84,7 +84,7 @@ impl PayloadHeader {
     pub fn ssize<T: PayloadSignature + PayloadSize + PayloadCrc>(
         src: &T,
     ) -> std::io::Result<usize> {
-        Ok(1 + src.sig().size() + 1 + T::crc_size() + std::mem::size_of::<u32>())
+        Ok(1 + src.sig().size() + 1 + src.crc_len() + std::mem::size_of::<u32>())
     }
 
     /// Serializes the header into a binary vector.
diff --git a/brec/src/traits/props/mod.rs b/brec/src/traits/props/mod.rs
index 0aee2a4..9cc7aef 100644
--- a/brec/src/traits/props/mod.rs
+++ b/brec/src/traits/props/mod.rs
@@ -50,6 +50,14 @@ where
     fn crc_size() -> usize {
         4
     }
+
+    /// Returns the length of the checksum of this particular payload.
+    ///
+    /// By default it's the same for all payloads of the type. Types that combine several kinds of
+    /// payloads (as the generated `Payload` does) report the length for the current one.
+    fn crc_len(&self) -> usize {
+        Self::crc_size()
+    }
 }
 
 /// Trait for types that can return a payload signature dynamically.
diff --git a/brec_macros/src/collector/payloads/props.rs b/brec_macros/src/collector/payloads/props.rs
index 3ef9a83..ecffbfc 100644
--- a/brec_macros/src/collector/payloads/props.rs
+++ b/brec_macros/src/collector/payloads/props.rs
@@ -62,9 +62,11 @@ pub fn sig(payloads: &[&Payload]) -> Result<TokenStream, E> {
 
 pub fn crc(payloads: &[&Payload]) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
+    let mut lengths = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         variants.push(quote! {Payload::#fullname(pl) => pl.crc()});
+        lengths.push(quote! {Payload::#fullname(pl) => pl.crc_len()});
     }
     Ok(quote! {
         impl brec::PayloadCrc for Payload {
@@ -75,6 +77,13 @@ pub fn crc(payloads: &[&Payload]) -> Result<TokenStream, E> {
                     Payload::String(pl) => pl.crc(),
                 }
             }
+            fn crc_len(&self) -> usize {
+                match self {
+                    #(#lengths,)*
+                    Payload::Bytes(pl) => pl.crc_len(),
+                    Payload::String(pl) => pl.crc_len(),
+                }
+            }
         }
     })
 }
-- 
2.43.0


From 1fa5d426168ac6efe55386e93c2179dc5d828d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:32 +0000
Subject: [PATCH 19/53] fix: block fields named crc or buf do not clash with
 the generated code

---
 brec_macros/src/codegen/read/block.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 1d8dd64..fefd672 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -9,7 +9,9 @@ impl Read for Block {
         let mut fields = Vec::new();
         let mut fnames = Vec::new();
         let sig_len = self.sig_len();
-        let src: syn::Ident = format_ident!("buf");
+        // Names of fields are bound to local variables; our own variables should not overlap with it
+        let src: syn::Ident = format_ident!("__buf");
+        let crc: syn::Ident = format_ident!("{}", FIELD_CRC);
         for field in self.fields.iter().filter(|f| !f.injected) {
             fields.push(field.read_exact(&src)?);
             fnames.push(format_ident!("{}", field.name));
@@ -17,7 +19,7 @@ impl Read for Block {
         Ok(quote! {
 
             impl brec::ReadBlockFrom for #block_name {
-                fn read<T: std::io::Read>(buf: &mut T, skip_sig: bool) -> Result<Self, brec::Error>
+                fn read<T: std::io::Read>(#src: &mut T, skip_sig: bool) -> Result<Self, brec::Error>
                 where
                     Self: Sized {
                         use brec::prelude::*;
@@ -31,13 +33,13 @@ impl Read for Block {
 
                         #(#fields)*
 
-                        let mut crc = [0u8; 4];
-                        #src.read_exact(&mut crc)?;
+                        let mut #crc = [0u8; 4];
+                        #src.read_exact(&mut #crc)?;
 
                         let block = #block_name {
                             #(#fnames,)*
                         };
-                        if block.crc() != crc {
+                        if block.crc() != #crc {
                             return Err(brec::Error::CrcDismatch)
                         }
 
@@ -59,6 +61,7 @@ impl ReadFromSlice for Block {
         let mut fnames = Vec::new();
         let mut offset = 0usize;
         let src: syn::Ident = format_ident!("buf");
+        let crc: syn::Ident = format_ident!("{}", FIELD_CRC);
         // Content of the block without signature
         let body: syn::Ident = format_ident!("__body");
         for field in self.fields.iter() {
@@ -78,7 +81,6 @@ impl ReadFromSlice for Block {
                 let name = format_ident!("{}", FIELD_CRC);
                 fields.push(quote! {
                     let #name = <&[u8; #BLOCK_CRC_LEN]>::try_from(&#body[#offset..#offset + #BLOCK_CRC_LEN])?;
-                    let crc = #name;
                 });
             } else {
                 fields.push(field.safe(&body, offset, offset + field.ty.size()));
@@ -119,7 +121,7 @@ impl ReadFromSlice for Block {
                         #(#fnames,)*
                     };
 
-                    if block.crc() != *crc {
+                    if block.crc() != *#crc {
                         return Err(brec::Error::CrcDismatch)
                     }
                     let block: #referred_name <'a> = unsafe { std::mem::transmute(block) };
-- 
2.43.0


From 3a5a26affb65083a7f237d1bab646c828cd183ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:32 +0000
Subject: [PATCH 20/53] fix: streaming read of bool fields agrees with the
 borrowed view

---
 brec_macros/src/tokenized/block/read_exact/field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec_macros/src/tokenized/block/read_exact/field/mod.rs b/brec_macros/src/tokenized/block/read_exact/field/mod.rs
index 1b56efb..d01c265 100644
--- a/brec_macros/src/tokenized/block/read_exact/field/mod.rs
+++ b/brec_macros/src/tokenized/block/read_exact/field/mod.rs
@@ -33,7 +33,7 @@ impl ReadExact for Field {
             Ty::Bool => Ok(quote! {
                 let mut #name = [0u8; #len];
                 #src.read_exact(&mut #name)?;
-                let #name = #name[0] != 0;
+                let #name = #name[0] == 1;
             }),
             Ty::Blob(len) => Ok(quote! {
                let mut #name = [0u8; #len];
-- 
2.43.0


From 1868aa2300bac14342128bb586a8240625c64c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:56 +0000
Subject: [PATCH 21/53] fix: no_default_payload works along with custom
 payloads

---
 brec_macros/src/collector/payloads/mod.rs   |  30 ++--
 brec_macros/src/collector/payloads/props.rs |  71 ++++++---
 brec_macros/src/collector/payloads/read.rs  | 161 +++++++++++---------
 brec_macros/src/collector/payloads/write.rs |  35 ++++-
 4 files changed, 191 insertions(+), 106 deletions(-)

diff --git a/brec_macros/src/collector/payloads/mod.rs b/brec_macros/src/collector/payloads/mod.rs
index 8d451e3..5200dc2 100644
--- a/brec_macros/src/collector/payloads/mod.rs
+++ b/brec_macros/src/collector/payloads/mod.rs
@@ -11,16 +11,16 @@ mod write;
 pub fn gen(payloads: Vec<&Payload>, cfg: &Config) -> Result<TokenStream, E> {
     let derives = Derives::common(payloads.iter().map(|p| &p.derives).collect())?;
     let payload = enums::gen(&payloads, derives, cfg)?;
-    let encode = props::encode(&payloads)?;
-    let encode_referred = props::encode_referred(&payloads)?;
-    let sig = props::sig(&payloads)?;
-    let crc = props::crc(&payloads)?;
-    let size = props::size(&payloads)?;
-    let extract_from = read::extract_from(&payloads)?;
-    let try_extract_from = read::try_extract_from(&payloads)?;
-    let try_extract_from_buffered = read::try_extract_from_buffered(&payloads)?;
-    let writing_to = write::writing_to(&payloads)?;
-    let writing_vectored_to = write::writing_vectored_to(&payloads)?;
+    let encode = props::encode(&payloads, cfg)?;
+    let encode_referred = props::encode_referred(&payloads, cfg)?;
+    let sig = props::sig(&payloads, cfg)?;
+    let crc = props::crc(&payloads, cfg)?;
+    let size = props::size(&payloads, cfg)?;
+    let extract_from = read::extract_from(&payloads, cfg)?;
+    let try_extract_from = read::try_extract_from(&payloads, cfg)?;
+    let try_extract_from_buffered = read::try_extract_from_buffered(&payloads, cfg)?;
+    let writing_to = write::writing_to(&payloads, cfg)?;
+    let writing_vectored_to = write::writing_vectored_to(&payloads, cfg)?;
     Ok(quote! {
         #payload
         #encode
@@ -35,3 +35,13 @@ pub fn gen(payloads: Vec<&Payload>, cfg: &Config) -> Result<TokenStream, E> {
         #writing_vectored_to
     })
 }
+
+/// Returns given code, which serves default payloads (`Bytes` and `String`), unless default payloads
+/// are switched off.
+fn defaults(cfg: &Config, code: TokenStream) -> TokenStream {
+    if cfg.is_no_default_payloads() {
+        TokenStream::new()
+    } else {
+        code
+    }
+}
diff --git a/brec_macros/src/collector/payloads/props.rs b/brec_macros/src/collector/payloads/props.rs
index ecffbfc..2065375 100644
--- a/brec_macros/src/collector/payloads/props.rs
+++ b/brec_macros/src/collector/payloads/props.rs
@@ -1,66 +1,85 @@
+use super::defaults;
 use crate::*;
 
 use proc_macro2::TokenStream;
 use quote::quote;
 
-pub fn encode(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn encode(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         variants.push(quote! {Payload::#fullname(pl) => brec::PayloadEncode::encode(pl)});
     }
+    let defaults = defaults(
+        cfg,
+        quote! {
+            Payload::Bytes(pl) => brec::PayloadEncode::encode(pl),
+            Payload::String(pl) => brec::PayloadEncode::encode(pl),
+        },
+    );
     Ok(quote! {
         impl brec::PayloadEncode for Payload {
             fn encode(&self) -> std::io::Result<Vec<u8>> {
                 match self {
                     #(#variants,)*
-                    Payload::Bytes(pl) => brec::PayloadEncode::encode(pl),
-                    Payload::String(pl) => brec::PayloadEncode::encode(pl),
+                    #defaults
                 }
             }
         }
     })
 }
 
-pub fn encode_referred(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn encode_referred(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         variants.push(quote! {Payload::#fullname(pl) => brec::PayloadEncodeReferred::encode(pl)});
     }
+    let defaults = defaults(
+        cfg,
+        quote! {
+            Payload::Bytes(pl) => brec::PayloadEncodeReferred::encode(pl),
+            Payload::String(pl) => brec::PayloadEncodeReferred::encode(pl),
+        },
+    );
     Ok(quote! {
         impl brec::PayloadEncodeReferred for Payload {
             fn encode(&self) -> std::io::Result<Option<&[u8]>> {
                 match self {
                     #(#variants,)*
-                    Payload::Bytes(pl) => brec::PayloadEncodeReferred::encode(pl),
-                    Payload::String(pl) => brec::PayloadEncodeReferred::encode(pl),
+                    #defaults
                 }
             }
         }
     })
 }
 
-pub fn sig(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn sig(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         variants.push(quote! {Payload::#fullname(pl) => pl.sig()});
     }
+    let defaults = defaults(
+        cfg,
+        quote! {
+            Payload::Bytes(pl) => pl.sig(),
+            Payload::String(pl) => pl.sig(),
+        },
+    );
     Ok(quote! {
         impl brec::PayloadSignature for Payload {
             fn sig(&self) -> brec::ByteBlock {
                 match self {
                     #(#variants,)*
-                    Payload::Bytes(pl) => pl.sig(),
-                    Payload::String(pl) => pl.sig(),
+                    #defaults
                 }
             }
         }
     })
 }
 
-pub fn crc(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn crc(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     let mut lengths = Vec::new();
     for payload in payloads.iter() {
@@ -68,39 +87,57 @@ pub fn crc(payloads: &[&Payload]) -> Result<TokenStream, E> {
         variants.push(quote! {Payload::#fullname(pl) => pl.crc()});
         lengths.push(quote! {Payload::#fullname(pl) => pl.crc_len()});
     }
+    let defaults_crc = defaults(
+        cfg,
+        quote! {
+            Payload::Bytes(pl) => pl.crc(),
+            Payload::String(pl) => pl.crc(),
+        },
+    );
+    let defaults_len = defaults(
+        cfg,
+        quote! {
+            Payload::Bytes(pl) => pl.crc_len(),
+            Payload::String(pl) => pl.crc_len(),
+        },
+    );
     Ok(quote! {
         impl brec::PayloadCrc for Payload {
             fn crc(&self) -> std::io::Result<brec::ByteBlock> {
                 match self {
                     #(#variants,)*
-                    Payload::Bytes(pl) => pl.crc(),
-                    Payload::String(pl) => pl.crc(),
+                    #defaults_crc
                 }
             }
             fn crc_len(&self) -> usize {
                 match self {
                     #(#lengths,)*
-                    Payload::Bytes(pl) => pl.crc_len(),
-                    Payload::String(pl) => pl.crc_len(),
+                    #defaults_len
                 }
             }
         }
     })
 }
 
-pub fn size(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn size(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         variants.push(quote! {Payload::#fullname(pl) => pl.size()});
     }
+    let defaults = defaults(
+        cfg,
+        quote! {
+            Payload::Bytes(pl) => pl.size(),
+            Payload::String(pl) => pl.size(),
+        },
+    );
     Ok(quote! {
         impl brec::PayloadSize for Payload {
             fn size(&self) -> std::io::Result<u64> {
                 match self {
                     #(#variants,)*
-                    Payload::Bytes(pl) => pl.size(),
-                    Payload::String(pl) => pl.size(),
+                    #defaults
                 }
             }
         }
diff --git a/brec_macros/src/collector/payloads/read.rs b/brec_macros/src/collector/payloads/read.rs
index 2d842d0..8d6f5af 100644
--- a/brec_macros/src/collector/payloads/read.rs
+++ b/brec_macros/src/collector/payloads/read.rs
@@ -1,9 +1,10 @@
+use super::defaults;
 use crate::*;
 
 use proc_macro2::TokenStream;
 use quote::quote;
 
-pub fn extract_from(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn extract_from(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
@@ -19,6 +20,27 @@ pub fn extract_from(payloads: &[&Payload]) -> Result<TokenStream, E> {
             }
         });
     }
+    let defaults = defaults(
+        cfg,
+        quote! {
+            match <Vec<u8> as brec::ReadPayloadFrom<Vec<u8>>>::read(buf, header) {
+                Ok(pl) => return Ok(Payload::Bytes(pl)),
+                Err(err) => {
+                    if !matches!(err, brec::Error::SignatureDismatch) {
+                        return Err(err);
+                    }
+                }
+            }
+            match <String as brec::ReadPayloadFrom<String>>::read(buf, header) {
+                Ok(pl) => return Ok(Payload::String(pl)),
+                Err(err) => {
+                    if !matches!(err, brec::Error::SignatureDismatch) {
+                        return Err(err);
+                    }
+                }
+            }
+        },
+    );
     Ok(quote! {
         impl brec::ExtractPayloadFrom<Payload> for Payload {
             fn read<B: std::io::Read>(
@@ -29,29 +51,14 @@ pub fn extract_from(payloads: &[&Payload]) -> Result<TokenStream, E> {
                 Self: Sized,
             {
                 #(#variants)*
-                match <Vec<u8> as brec::ReadPayloadFrom<Vec<u8>>>::read(buf, header) {
-                    Ok(pl) => return Ok(Payload::Bytes(pl)),
-                    Err(err) => {
-                        if !matches!(err, brec::Error::SignatureDismatch) {
-                            return Err(err);
-                        }
-                    }
-                }
-                match <String as brec::ReadPayloadFrom<String>>::read(buf, header) {
-                    Ok(pl) => return Ok(Payload::String(pl)),
-                    Err(err) => {
-                        if !matches!(err, brec::Error::SignatureDismatch) {
-                            return Err(err);
-                        }
-                    }
-                }
+                #defaults
                 Err(brec::Error::SignatureDismatch)
             }
         }
     })
 }
 
-pub fn try_extract_from(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn try_extract_from(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
@@ -72,6 +79,37 @@ pub fn try_extract_from(payloads: &[&Payload]) -> Result<TokenStream, E> {
             }
         });
     }
+    let defaults = defaults(
+        cfg,
+        quote! {
+            match <Vec<u8> as brec::TryReadPayloadFrom<Vec<u8>>>::try_read(buf, header) {
+                Ok(brec::ReadStatus::Success(pl)) => {
+                    return Ok(brec::ReadStatus::Success(Payload::Bytes(pl)))
+                }
+                Ok(brec::ReadStatus::NotEnoughData(needed)) => {
+                    return Ok(brec::ReadStatus::NotEnoughData(needed))
+                }
+                Err(err) => {
+                    if !matches!(err, brec::Error::SignatureDismatch) {
+                        return Err(err);
+                    }
+                }
+            }
+            match <String as brec::TryReadPayloadFrom<String>>::try_read(buf, header) {
+                Ok(brec::ReadStatus::Success(pl)) => {
+                    return Ok(brec::ReadStatus::Success(Payload::String(pl)))
+                }
+                Ok(brec::ReadStatus::NotEnoughData(needed)) => {
+                    return Ok(brec::ReadStatus::NotEnoughData(needed))
+                }
+                Err(err) => {
+                    if !matches!(err, brec::Error::SignatureDismatch) {
+                        return Err(err);
+                    }
+                }
+            }
+        },
+    );
     Ok(quote! {
         impl brec::TryExtractPayloadFrom<Payload> for Payload {
             fn try_read<B: std::io::Read + std::io::Seek>(
@@ -79,39 +117,14 @@ pub fn try_extract_from(payloads: &[&Payload]) -> Result<TokenStream, E> {
                 header: &brec::PayloadHeader,
             ) -> Result<brec::ReadStatus<Payload>, brec::Error> {
                 #(#variants)*
-                match <Vec<u8> as brec::TryReadPayloadFrom<Vec<u8>>>::try_read(buf, header) {
-                    Ok(brec::ReadStatus::Success(pl)) => {
-                        return Ok(brec::ReadStatus::Success(Payload::Bytes(pl)))
-                    }
-                    Ok(brec::ReadStatus::NotEnoughData(needed)) => {
-                        return Ok(brec::ReadStatus::NotEnoughData(needed))
-                    }
-                    Err(err) => {
-                        if !matches!(err, brec::Error::SignatureDismatch) {
-                            return Err(err);
-                        }
-                    }
-                }
-                match <String as brec::TryReadPayloadFrom<String>>::try_read(buf, header) {
-                    Ok(brec::ReadStatus::Success(pl)) => {
-                        return Ok(brec::ReadStatus::Success(Payload::String(pl)))
-                    }
-                    Ok(brec::ReadStatus::NotEnoughData(needed)) => {
-                        return Ok(brec::ReadStatus::NotEnoughData(needed))
-                    }
-                    Err(err) => {
-                        if !matches!(err, brec::Error::SignatureDismatch) {
-                            return Err(err);
-                        }
-                    }
-                }
+                #defaults
                 Err(brec::Error::SignatureDismatch)
             }
         }
     })
 }
 
-pub fn try_extract_from_buffered(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn try_extract_from_buffered(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
@@ -132,6 +145,37 @@ pub fn try_extract_from_buffered(payloads: &[&Payload]) -> Result<TokenStream, E
             }
         });
     }
+    let defaults = defaults(
+        cfg,
+        quote! {
+            match <Vec<u8> as brec::TryReadPayloadFromBuffered<Vec<u8>>>::try_read(buf, header) {
+                Ok(brec::ReadStatus::Success(pl)) => {
+                    return Ok(brec::ReadStatus::Success(Payload::Bytes(pl)))
+                }
+                Ok(brec::ReadStatus::NotEnoughData(needed)) => {
+                    return Ok(brec::ReadStatus::NotEnoughData(needed))
+                }
+                Err(err) => {
+                    if !matches!(err, brec::Error::SignatureDismatch) {
+                        return Err(err);
+                    }
+                }
+            }
+            match <String as brec::TryReadPayloadFromBuffered<String>>::try_read(buf, header) {
+                Ok(brec::ReadStatus::Success(pl)) => {
+                    return Ok(brec::ReadStatus::Success(Payload::String(pl)))
+                }
+                Ok(brec::ReadStatus::NotEnoughData(needed)) => {
+                    return Ok(brec::ReadStatus::NotEnoughData(needed))
+                }
+                Err(err) => {
+                    if !matches!(err, brec::Error::SignatureDismatch) {
+                        return Err(err);
+                    }
+                }
+            }
+        },
+    );
     Ok(quote! {
         impl brec::TryExtractPayloadFromBuffered<Payload> for Payload {
             fn try_read<B: std::io::BufRead>(
@@ -139,32 +183,7 @@ pub fn try_extract_from_buffered(payloads: &[&Payload]) -> Result<TokenStream, E
                 header: &brec::PayloadHeader,
             ) -> Result<brec::ReadStatus<Payload>, brec::Error> {
                 #(#variants)*
-                match <Vec<u8> as brec::TryReadPayloadFromBuffered<Vec<u8>>>::try_read(buf, header) {
-                    Ok(brec::ReadStatus::Success(pl)) => {
-                        return Ok(brec::ReadStatus::Success(Payload::Bytes(pl)))
-                    }
-                    Ok(brec::ReadStatus::NotEnoughData(needed)) => {
-                        return Ok(brec::ReadStatus::NotEnoughData(needed))
-                    }
-                    Err(err) => {
-                        if !matches!(err, brec::Error::SignatureDismatch) {
-                            return Err(err);
-                        }
-                    }
-                }
-                match <String as brec::TryReadPayloadFromBuffered<String>>::try_read(buf, header) {
-                    Ok(brec::ReadStatus::Success(pl)) => {
-                        return Ok(brec::ReadStatus::Success(Payload::String(pl)))
-                    }
-                    Ok(brec::ReadStatus::NotEnoughData(needed)) => {
-                        return Ok(brec::ReadStatus::NotEnoughData(needed))
-                    }
-                    Err(err) => {
-                        if !matches!(err, brec::Error::SignatureDismatch) {
-                            return Err(err);
-                        }
-                    }
-                }
+                #defaults
                 Err(brec::Error::SignatureDismatch)
             }
         }
diff --git a/brec_macros/src/collector/payloads/write.rs b/brec_macros/src/collector/payloads/write.rs
index 45b6d5a..fd3df9b 100644
--- a/brec_macros/src/collector/payloads/write.rs
+++ b/brec_macros/src/collector/payloads/write.rs
@@ -1,9 +1,10 @@
+use super::defaults;
 use crate::*;
 
 use proc_macro2::TokenStream;
 use quote::quote;
 
-pub fn writing_to(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn writing_to(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut write = Vec::new();
     let mut write_all = Vec::new();
     for payload in payloads.iter() {
@@ -15,41 +16,59 @@ pub fn writing_to(payloads: &[&Payload]) -> Result<TokenStream, E> {
             quote! {Payload::#fullname(pl) => brec::WritePayloadWithHeaderTo::write_all(pl, buf)},
         );
     }
+    let defaults_write = defaults(
+        cfg,
+        quote! {
+            Payload::Bytes(pl) => brec::WritePayloadWithHeaderTo::write(pl, buf),
+            Payload::String(pl) => brec::WritePayloadWithHeaderTo::write(pl, buf),
+        },
+    );
+    let defaults_write_all = defaults(
+        cfg,
+        quote! {
+            Payload::Bytes(pl) => brec::WritePayloadWithHeaderTo::write_all(pl, buf),
+            Payload::String(pl) => brec::WritePayloadWithHeaderTo::write_all(pl, buf),
+        },
+    );
     Ok(quote! {
         impl brec::WriteMutTo for Payload {
             fn write<T: std::io::Write>(&mut self, buf: &mut T) -> std::io::Result<usize> {
                 match self {
                     #(#write,)*
-                    Payload::Bytes(pl) => brec::WritePayloadWithHeaderTo::write(pl, buf),
-                    Payload::String(pl) => brec::WritePayloadWithHeaderTo::write(pl, buf),
+                    #defaults_write
                 }
             }
 
             fn write_all<T: std::io::Write>(&mut self, buf: &mut T) -> std::io::Result<()> {
                 match self {
                     #(#write_all,)*
-                    Payload::Bytes(pl) => brec::WritePayloadWithHeaderTo::write_all(pl, buf),
-                    Payload::String(pl) => brec::WritePayloadWithHeaderTo::write_all(pl, buf),
+                    #defaults_write_all
                 }
             }
         }
     })
 }
 
-pub fn writing_vectored_to(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn writing_vectored_to(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut slices = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         slices.push(quote! {Payload::#fullname(pl) => pl.slices()});
     }
+    let defaults = defaults(
+        cfg,
+        quote! {
+            Payload::Bytes(pl) => pl.slices(),
+            Payload::String(pl) => pl.slices(),
+        },
+    );
     Ok(quote! {
         impl brec::WriteVectoredMutTo for Payload {
             fn slices(&mut self) -> std::io::Result<brec::IoSlices<'_>> {
                 use brec::WriteVectoredPayloadWithHeaderTo;
                 match self {
                     #(#slices,)*
-                    Payload::Bytes(pl) => pl.slices(),
-                    Payload::String(pl) => pl.slices(),
+                    #defaults
                 }
             }
         }
-- 
2.43.0


From c188c0bbcf9422ebc070fbdb5a27a77a09624c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:56 +0000
Subject: [PATCH 22/53] fix: payloads_derive may name derives already shared by
 all payloads

---
 brec_macros/src/collector/payloads/enums.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/brec_macros/src/collector/payloads/enums.rs b/brec_macros/src/collector/payloads/enums.rs
index d367690..8fe61ab 100644
--- a/brec_macros/src/collector/payloads/enums.rs
+++ b/brec_macros/src/collector/payloads/enums.rs
@@ -14,7 +14,13 @@ pub fn gen(
         let fullpath = pl.fullpath()?;
         variants.push(quote! {#fullname(#fullpath)});
     }
-    let derives = [derives, cfg.get_payload_derive()?].concat();
+    let mut derives = derives;
+    for derive in cfg.get_payload_derive()? {
+        // Derive can be already added as a common for all payloads
+        if !derives.iter().any(|d| d.to_string() == derive.to_string()) {
+            derives.push(derive);
+        }
+    }
     let derives = if derives.is_empty() {
         quote! {}
     } else {
-- 
2.43.0


From 18f89f9a9d903ed2e0820f866ceb826447b14a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:11 +0000
Subject: [PATCH 23/53] fix: Default shared by all blocks or payloads is not
 derived for the generated enum

---
 brec_macros/src/entities/derives/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/brec_macros/src/entities/derives/mod.rs b/brec_macros/src/entities/derives/mod.rs
index af893a3..8d20411 100644
--- a/brec_macros/src/entities/derives/mod.rs
+++ b/brec_macros/src/entities/derives/mod.rs
@@ -17,6 +17,8 @@ impl Derives {
         derives.iter().for_each(|v| {
             common.retain(|der| v.derives.contains(der));
         });
+        // Result is used for an enum, which cannot derive Default
+        common.retain(|der| der.split("::").last() != Some("Default"));
         common
             .into_iter()
             .map(|derive| {
-- 
2.43.0


From d819a4517e700c1b30aded6752fca62b651b78a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:11 +0000
Subject: [PATCH 24/53] fix: Copy shared by all payloads is not derived along
 with default payloads

---
 brec_macros/src/collector/payloads/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brec_macros/src/collector/payloads/mod.rs b/brec_macros/src/collector/payloads/mod.rs
index 5200dc2..13f5c32 100644
--- a/brec_macros/src/collector/payloads/mod.rs
+++ b/brec_macros/src/collector/payloads/mod.rs
@@ -9,7 +9,11 @@ mod read;
 mod write;
 
 pub fn gen(payloads: Vec<&Payload>, cfg: &Config) -> Result<TokenStream, E> {
-    let derives = Derives::common(payloads.iter().map(|p| &p.derives).collect())?;
+    let mut derives = Derives::common(payloads.iter().map(|p| &p.derives).collect())?;
+    if !cfg.is_no_default_payloads() {
+        // Default payloads (`Bytes` and `String`) cannot be copied
+        derives.retain(|der| der.to_string() != "Copy");
+    }
     let payload = enums::gen(&payloads, derives, cfg)?;
     let encode = props::encode(&payloads, cfg)?;
     let encode_referred = props::encode_referred(&payloads, cfg)?;
-- 
2.43.0


From 507755a271591f54fef1417097a7f9b8da8b9d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:21 +0000
Subject: [PATCH 25/53] fix: storage opens after an append interrupted before
 its packet was written

---
 brec/src/storage/slot/header.rs | 5 ++++-
 brec/src/storage/slot/read.rs   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/brec/src/storage/slot/header.rs b/brec/src/storage/slot/header.rs
index f1d8114..38f78be 100644
--- a/brec/src/storage/slot/header.rs
+++ b/brec/src/storage/slot/header.rs
@@ -61,7 +61,10 @@ impl TryReadFrom for SlotHeader {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        // Position can be behind the end of the source, if the last packet was not written completely
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         if len < SlotHeader::ssize() {
             return Ok(ReadStatus::NotEnoughData(SlotHeader::ssize()));
diff --git a/brec/src/storage/slot/read.rs b/brec/src/storage/slot/read.rs
index 09da083..a55b1c1 100644
--- a/brec/src/storage/slot/read.rs
+++ b/brec/src/storage/slot/read.rs
@@ -60,7 +60,10 @@ impl TryReadFrom for Slot {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        // Position can be behind the end of the source, if the last packet was not written completely
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
 
         let header = match SlotHeader::try_read(buf)? {
-- 
2.43.0


From 08f5e98ecae3209baa40412133763df0c6bad267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:21 +0000
Subject: [PATCH 26/53] fix: slot reports the real shortfall instead of
 underflowing

---
 brec/src/storage/slot/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec/src/storage/slot/read.rs b/brec/src/storage/slot/read.rs
index a55b1c1..73e5286 100644
--- a/brec/src/storage/slot/read.rs
+++ b/brec/src/storage/slot/read.rs
@@ -76,7 +76,7 @@ impl TryReadFrom for Slot {
             + std::mem::size_of::<u32>() as u64;
         if len < needed {
             buf.seek(std::io::SeekFrom::Start(start_pos))?;
-            return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - needed));
+            return Ok(ReadStatus::NotEnoughData(needed - len));
         }
 
         let mut lenghts = Vec::with_capacity(header.capacity as usize);
-- 
2.43.0


From 4097fb47396bab09fd341a911cfe848c97727678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:05 +0000
Subject: [PATCH 27/53] fix: slots with hostile capacity or lengths are refused
 instead of overflowing

---
 brec/src/storage/reader/mod.rs |  6 +++---
 brec/src/storage/slot/mod.rs   | 22 ++++++++++++++++++++++
 brec/src/storage/slot/read.rs  | 13 +++++++++----
 brec/src/storage/writer/mod.rs |  2 +-
 4 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index 15dfb84..4b022bf 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -56,7 +56,7 @@ impl<
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
                     let position = offset;
-                    offset += slot.size() + slot.width();
+                    offset = slot.next_offset(offset)?;
                     self.slots.push(AnchoredSlot::new(slot, position));
                 }
                 Ok(ReadStatus::NotEnoughData(_needed)) => {
@@ -110,7 +110,7 @@ impl<
                             lst.inner = slot;
                             if lst.inner.get_free_slot_index().is_none() {
                                 // Slot is full, move source position to the end of this slot
-                                source_pos += lst.inner.size() + lst.inner.width();
+                                source_pos = lst.inner.next_offset(source_pos)?;
                             } else {
                                 // Slot has free space, so we can stop here
                                 break;
@@ -120,7 +120,7 @@ impl<
                         }
                     } else {
                         let position = source_pos;
-                        source_pos += slot.size() + slot.width();
+                        source_pos = slot.next_offset(source_pos)?;
                         self.slots.push(AnchoredSlot::new(slot, position));
                     }
                 }
diff --git a/brec/src/storage/slot/mod.rs b/brec/src/storage/slot/mod.rs
index 30f7390..404266d 100644
--- a/brec/src/storage/slot/mod.rs
+++ b/brec/src/storage/slot/mod.rs
@@ -68,6 +68,28 @@ impl Slot {
         self.lenghts[..free_pos].iter().sum()
     }
 
+    /// Returns an offset of the next slot, if this one is placed at the given offset.
+    ///
+    /// # Errors
+    /// Returns `Error::DamagedSlot` if the offset isn't representable.
+    pub(crate) fn next_offset(&self, offset: u64) -> Result<u64, Error> {
+        offset
+            .checked_add(self.size() + self.width())
+            .ok_or(Error::DamagedSlot(Box::new(Error::UnexpectedSliceLength)))
+    }
+
+    /// Checks that offsets of all chunks are representable.
+    ///
+    /// # Errors
+    /// Returns `Error::DamagedSlot` if the slot refers to data behind any possible offset.
+    pub(crate) fn check_width(&self) -> Result<(), Error> {
+        self.lenghts
+            .iter()
+            .try_fold(self.size(), |width, ln| width.checked_add(*ln))
+            .map(|_| ())
+            .ok_or(Error::DamagedSlot(Box::new(Error::UnexpectedSliceLength)))
+    }
+
     /// Returns an iterator over active ranges in the slot.
     pub fn iter(&self) -> SlotIterator<'_> {
         SlotIterator::new(self)
diff --git a/brec/src/storage/slot/read.rs b/brec/src/storage/slot/read.rs
index 73e5286..c233037 100644
--- a/brec/src/storage/slot/read.rs
+++ b/brec/src/storage/slot/read.rs
@@ -21,7 +21,8 @@ impl ReadFrom for Slot {
     {
         let header = SlotHeader::read(buf)?;
 
-        let mut lenghts = Vec::with_capacity(header.capacity as usize);
+        // Capacity isn't verified yet, memory should not be reserved according to it
+        let mut lenghts = Vec::new();
         for _ in 0..header.capacity {
             let mut packet_len = [0u8; 8usize];
             buf.read_exact(&mut packet_len)?;
@@ -33,6 +34,7 @@ impl ReadFrom for Slot {
 
         let slot = Slot::new(lenghts, header.capacity, crc);
         if slot.crc == slot.crc() {
+            slot.check_width()?;
             Ok(slot)
         } else {
             Err(Error::CrcDismatch)
@@ -71,9 +73,11 @@ impl TryReadFrom for Slot {
             ReadStatus::NotEnoughData(needed) => return Ok(ReadStatus::NotEnoughData(needed)),
         };
 
-        let needed = SlotHeader::ssize()
-            + header.capacity * std::mem::size_of::<u64>() as u64
-            + std::mem::size_of::<u32>() as u64;
+        // Capacity isn't verified yet and can be any
+        let needed = header
+            .capacity
+            .saturating_mul(std::mem::size_of::<u64>() as u64)
+            .saturating_add(SlotHeader::ssize() + std::mem::size_of::<u32>() as u64);
         if len < needed {
             buf.seek(std::io::SeekFrom::Start(start_pos))?;
             return Ok(ReadStatus::NotEnoughData(needed - len));
@@ -91,6 +95,7 @@ impl TryReadFrom for Slot {
 
         let slot = Slot::new(lenghts, header.capacity, crc);
         if slot.crc == slot.crc() {
+            slot.check_width()?;
             Ok(ReadStatus::Success(slot))
         } else {
             Err(Error::CrcDismatch)
diff --git a/brec/src/storage/writer/mod.rs b/brec/src/storage/writer/mod.rs
index e7dce73..55664d1 100644
--- a/brec/src/storage/writer/mod.rs
+++ b/brec/src/storage/writer/mod.rs
@@ -53,7 +53,7 @@ impl<
             self.inner.seek(std::io::SeekFrom::Start(offset))?;
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
-                    offset += slot.size() + slot.width();
+                    offset = slot.next_offset(offset)?;
                     self.slots.push(slot);
                 }
                 Ok(ReadStatus::NotEnoughData(_needed)) => {
-- 
2.43.0


From 67bb85663307cde6a59bff6aa6c64f5cf0389309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:05 +0000
Subject: [PATCH 28/53] fix: slot with a damaged capacity is reported instead
 of being taken for the end of the storage

---
 brec/src/storage/reader/mod.rs  |  1 +
 brec/src/storage/slot/header.rs | 23 +++++++++++++++++++++++
 brec/src/storage/writer/mod.rs  |  1 +
 3 files changed, 25 insertions(+)

diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index 4b022bf..e865375 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -60,6 +60,7 @@ impl<
                     self.slots.push(AnchoredSlot::new(slot, position));
                 }
                 Ok(ReadStatus::NotEnoughData(_needed)) => {
+                    SlotHeader::check_tail(&mut self.inner, offset)?;
                     break;
                 }
                 Err(Error::CrcDismatch) => {
diff --git a/brec/src/storage/slot/header.rs b/brec/src/storage/slot/header.rs
index 38f78be..a69e048 100644
--- a/brec/src/storage/slot/header.rs
+++ b/brec/src/storage/slot/header.rs
@@ -10,6 +10,29 @@ pub struct SlotHeader {
     pub capacity: u64,
 }
 
+impl SlotHeader {
+    /// Checks that an incomplete slot at the given offset could be left by an interrupted writing:
+    /// nothing but the default capacity is ever written.
+    ///
+    /// # Errors
+    /// Returns `Error::DamagedSlot` if the slot is incomplete because of its capacity.
+    pub(crate) fn check_tail<T: std::io::Read + std::io::Seek>(
+        source: &mut T,
+        offset: u64,
+    ) -> Result<(), Error> {
+        source.seek(std::io::SeekFrom::Start(offset))?;
+        match SlotHeader::try_read(source)? {
+            ReadStatus::Success(header) if header.capacity != DEFAULT_SLOT_CAPACITY as u64 => {
+                Err(Error::DamagedSlot(Box::new(Error::InvalidCapacity(
+                    header.capacity as usize,
+                    DEFAULT_SLOT_CAPACITY.to_string(),
+                ))))
+            }
+            _ => Ok(()),
+        }
+    }
+}
+
 impl StaticSize for SlotHeader {
     /// Returns the static size of the slot header in bytes.
     ///
diff --git a/brec/src/storage/writer/mod.rs b/brec/src/storage/writer/mod.rs
index 55664d1..d8d581a 100644
--- a/brec/src/storage/writer/mod.rs
+++ b/brec/src/storage/writer/mod.rs
@@ -57,6 +57,7 @@ impl<
                     self.slots.push(slot);
                 }
                 Ok(ReadStatus::NotEnoughData(_needed)) => {
+                    SlotHeader::check_tail(&mut self.inner, offset)?;
                     break;
                 }
                 Err(Error::CrcDismatch) => {
-- 
2.43.0


From 49cfc482ab8a49dc4fd4f9baa084de2e236781af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:30 +0000
Subject: [PATCH 29/53] fix: reload keeps known slots and counts packets
 correctly when the storage grows over a slot

---
 brec/src/storage/reader/mod.rs | 59 +++++++++++-----------------------
 1 file changed, 19 insertions(+), 40 deletions(-)

diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index e865375..23bf190 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -97,18 +97,22 @@ impl<
             }
         };
         let count = self.slots.len();
+        let known: usize = self.slots.iter().map(|slot| slot.inner.count()).sum();
+        // Tells if the last known slot has been read again
+        let mut updated = last.is_none();
         loop {
             self.inner.seek(std::io::SeekFrom::Start(source_pos))?;
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
                     if let Some((_, _, crc)) = last
-                        && self.slots.len() == count
+                        && !updated
                     {
                         if crc == slot.crc {
                             return Ok(0);
                         }
                         if let Some(lst) = self.slots.get_mut(count.saturating_sub(1)) {
                             lst.inner = slot;
+                            updated = true;
                             if lst.inner.get_free_slot_index().is_none() {
                                 // Slot is full, move source position to the end of this slot
                                 source_pos = lst.inner.next_offset(source_pos)?;
@@ -126,22 +130,15 @@ impl<
                     }
                 }
                 Ok(ReadStatus::NotEnoughData(needed)) => {
-                    match (last.is_none(), self.slots.len() == count) {
-                        (true, true) => {
-                            return Ok(0);
-                        }
-                        (false, true) => {
-                            if needed == SlotHeader::ssize() {
-                                // No space in last slot, no slot after
-                                break;
-                            }
-                            // Cannot read again last slot
-                            return Err(Error::DamagedSlot(Box::new(Error::NotEnoughData(
-                                needed as usize,
-                            ))));
-                        }
-                        (false, false) | (true, false) => break,
+                    if updated {
+                        // No more slots
+                        SlotHeader::check_tail(&mut self.inner, source_pos)?;
+                        break;
                     }
+                    // Cannot read again last slot
+                    return Err(Error::DamagedSlot(Box::new(Error::NotEnoughData(
+                        needed as usize,
+                    ))));
                 }
                 Err(Error::CrcDismatch) => {
                     return Err(Error::DamagedSlot(Box::new(Error::CrcDismatch)));
@@ -153,30 +150,12 @@ impl<
             }
         }
 
-        let read = match (last, self.slots.len() == count, self.slots.last()) {
-            (Some((_, index, _)), true, Some(last)) => {
-                // Last slot has been update, no new slot has been added
-                if let Some(idx) = last.inner.get_free_slot_index() {
-                    idx.saturating_sub(index)
-                } else {
-                    DEFAULT_SLOT_CAPACITY.saturating_sub(index)
-                }
-            }
-            (Some((_, index, _)), false, Some(last)) => {
-                // Last slot has been updated, but no new slot has been added
-                DEFAULT_SLOT_CAPACITY.saturating_sub(index)
-                    + last.inner.get_free_slot_index().unwrap_or(0)
-                    + self.slots.len().saturating_sub(count) * DEFAULT_SLOT_CAPACITY
-            }
-            (None, false, Some(last)) => {
-                // In cases:
-                // - No last slot, but new slots have been added
-                // - Last slot is full, but new slots have been added
-                last.inner.get_free_slot_index().unwrap_or(0)
-                    + self.slots.len().saturating_sub(count + 1) * DEFAULT_SLOT_CAPACITY
-            }
-            _ => 0,
-        };
+        let read = self
+            .slots
+            .iter()
+            .map(|slot| slot.inner.count())
+            .sum::<usize>()
+            .saturating_sub(known);
         self.locator
             .setup(self.slots.iter().map(|anchored| &anchored.inner));
         Ok(read)
-- 
2.43.0


From cc4269d143625d54dd3bfc2a7fe13a5d9519fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:30 +0000
Subject: [PATCH 30/53] fix: iteration from a position continues correctly in
 the next slots

---
 brec/src/storage/reader/iters.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index 3b14d35..7535edf 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -47,10 +47,13 @@ impl<'a, I: Iterator<Item = &'a Slot>> PacketsLocatorIterator<'a, I> {
                     packet,
                 ));
             };
-            return Ok(RangeInclusive::new(
+            let location = RangeInclusive::new(
                 self.offset + slot.size() + packet_offset,
                 self.offset + slot.size() + slot.width(),
-            ));
+            );
+            // Next slot goes right after this one
+            self.offset += slot.size() + slot.width();
+            return Ok(location);
         }
         if count == 0 {
             Err(Error::EmptySource)
-- 
2.43.0


From e51aaef8a68587cef66c1eeb271509d2bc5b49fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:30 +0000
Subject: [PATCH 31/53] fix: range at the very end of the index space does not
 overflow

---
 brec/src/storage/reader/iters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index 7535edf..1fd9dea 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -348,7 +348,7 @@ impl<
             return None;
         }
         let item = self.storage.nth(self.from);
-        self.from += 1;
+        self.from = self.from.saturating_add(1);
         self.len -= 1;
         match item {
             Ok(None) => None,
@@ -418,7 +418,7 @@ impl<
                 return None;
             }
             let item = self.storage.nth_filtered(self.from);
-            self.from += 1;
+            self.from = self.from.saturating_add(1);
             match item {
                 Ok(None) => return None,
                 Ok(Some(LookInStatus::Accepted(_, packet))) => {
-- 
2.43.0


From d340d61f02e0ad1c18e1a4d0c29a7a167908feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:29 +0000
Subject: [PATCH 32/53] fix: iteration over a storage survives missing and
 damaged packets

---
 brec/src/storage/reader/iters.rs | 135 +++++++++++++++++++------------
 1 file changed, 82 insertions(+), 53 deletions(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index 1fd9dea..7c7f5a7 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -1,13 +1,10 @@
-use std::{
-    io::{BufRead, Cursor},
-    ops::RangeInclusive,
-};
+use std::io::{Cursor, Read};
 
 use crate::*;
 
 /// Iterator over a sequence of `Slot`s, yielding the byte ranges that contain actual packet data.
 ///
-/// Each iteration returns a `RangeInclusive<u64>` representing the location of the used data region
+/// Each iteration returns a `PacketsLocation` representing the location of the used data region
 /// within the slot. The offset includes the size of the slot header and accounts for cumulative offset.
 ///
 /// The iterator skips over empty slots and automatically adjusts for the internal layout.
@@ -25,7 +22,7 @@ impl<'a, I: Iterator<Item = &'a Slot>> PacketsLocatorIterator<'a, I> {
     }
 
     /// Seeks to the specified packet index across the slots.
-    pub fn from(&mut self, packet: usize) -> Result<RangeInclusive<u64>, Error> {
+    pub fn from(&mut self, packet: usize) -> Result<PacketsLocation, Error> {
         let mut count = 0;
         let mut target = packet;
         for (idx, slot) in self.slots.by_ref().enumerate() {
@@ -47,10 +44,10 @@ impl<'a, I: Iterator<Item = &'a Slot>> PacketsLocatorIterator<'a, I> {
                     packet,
                 ));
             };
-            let location = RangeInclusive::new(
-                self.offset + slot.size() + packet_offset,
-                self.offset + slot.size() + slot.width(),
-            );
+            let location = PacketsLocation {
+                offset: self.offset + slot.size() + packet_offset,
+                lenghts: used_lenghts(slot).skip(target).collect(),
+            };
             // Next slot goes right after this one
             self.offset += slot.size() + slot.width();
             return Ok(location);
@@ -64,7 +61,7 @@ impl<'a, I: Iterator<Item = &'a Slot>> PacketsLocatorIterator<'a, I> {
 }
 
 impl<'a, I: Iterator<Item = &'a Slot>> Iterator for PacketsLocatorIterator<'a, I> {
-    type Item = RangeInclusive<u64>;
+    type Item = PacketsLocation;
 
     /// Returns the next occupied range of packet data, or `None` if finished.
     fn next(&mut self) -> Option<Self::Item> {
@@ -73,20 +70,72 @@ impl<'a, I: Iterator<Item = &'a Slot>> Iterator for PacketsLocatorIterator<'a, I
         if slot_width == 0 {
             return None;
         }
-        let location = RangeInclusive::new(
-            self.offset + slot.size(),
-            self.offset + slot_width + slot.size(),
-        );
+        let location = PacketsLocation {
+            offset: self.offset + slot.size(),
+            lenghts: used_lenghts(slot).collect(),
+        };
         self.offset += slot_width + slot.size();
         Some(location)
     }
 }
 
+/// Location of packets, which follow each other within one slot.
+pub struct PacketsLocation {
+    /// Absolute offset of the first packet.
+    offset: u64,
+    /// Lengths of packets.
+    lenghts: Vec<u64>,
+}
+
+/// Returns lengths of packets stored in the slot.
+fn used_lenghts(slot: &Slot) -> impl Iterator<Item = u64> + '_ {
+    slot.lenghts.iter().copied().take_while(|ln| *ln > 0)
+}
+
+/// Data of packets of one slot. Each packet is given within its own borders, so a damaged packet doesn't
+/// affect packets after it.
+#[derive(Default)]
+struct PacketsBuffer {
+    data: Vec<u8>,
+    position: usize,
+    lenghts: std::vec::IntoIter<u64>,
+}
+
+impl PacketsBuffer {
+    /// Loads packets from the given location. Source can have less data, if the last packet was not
+    /// written completely.
+    fn load<S: std::io::Read + std::io::Seek>(
+        &mut self,
+        source: &mut S,
+        location: PacketsLocation,
+    ) -> Result<(), Error> {
+        source.seek(std::io::SeekFrom::Start(location.offset))?;
+        self.data.clear();
+        self.position = 0;
+        source
+            .by_ref()
+            .take(location.lenghts.iter().sum())
+            .read_to_end(&mut self.data)?;
+        self.lenghts = location.lenghts.into_iter();
+        Ok(())
+    }
+
+    /// Returns data of the next packet, or `None` if there are no more packets.
+    fn next(&mut self) -> Option<&[u8]> {
+        let len = self.lenghts.next()?;
+        let from = self.position;
+        self.position = from
+            .saturating_add(usize::try_from(len).unwrap_or(usize::MAX))
+            .min(self.data.len());
+        Some(&self.data[from..self.position])
+    }
+}
+
 /// An iterator over stored packets distributed across multiple slots.
 ///
 /// `ReaderIterator` reads packets from a `Read + Seek` source (e.g. file or memory stream)
 /// using a list of `Slot`s and their recorded layout. It internally tracks the position and
-/// reuses an internal buffer (`Cursor<Vec<u8>>`) to efficiently read packet data.
+/// reuses an internal buffer (`PacketsBuffer`) to efficiently read packet data.
 ///
 /// It yields deserialized `PacketDef<B, P, Inner>` values or parsing errors.
 ///
@@ -105,7 +154,7 @@ pub struct ReaderIterator<
 > {
     locator: PacketsLocatorIterator<'a, I>,
     source: &'a mut S,
-    buffer: Cursor<Vec<u8>>,
+    buffer: PacketsBuffer,
     _block: std::marker::PhantomData<B>,
     _payload: std::marker::PhantomData<P>,
     _payload_inner: std::marker::PhantomData<Inner>,
@@ -125,7 +174,7 @@ impl<
         Self {
             locator: PacketsLocatorIterator::new(slots),
             source,
-            buffer: Cursor::new(Vec::new()),
+            buffer: PacketsBuffer::default(),
             _block: std::marker::PhantomData,
             _payload: std::marker::PhantomData,
             _payload_inner: std::marker::PhantomData,
@@ -134,12 +183,7 @@ impl<
     /// Seeks to the specified packet index across the slots.
     pub fn seek(mut self, packet: usize) -> Result<Self, Error> {
         let location = self.locator.from(packet)?;
-        self.source
-            .seek(std::io::SeekFrom::Start(*location.start()))?;
-        let size = (location.end() - location.start()) as usize;
-        let mut inner = vec![0u8; size];
-        self.source.read_exact(&mut inner).unwrap();
-        self.buffer = Cursor::new(inner);
+        self.buffer.load(self.source, location)?;
         Ok(self)
     }
 }
@@ -160,23 +204,14 @@ impl<
     /// Loads the slot's region into an internal buffer and calls `PacketDef::read`.
     /// Returns `None` if all slots are exhausted.
     fn next(&mut self) -> Option<Self::Item> {
-        // TODO: remove unwraps and handle errors properly
-        if self.buffer.fill_buf().unwrap().is_empty() {
+        loop {
+            if let Some(mut packet) = self.buffer.next() {
+                return Some(<PacketDef<B, P, Inner> as ReadFrom>::read(&mut packet));
+            }
             let location = self.locator.next()?;
-            if let Err(err) = self
-                .source
-                .seek(std::io::SeekFrom::Start(*location.start()))
-            {
-                return Some(Err(err.into()));
+            if let Err(err) = self.buffer.load(self.source, location) {
+                return Some(Err(err));
             }
-            let size = (location.end() - location.start()) as usize;
-            let mut inner = vec![0u8; size];
-            self.source.read_exact(&mut inner).unwrap();
-            self.buffer = Cursor::new(inner);
-        }
-        match <PacketDef<B, P, Inner> as ReadFrom>::read(&mut self.buffer) {
-            Err(err) => Some(Err(err)),
-            Ok(pkg) => Some(Ok(pkg)),
         }
     }
 }
@@ -208,7 +243,7 @@ pub struct ReaderFilteredIterator<
     locator: PacketsLocatorIterator<'a, I>,
     source: &'a mut S,
     rules: &'a RulesDef<B, BR, P, Inner>,
-    buffer: Cursor<Vec<u8>>,
+    buffer: PacketsBuffer,
 }
 
 impl<
@@ -227,7 +262,7 @@ impl<
             locator: PacketsLocatorIterator::new(slots),
             source,
             rules,
-            buffer: Cursor::new(Vec::new()),
+            buffer: PacketsBuffer::default(),
         }
     }
 }
@@ -254,20 +289,14 @@ impl<
     /// Returns `Some(Ok(...))` if accepted, skips if denied, and `Err(...)` on error.
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            if self.buffer.fill_buf().unwrap().is_empty() {
+            let Some(packet) = self.buffer.next() else {
                 let location = self.locator.next()?;
-                if let Err(err) = self
-                    .source
-                    .seek(std::io::SeekFrom::Start(*location.start()))
-                {
-                    return Some(Err(err.into()));
+                if let Err(err) = self.buffer.load(self.source, location) {
+                    return Some(Err(err));
                 }
-                let size = (location.end() - location.start()) as usize;
-                let mut inner = vec![0u8; size];
-                self.source.read_exact(&mut inner).unwrap();
-                self.buffer = Cursor::new(inner);
-            }
-            match PacketDef::filtered(&mut self.buffer, self.rules) {
+                continue;
+            };
+            match PacketDef::filtered(&mut Cursor::new(packet), self.rules) {
                 Ok(LookInStatus::Accepted(_, packet)) => return Some(Ok(packet)),
                 Ok(LookInStatus::Denied(_)) => {
                     continue;
-- 
2.43.0


From f9ed52e1c16ce8449ee13187e5c5ce71d98673c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:29 +0000
Subject: [PATCH 33/53] fix: failed append leaves its place in the slot free

---
 brec/src/storage/locator.rs    | 10 ++++++++++
 brec/src/storage/slot/mod.rs   | 10 ++++++++++
 brec/src/storage/writer/mod.rs | 12 +++++++++++-
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/brec/src/storage/locator.rs b/brec/src/storage/locator.rs
index 6eb3e82..0f522a0 100644
--- a/brec/src/storage/locator.rs
+++ b/brec/src/storage/locator.rs
@@ -55,6 +55,16 @@ impl FreeSlotLocator {
         slot.insert(length)
     }
 
+    /// Reverts the last insert into the current slot.
+    ///
+    /// # Arguments
+    /// * `slots` – A mutable slice of `Slot` values.
+    pub fn release(&mut self, slots: &mut [Slot]) {
+        if let Some(slot) = slots.get_mut(self.next) {
+            slot.release();
+        }
+    }
+
     /// Returns the current slot index and its starting absolute offset.
     pub fn current(&self) -> (usize, u64) {
         (self.next, self.slot_offset)
diff --git a/brec/src/storage/slot/mod.rs b/brec/src/storage/slot/mod.rs
index 404266d..4118dc6 100644
--- a/brec/src/storage/slot/mod.rs
+++ b/brec/src/storage/slot/mod.rs
@@ -182,6 +182,16 @@ impl Slot {
         self.overwrite_crc();
         Ok(())
     }
+
+    /// Removes the last inserted chunk.
+    ///
+    /// Updates the CRC accordingly.
+    pub fn release(&mut self) {
+        if let Some(ln) = self.lenghts.iter_mut().rev().find(|ln| **ln > 0) {
+            *ln = 0;
+            self.overwrite_crc();
+        }
+    }
 }
 
 impl Default for Slot {
diff --git a/brec/src/storage/writer/mod.rs b/brec/src/storage/writer/mod.rs
index d8d581a..390e0ec 100644
--- a/brec/src/storage/writer/mod.rs
+++ b/brec/src/storage/writer/mod.rs
@@ -96,6 +96,16 @@ impl<
         packet.write_all(&mut buffer)?;
         // Insert length of packet
         self.locator.insert(&mut self.slots, buffer.len() as u64)?;
+        if let Err(err) = self.store(offset, &buffer) {
+            // Packet isn't stored, its place should stay free
+            self.locator.release(&mut self.slots);
+            return Err(err);
+        }
+        Ok(())
+    }
+
+    /// Writes updated slot and content of the packet.
+    fn store(&mut self, offset: u64, buffer: &[u8]) -> Result<(), Error> {
         // Get updated slot data
         let (slot_index, slot_offset) = self.locator.current();
         self.inner.flush()?;
@@ -109,7 +119,7 @@ impl<
         self.inner.seek(std::io::SeekFrom::Start(offset))?;
         self.inner.flush()?;
         self.inner.seek(std::io::SeekFrom::Start(offset))?;
-        self.inner.write_all(&buffer)?;
+        self.inner.write_all(buffer)?;
         self.inner.flush()?;
         Ok(())
     }
-- 
2.43.0


From 1e6132d2f8cdeef1d07835fb187fe22170de9ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:51 +0000
Subject: [PATCH 34/53] fix: buffered reader keeps preloaded bytes on refill

---
 brec/src/traits/read/reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/brec/src/traits/read/reader.rs b/brec/src/traits/read/reader.rs
index b084427..058a46c 100644
--- a/brec/src/traits/read/reader.rs
+++ b/brec/src/traits/read/reader.rs
@@ -143,8 +143,11 @@ impl<'a, R: std::io::BufRead> BufferedReader<'a, R> {
     /// buffered_reader.refill()?;
     /// ```
     pub fn refill(&mut self) -> std::io::Result<()> {
-        self.buffer = self.inner.fill_buf()?.to_vec();
-        self.inner.consume(self.buffer.len());
+        let inner = self.inner.fill_buf()?;
+        let len = inner.len();
+        // Bytes, preloaded before, aren't consumed yet and should stay in front
+        self.buffer.extend_from_slice(inner);
+        self.inner.consume(len);
         Ok(())
     }
 
-- 
2.43.0


From 658f3058716196fb885f6263366a9d7db7f5df7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:51 +0000
Subject: [PATCH 35/53] fix: buffered reader counts all bytes consumed over
 preloaded data

---
 brec/src/traits/read/reader.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/brec/src/traits/read/reader.rs b/brec/src/traits/read/reader.rs
index 058a46c..6817646 100644
--- a/brec/src/traits/read/reader.rs
+++ b/brec/src/traits/read/reader.rs
@@ -58,7 +58,6 @@ pub struct BufferedReader<'a, R: std::io::BufRead> {
     inner: &'a mut R,
     buffer: Vec<u8>,
     filled: Vec<u8>,
-    inner_len: usize,
     consumed: usize,
 }
 
@@ -105,7 +104,6 @@ impl<'a, R: std::io::BufRead> BufferedReader<'a, R> {
             inner,
             buffer: Vec::new(),
             filled: Vec::new(),
-            inner_len: 0,
             consumed: 0,
         }
     }
@@ -198,7 +196,6 @@ impl<R: std::io::BufRead> std::io::BufRead for BufferedReader<'_, R> {
             return self.inner.fill_buf();
         }
         let inner = self.inner.fill_buf()?;
-        self.inner_len = inner.len();
         self.filled.clear();
         self.filled.reserve(inner.len() + self.buffer.len());
         self.filled.extend_from_slice(&self.buffer);
@@ -227,18 +224,9 @@ impl<R: std::io::BufRead> std::io::BufRead for BufferedReader<'_, R> {
             return;
         }
 
+        self.consumed += amt;
         amt -= buf_len;
         self.buffer.clear();
-
-        if amt <= self.inner_len {
-            self.inner.consume(amt);
-            self.inner_len -= amt;
-            self.consumed += amt;
-        } else {
-            let leftover = amt - self.inner_len;
-            self.inner_len = 0;
-            self.inner.consume(leftover);
-            self.consumed += leftover;
-        }
+        self.inner.consume(amt);
     }
 }
-- 
2.43.0


From 9afbb17d59e1d9390588a3be7ab31decf4969173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:51 +0000
Subject: [PATCH 36/53] fix: buffered reader does not lose preloaded bytes when
 the source fails

---
 brec/src/traits/read/reader.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/brec/src/traits/read/reader.rs b/brec/src/traits/read/reader.rs
index 6817646..8454780 100644
--- a/brec/src/traits/read/reader.rs
+++ b/brec/src/traits/read/reader.rs
@@ -175,8 +175,12 @@ impl<R: std::io::BufRead> std::io::Read for BufferedReader<'_, R> {
             total_read += to_copy;
         }
         if total_read < buf.len() {
-            let from_inner = self.inner.read(&mut buf[total_read..])?;
-            total_read += from_inner;
+            match self.inner.read(&mut buf[total_read..]) {
+                Ok(from_inner) => total_read += from_inner,
+                // Preloaded bytes are taken already, they should be given even if inner reader fails
+                Err(err) if total_read == 0 => return Err(err),
+                Err(_) => {}
+            }
         }
         self.consumed += total_read;
         Ok(total_read)
-- 
2.43.0


From cbf992be6903c0e97db150f6dd141da11bb69d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:41 +0000
Subject: [PATCH 37/53] fix: sensor does not wake about data acknowledged while
 the wake was prepared

---
 brec/src/storage/observer/sensor/mod.rs | 29 ++++++++++++++++---------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/brec/src/storage/observer/sensor/mod.rs b/brec/src/storage/observer/sensor/mod.rs
index 121a9bd..73078c6 100644
--- a/brec/src/storage/observer/sensor/mod.rs
+++ b/brec/src/storage/observer/sensor/mod.rs
@@ -93,18 +93,27 @@ impl Sensor {
         locked: &AtomicBool,
         processed_len: &AtomicU64,
     ) -> Result<(), SensorError> {
-        let size = fs::metadata(target)?.len();
+        let size = loop {
+            let size = fs::metadata(target)?.len();
 
-        if size <= processed_len.load(Ordering::Acquire) {
-            return Ok(());
-        }
+            if size <= processed_len.load(Ordering::Acquire) {
+                return Ok(());
+            }
 
-        if locked
-            .compare_exchange(false, true, Ordering::AcqRel, Ordering::Relaxed)
-            .is_err()
-        {
-            return Ok(());
-        }
+            if locked
+                .compare_exchange(false, true, Ordering::AcqRel, Ordering::Relaxed)
+                .is_err()
+            {
+                return Ok(());
+            }
+
+            if size > processed_len.load(Ordering::Acquire) {
+                break size;
+            }
+            // All this data has been acknowledged meanwhile. Other calls could be rejected because of
+            // our lock, so size should be checked again.
+            locked.store(false, Ordering::Release);
+        };
 
         match tx.try_send(Wake::new(size)) {
             Ok(_) | Err(crossbeam::channel::TrySendError::Full(_)) => {
-- 
2.43.0


From 1dec552354884a28635cb7e6ce963642844afc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:53 +0000
Subject: [PATCH 38/53] verification hook: sensor is public under
 cfg(brec_verif)

---
 brec/src/lib.rs                  | 1 +
 brec/src/storage/mod.rs          | 4 ++++
 brec/src/storage/observer/mod.rs | 4 ++++
 3 files changed, 9 insertions(+)

diff --git a/brec/src/lib.rs b/brec/src/lib.rs
index 26cd0d0..1610233 100644
--- a/brec/src/lib.rs
+++ b/brec/src/lib.rs
@@ -18,6 +18,7 @@ pub mod error;
 pub mod packet;
 pub mod payload;
 pub mod prelude;
+#[allow(unexpected_cfgs)]
 pub mod storage;
 pub mod traits;
 
diff --git a/brec/src/storage/mod.rs b/brec/src/storage/mod.rs
index 87769a3..e3de90d 100644
--- a/brec/src/storage/mod.rs
+++ b/brec/src/storage/mod.rs
@@ -4,6 +4,10 @@ mod reader;
 mod slot;
 mod writer;
 
+// Verification hook: gives access to the sensor
+#[cfg(brec_verif)]
+pub use observer::{Sensor, SensorError, Wake};
+
 pub use reader::*;
 pub use writer::*;
 
diff --git a/brec/src/storage/observer/mod.rs b/brec/src/storage/observer/mod.rs
index 1a52685..94bb8ee 100644
--- a/brec/src/storage/observer/mod.rs
+++ b/brec/src/storage/observer/mod.rs
@@ -1,7 +1,11 @@
 mod sensor;
 
 use crate::*;
+#[cfg(not(brec_verif))]
 use sensor::*;
+// Verification hook: gives access to the sensor
+#[cfg(brec_verif)]
+pub use sensor::*;
 
 pub struct ObserverDef<
     S: std::io::Read + std::io::Seek,
-- 
2.43.0


From f8eaa0d37d886ee294a7e63ee1ad0db530ab5cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:28 +0000
Subject: [PATCH 39/53] fix: packet with a payload that does not fill it is
 refused

---
 brec/src/packet/header/mod.rs | 10 ++++++++++
 brec/src/packet/mod.rs        |  7 ++++---
 brec/src/packet/read.rs       | 23 ++++++++++++++++-------
 brec/src/packet/reader.rs     |  9 ++++++---
 4 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/brec/src/packet/header/mod.rs b/brec/src/packet/header/mod.rs
index 2d25e4a..c9cb727 100644
--- a/brec/src/packet/header/mod.rs
+++ b/brec/src/packet/header/mod.rs
@@ -52,6 +52,16 @@ impl PacketHeader {
         + std::mem::size_of::<u32>()
     ) as u64;
 
+    /// Checks that the payload takes exactly the rest of the packet.
+    pub(crate) fn check_payload(&self, payload: &PayloadHeader) -> Result<(), Error> {
+        let available = self.size.saturating_sub(self.blocks_len) as usize;
+        let required = payload.size() + payload.payload_len();
+        if available != required {
+            return Err(Error::OutOfBounds(available, required));
+        }
+        Ok(())
+    }
+
     /// Constructs a new `PacketHeader` from a list of blocks and an optional payload.
     ///
     /// # Arguments
diff --git a/brec/src/packet/mod.rs b/brec/src/packet/mod.rs
index feb1e70..0598d93 100644
--- a/brec/src/packet/mod.rs
+++ b/brec/src/packet/mod.rs
@@ -159,15 +159,16 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketDef<B, P,
         let pkg = if header.payload {
             let mut payload_buffer = &packet_buffer[blocks_len..];
             match <PayloadHeader as TryReadFromBuffered>::try_read(&mut payload_buffer)? {
-                ReadStatus::Success(header) => {
-                    let mut payload_buffer = &packet_buffer[blocks_len + header.size()..];
+                ReadStatus::Success(payload_header) => {
+                    header.check_payload(&payload_header)?;
+                    let mut payload_buffer = &packet_buffer[blocks_len + payload_header.size()..];
                     if !rules.filter_by_payload(payload_buffer) {
                         // PacketDef marked as ignored
                         return Ok(LookInStatus::Denied(packet_size));
                     }
                     match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(
                         &mut payload_buffer,
-                        &header,
+                        &payload_header,
                     ) {
                         Ok(ReadStatus::Success(payload)) => PacketDef::new(
                             blocks.into_iter().map(|blk| blk.into()).collect::<Vec<B>>(),
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index d7f39e7..8ee5163 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -56,8 +56,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReadFrom
             }
         }
         if header.payload {
-            let header = <PayloadHeader as ReadFrom>::read(&mut reader)?;
-            let payload = <P as ExtractPayloadFrom<Inner>>::read(&mut reader, &header)?;
+            let payload_header = <PayloadHeader as ReadFrom>::read(&mut reader)?;
+            header.check_payload(&payload_header)?;
+            let payload = <P as ExtractPayloadFrom<Inner>>::read(&mut reader, &payload_header)?;
             pkg.payload = Some(payload);
         }
         Ok(pkg)
@@ -131,8 +132,12 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
         }
         if header.payload {
             match <PayloadHeader as TryReadFrom>::try_read(buf) {
-                Ok(ReadStatus::Success(header)) => {
-                    match <P as TryExtractPayloadFrom<Inner>>::try_read(buf, &header) {
+                Ok(ReadStatus::Success(payload_header)) => {
+                    if let Err(err) = header.check_payload(&payload_header) {
+                        buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                        return Err(err);
+                    }
+                    match <P as TryExtractPayloadFrom<Inner>>::try_read(buf, &payload_header) {
                         Ok(ReadStatus::Success(payload)) => {
                             pkg.payload = Some(payload);
                         }
@@ -221,9 +226,13 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
         }
         if header.payload {
             match <PayloadHeader as TryReadFromBuffered>::try_read(&mut body)? {
-                ReadStatus::Success(header) => {
-                    body.consume(header.size());
-                    match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(&mut body, &header)? {
+                ReadStatus::Success(payload_header) => {
+                    header.check_payload(&payload_header)?;
+                    body.consume(payload_header.size());
+                    match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(
+                        &mut body,
+                        &payload_header,
+                    )? {
                         ReadStatus::Success(payload) => {
                             pkg.payload = Some(payload);
                         }
diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 829d3e6..480e3f0 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -431,15 +431,18 @@ impl<
         let pkg = if header.payload {
             let mut payload_buffer = &packet_buffer[blocks_len..];
             match <PayloadHeader as TryReadFromBuffered>::try_read(&mut payload_buffer) {
-                Ok(ReadStatus::Success(header)) => {
-                    let mut payload_buffer = &packet_buffer[blocks_len + header.size()..];
+                Ok(ReadStatus::Success(payload_header)) => {
+                    if let Err(err) = header.check_payload(&payload_header) {
+                        return self.drop_and_consume(consume, Err(err));
+                    }
+                    let mut payload_buffer = &packet_buffer[blocks_len + payload_header.size()..];
                     if !self.rules.filter_by_payload(payload_buffer) {
                         // PacketDef marked as ignored
                         return self.drop_and_consume(consume, Ok(NextPacket::Skipped));
                     }
                     match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(
                         &mut payload_buffer,
-                        &header,
+                        &payload_header,
                     ) {
                         Ok(ReadStatus::Success(payload)) => PacketDef::new(
                             blocks.into_iter().map(|blk| blk.into()).collect::<Vec<B>>(),
-- 
2.43.0


From 3a56cdf7503aa45864f582a382bdfc4c8e6f1f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:19 +0000
Subject: [PATCH 40/53] fix: seekable reads behind the end of the source report
 missing data instead of overflowing

---
 brec/src/packet/header/read.rs        | 4 +++-
 brec/src/packet/read.rs               | 4 +++-
 brec/src/payload/header/sreader.rs    | 2 +-
 brec/src/traits/read/mod.rs           | 4 +++-
 brec_macros/src/codegen/read/block.rs | 4 +++-
 5 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/brec/src/packet/header/read.rs b/brec/src/packet/header/read.rs
index 4af26c7..2b473e2 100644
--- a/brec/src/packet/header/read.rs
+++ b/brec/src/packet/header/read.rs
@@ -113,7 +113,9 @@ impl TryReadFrom for PacketHeader {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
 
         if len < PacketHeader::ssize() {
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 8ee5163..ac8fa13 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -90,7 +90,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let available = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let available = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         let header = match <PacketHeader as TryReadFrom>::try_read(buf)? {
             ReadStatus::NotEnoughData(needed) => return Ok(ReadStatus::NotEnoughData(needed)),
diff --git a/brec/src/payload/header/sreader.rs b/brec/src/payload/header/sreader.rs
index 0a93c1d..4767867 100644
--- a/brec/src/payload/header/sreader.rs
+++ b/brec/src/payload/header/sreader.rs
@@ -53,7 +53,7 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
     /// An initialized reader wrapper ready for safe, incremental reads.
     pub fn new(buf: &'a mut T) -> Result<Self, Error> {
         let spos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - spos;
+        let len = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(spos);
         buf.seek(std::io::SeekFrom::Start(spos))?;
         Ok(Self {
             spos,
diff --git a/brec/src/traits/read/mod.rs b/brec/src/traits/read/mod.rs
index 29400eb..52f0dd2 100644
--- a/brec/src/traits/read/mod.rs
+++ b/brec/src/traits/read/mod.rs
@@ -119,7 +119,9 @@ pub trait TryReadPayloadFrom<
         header: &PayloadHeader,
     ) -> Result<ReadStatus<T>, Error> {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         if len < header.payload_len() as u64 {
             return Ok(ReadStatus::NotEnoughData(header.payload_len() as u64 - len));
diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index fefd672..9de43ca 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -150,7 +150,9 @@ impl TryRead for Block {
                     use brec::prelude::*;
                     let mut sig_buf = [0u8; #sig_len];
                     let start_pos = buf.stream_position()?;
-                    let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+                    let len = buf
+                        .seek(std::io::SeekFrom::End(0))?
+                        .saturating_sub(start_pos);
 
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     if len < #sig_len {
-- 
2.43.0


From 2b1d34f06ddc4bf2e28d93d2a08e61e377a5c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:04 +0000
Subject: [PATCH 41/53] fix: bytes left by a failed append do not make the
 storage unreadable

---
 brec/src/storage/reader/mod.rs | 10 ++++++++++
 brec/src/storage/writer/mod.rs | 15 +++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index 23bf190..df49390 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -57,7 +57,12 @@ impl<
                 Ok(ReadStatus::Success(slot)) => {
                     let position = offset;
                     offset = slot.next_offset(offset)?;
+                    let full = slot.is_full();
                     self.slots.push(AnchoredSlot::new(slot, position));
+                    if !full {
+                        // Next slot is created only after a full one; bytes behind are left by a failed append
+                        break;
+                    }
                 }
                 Ok(ReadStatus::NotEnoughData(_needed)) => {
                     SlotHeader::check_tail(&mut self.inner, offset)?;
@@ -126,7 +131,12 @@ impl<
                     } else {
                         let position = source_pos;
                         source_pos = slot.next_offset(source_pos)?;
+                        let full = slot.is_full();
                         self.slots.push(AnchoredSlot::new(slot, position));
+                        if !full {
+                            // Next slot is created only after a full one
+                            break;
+                        }
                     }
                 }
                 Ok(ReadStatus::NotEnoughData(needed)) => {
diff --git a/brec/src/storage/writer/mod.rs b/brec/src/storage/writer/mod.rs
index 390e0ec..7d47c06 100644
--- a/brec/src/storage/writer/mod.rs
+++ b/brec/src/storage/writer/mod.rs
@@ -54,7 +54,12 @@ impl<
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
                     offset = slot.next_offset(offset)?;
+                    let full = slot.is_full();
                     self.slots.push(slot);
+                    if !full {
+                        // Next slot is created only after a full one; bytes behind are left by a failed append
+                        break;
+                    }
                 }
                 Ok(ReadStatus::NotEnoughData(_needed)) => {
                     SlotHeader::check_tail(&mut self.inner, offset)?;
@@ -120,6 +125,16 @@ impl<
         self.inner.flush()?;
         self.inner.seek(std::io::SeekFrom::Start(offset))?;
         self.inner.write_all(buffer)?;
+        let end = offset + buffer.len() as u64;
+        if slot.is_full() && self.inner.seek(std::io::SeekFrom::End(0))? > end {
+            // Bytes left by a failed append should not be taken for the next slot
+            let next = Slot::default();
+            self.inner.seek(std::io::SeekFrom::Start(end))?;
+            next.write_all(&mut self.inner)?;
+            self.inner.flush()?;
+            self.slots.push(next);
+            return Ok(());
+        }
         self.inner.flush()?;
         Ok(())
     }
-- 
2.43.0


From 067088df5826612679e6c65c12b24221a1fa9c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:42 +0000
Subject: [PATCH 42/53] fix: reload refuses a slot whose packets leave the
 range of offsets

---
 brec/src/storage/reader/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index df49390..bfdcfd2 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -115,12 +115,14 @@ impl<
                         if crc == slot.crc {
                             return Ok(0);
                         }
+                        // Lengths aren't trusted, even if the slot has free space
+                        let next = slot.next_offset(source_pos)?;
                         if let Some(lst) = self.slots.get_mut(count.saturating_sub(1)) {
                             lst.inner = slot;
                             updated = true;
                             if lst.inner.get_free_slot_index().is_none() {
                                 // Slot is full, move source position to the end of this slot
-                                source_pos = lst.inner.next_offset(source_pos)?;
+                                source_pos = next;
                             } else {
                                 // Slot has free space, so we can stop here
                                 break;
-- 
2.43.0


From be9af7a13500afd1be832b42f7e2232fbc57eb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:24 +0000
Subject: [PATCH 43/53] fix: constants generated for blocks do not clash with
 names of a user

---
 brec_macros/src/codegen/base/block.rs | 1 +
 brec_macros/src/entities/block/mod.rs | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/brec_macros/src/codegen/base/block.rs b/brec_macros/src/codegen/base/block.rs
index be6bb3b..37851b5 100644
--- a/brec_macros/src/codegen/base/block.rs
+++ b/brec_macros/src/codegen/base/block.rs
@@ -60,6 +60,7 @@ impl Base for Block {
                 }
             }
 
+            #[allow(non_upper_case_globals)]
             const #const_sig: [u8; #sig_len] = #sig;
 
             impl brec::SignatureU32 for #referred_name <'_> {
diff --git a/brec_macros/src/entities/block/mod.rs b/brec_macros/src/entities/block/mod.rs
index e13b341..2182908 100644
--- a/brec_macros/src/entities/block/mod.rs
+++ b/brec_macros/src/entities/block/mod.rs
@@ -65,7 +65,8 @@ impl Block {
             .sum::<usize>()
     }
     pub fn const_sig_name(&self) -> Ident {
-        format_ident!("{}", self.name.to_ascii_uppercase())
+        // Should overlap neither with constants of a user nor with names of other blocks
+        format_ident!("__{}_SIG", self.name)
     }
     pub fn name(&self) -> Ident {
         format_ident!("{}", self.name)
-- 
2.43.0


From e0cb46607cd312c913b17e965ea0d500f4ab290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:24 +0000
Subject: [PATCH 44/53] fix: path to a module given directly may consist of one
 segment

---
 brec_macros/src/parsing/block/attr/mod.rs   | 2 ++
 brec_macros/src/parsing/payload/attr/mod.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/brec_macros/src/parsing/block/attr/mod.rs b/brec_macros/src/parsing/block/attr/mod.rs
index edded2d..7666829 100644
--- a/brec_macros/src/parsing/block/attr/mod.rs
+++ b/brec_macros/src/parsing/block/attr/mod.rs
@@ -35,6 +35,8 @@ impl Parse for BlockAttrs {
                         let as_str = ident.to_string();
                         if as_str == BlockAttrId::NoCrc.to_string() {
                             attrs.push(BlockAttr::NoCrc)
+                        } else {
+                            attrs.push(BlockAttr::Path(ModulePath::from(&expr)));
                         }
                     } else {
                         attrs.push(BlockAttr::Path(ModulePath::from(&expr)));
diff --git a/brec_macros/src/parsing/payload/attr/mod.rs b/brec_macros/src/parsing/payload/attr/mod.rs
index d497469..6022a10 100644
--- a/brec_macros/src/parsing/payload/attr/mod.rs
+++ b/brec_macros/src/parsing/payload/attr/mod.rs
@@ -43,6 +43,8 @@ impl Parse for PayloadAttrs {
                             attrs.push(PayloadAttr::NoAutoCrc)
                         } else if as_str == PayloadAttrId::NoCrc.to_string() {
                             attrs.push(PayloadAttr::NoCrc)
+                        } else {
+                            attrs.push(PayloadAttr::Path(ModulePath::from(&expr)));
                         }
                     } else {
                         attrs.push(PayloadAttr::Path(ModulePath::from(&expr)));
-- 
2.43.0


From 874192862b1e9164ca5fabd389ee18e9d8ed1204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:08 +0000
Subject: [PATCH 45/53] fix: names of blocks and their fields do not clash with
 names exported by the prelude

---
 brec_macros/src/codegen/read/block.rs  | 8 ++++----
 brec_macros/src/codegen/write/block.rs | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 9de43ca..d9ae168 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -22,7 +22,7 @@ impl Read for Block {
                 fn read<T: std::io::Read>(#src: &mut T, skip_sig: bool) -> Result<Self, brec::Error>
                 where
                     Self: Sized {
-                        use brec::prelude::*;
+                        use brec::CrcU32 as _;
                         if !skip_sig {
                             let mut sig = [0u8; #sig_len];
                             #src.read_exact(&mut sig)?;
@@ -96,7 +96,7 @@ impl ReadFromSlice for Block {
                 where
                     Self: 'b + Sized,
                 {
-                    use brec::prelude::*;
+                    use brec::{CrcU32 as _, StaticSize as _};
                     if !skip_sig {
                         if #src.len() < #sig_len {
                             return Err(brec::Error::NotEnoughtSignatureData(#src.len(), #sig_len));
@@ -147,7 +147,7 @@ impl TryRead for Block {
                 where
                     Self: Sized,
                 {
-                    use brec::prelude::*;
+                    use brec::StaticSize as _;
                     let mut sig_buf = [0u8; #sig_len];
                     let start_pos = buf.stream_position()?;
                     let len = buf
@@ -194,7 +194,7 @@ impl TryReadBuffered for Block {
                     Self: Sized,
                 {
                     use std::io::BufRead;
-                    use brec::prelude::*;
+                    use brec::StaticSize as _;
 
                     let bytes = reader.fill_buf()?;
 
diff --git a/brec_macros/src/codegen/write/block.rs b/brec_macros/src/codegen/write/block.rs
index a5e7514..5a6091a 100644
--- a/brec_macros/src/codegen/write/block.rs
+++ b/brec_macros/src/codegen/write/block.rs
@@ -49,7 +49,7 @@ impl Write for Block {
             impl brec::WriteTo for #block_name {
 
                 fn write<T: std::io::Write>(&self, writer: &mut T) -> std::io::Result<usize> {
-                    use brec::prelude::*;
+                    use brec::CrcU32 as _;
                     let mut buffer = [0u8; #size];
                     let mut offset = 0;
                     let crc = self.crc();
@@ -65,7 +65,7 @@ impl Write for Block {
                 }
 
                 fn write_all<T: std::io::Write>(&self, writer: &mut T) -> std::io::Result<()> {
-                    use brec::prelude::*;
+                    use brec::CrcU32 as _;
                     let mut buffer = [0u8; #size];
                     let mut offset = 0;
                     let crc = self.crc();
@@ -186,7 +186,7 @@ impl WriteVectored for Block {
             impl brec::WriteVectoredTo for #block_name {
 
                 fn slices(&self) -> std::io::Result<brec::IoSlices<'_>> {
-                    use brec::prelude::*;
+                    use brec::CrcU32 as _;
                     let mut slices = brec::IoSlices::default();
                     slices.add_buffered(#const_sig.to_vec());
                     #(#fragments)*
-- 
2.43.0


From e630cbd68a74bfbaa516fd3b34150650d7dd27db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:35 +0000
Subject: [PATCH 46/53] fix: alias of Result in a module of a user does not
 break generated code

---
 brec_macros/src/codegen/read/block.rs      |  8 ++++----
 brec_macros/src/collector/blocks/read.rs   | 10 +++++-----
 brec_macros/src/collector/payloads/read.rs |  6 +++---
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index d9ae168..082ed99 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -19,7 +19,7 @@ impl Read for Block {
         Ok(quote! {
 
             impl brec::ReadBlockFrom for #block_name {
-                fn read<T: std::io::Read>(#src: &mut T, skip_sig: bool) -> Result<Self, brec::Error>
+                fn read<T: std::io::Read>(#src: &mut T, skip_sig: bool) -> std::result::Result<Self, brec::Error>
                 where
                     Self: Sized {
                         use brec::CrcU32 as _;
@@ -92,7 +92,7 @@ impl ReadFromSlice for Block {
 
             impl<'a> brec::ReadBlockFromSlice for #referred_name <'a> {
 
-                fn read_from_slice<'b>(#src: &'b [u8], skip_sig: bool) -> Result<Self, brec::Error>
+                fn read_from_slice<'b>(#src: &'b [u8], skip_sig: bool) -> std::result::Result<Self, brec::Error>
                 where
                     Self: 'b + Sized,
                 {
@@ -143,7 +143,7 @@ impl TryRead for Block {
 
             impl brec::TryReadFrom for #block_name {
 
-                fn try_read<T: std::io::Read + std::io::Seek>(buf: &mut T) -> Result<brec::ReadStatus<Self>, brec::Error>
+                fn try_read<T: std::io::Read + std::io::Seek>(buf: &mut T) -> std::result::Result<brec::ReadStatus<Self>, brec::Error>
                 where
                     Self: Sized,
                 {
@@ -189,7 +189,7 @@ impl TryReadBuffered for Block {
 
             impl brec::TryReadFromBuffered for #block_name {
 
-                fn try_read<T: std::io::BufRead>(reader: &mut T) -> Result<brec::ReadStatus<Self>, brec::Error>
+                fn try_read<T: std::io::BufRead>(reader: &mut T) -> std::result::Result<brec::ReadStatus<Self>, brec::Error>
                 where
                     Self: Sized,
                 {
diff --git a/brec_macros/src/collector/blocks/read.rs b/brec_macros/src/collector/blocks/read.rs
index 5b5dd25..aedd8d9 100644
--- a/brec_macros/src/collector/blocks/read.rs
+++ b/brec_macros/src/collector/blocks/read.rs
@@ -21,7 +21,7 @@ pub fn read_from(blocks: &[&Block]) -> Result<TokenStream, E> {
     }
     Ok(quote! {
         impl brec::ReadFrom for Block {
-            fn read<T: std::io::Read>(buf: &mut T) -> Result<Self, brec::Error>
+            fn read<T: std::io::Read>(buf: &mut T) -> std::result::Result<Self, brec::Error>
             where
                 Self: Sized,
             {
@@ -53,7 +53,7 @@ pub fn read_block_from(blocks: &[&Block]) -> Result<TokenStream, E> {
     }
     Ok(quote! {
         impl brec::ReadBlockFrom for Block {
-            fn read<T: std::io::Read>(buf: &mut T, skip_sig: bool) -> Result<Self, brec::Error>
+            fn read<T: std::io::Read>(buf: &mut T, skip_sig: bool) -> std::result::Result<Self, brec::Error>
             where
                 Self: Sized,
             {
@@ -92,7 +92,7 @@ pub fn try_read_from(blocks: &[&Block]) -> Result<TokenStream, E> {
         impl brec::TryReadFrom for Block {
             fn try_read<T: std::io::Read + std::io::Seek>(
                 buf: &mut T,
-            ) -> Result<brec::ReadStatus<Self>, brec::Error>
+            ) -> std::result::Result<brec::ReadStatus<Self>, brec::Error>
             where
                 Self: Sized,
             {
@@ -126,7 +126,7 @@ pub fn try_read_from_buffered(blocks: &[&Block]) -> Result<TokenStream, E> {
     }
     Ok(quote! {
         impl brec::TryReadFromBuffered for Block {
-            fn try_read<T: std::io::BufRead>(buf: &mut T) -> Result<brec::ReadStatus<Self>, brec::Error>
+            fn try_read<T: std::io::BufRead>(buf: &mut T) -> std::result::Result<brec::ReadStatus<Self>, brec::Error>
             where
                 Self: Sized,
             {
@@ -155,7 +155,7 @@ pub fn read_from_slice(blocks: &[&Block]) -> Result<TokenStream, E> {
     }
     Ok(quote! {
         impl<'a> brec::ReadBlockFromSlice for BlockReferred<'a> {
-            fn read_from_slice<'b>(buf: &'b [u8], skip_sig: bool) -> Result<Self, brec::Error>
+            fn read_from_slice<'b>(buf: &'b [u8], skip_sig: bool) -> std::result::Result<Self, brec::Error>
             where
                 Self: 'b + Sized,
             {
diff --git a/brec_macros/src/collector/payloads/read.rs b/brec_macros/src/collector/payloads/read.rs
index 8d6f5af..478ba13 100644
--- a/brec_macros/src/collector/payloads/read.rs
+++ b/brec_macros/src/collector/payloads/read.rs
@@ -46,7 +46,7 @@ pub fn extract_from(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream,
             fn read<B: std::io::Read>(
                 buf: &mut B,
                 header: &brec::PayloadHeader,
-            ) -> Result<Payload, brec::Error>
+            ) -> std::result::Result<Payload, brec::Error>
             where
                 Self: Sized,
             {
@@ -115,7 +115,7 @@ pub fn try_extract_from(payloads: &[&Payload], cfg: &Config) -> Result<TokenStre
             fn try_read<B: std::io::Read + std::io::Seek>(
                 buf: &mut B,
                 header: &brec::PayloadHeader,
-            ) -> Result<brec::ReadStatus<Payload>, brec::Error> {
+            ) -> std::result::Result<brec::ReadStatus<Payload>, brec::Error> {
                 #(#variants)*
                 #defaults
                 Err(brec::Error::SignatureDismatch)
@@ -181,7 +181,7 @@ pub fn try_extract_from_buffered(payloads: &[&Payload], cfg: &Config) -> Result<
             fn try_read<B: std::io::BufRead>(
                 buf: &mut B,
                 header: &brec::PayloadHeader,
-            ) -> Result<brec::ReadStatus<Payload>, brec::Error> {
+            ) -> std::result::Result<brec::ReadStatus<Payload>, brec::Error> {
                 #(#variants)*
                 #defaults
                 Err(brec::Error::SignatureDismatch)
-- 
2.43.0


From 8398777f960e9d77840226fe193612480ac1a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:03 +0000
Subject: [PATCH 47/53] fix: methods of blocks and payloads are not mistaken
 for methods of the library

---
 brec_macros/src/codegen/read/block.rs       | 18 ++++++----------
 brec_macros/src/codegen/write/block.rs      |  9 +++-----
 brec_macros/src/collector/blocks/props.rs   |  6 ++----
 brec_macros/src/collector/blocks/write.rs   |  6 +++---
 brec_macros/src/collector/payloads/props.rs | 24 ++++++++++-----------
 brec_macros/src/collector/payloads/write.rs |  6 +++---
 6 files changed, 30 insertions(+), 39 deletions(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 082ed99..35d0e3d 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -22,7 +22,6 @@ impl Read for Block {
                 fn read<T: std::io::Read>(#src: &mut T, skip_sig: bool) -> std::result::Result<Self, brec::Error>
                 where
                     Self: Sized {
-                        use brec::CrcU32 as _;
                         if !skip_sig {
                             let mut sig = [0u8; #sig_len];
                             #src.read_exact(&mut sig)?;
@@ -39,7 +38,7 @@ impl Read for Block {
                         let block = #block_name {
                             #(#fnames,)*
                         };
-                        if block.crc() != #crc {
+                        if brec::CrcU32::crc(&block) != #crc {
                             return Err(brec::Error::CrcDismatch)
                         }
 
@@ -96,7 +95,6 @@ impl ReadFromSlice for Block {
                 where
                     Self: 'b + Sized,
                 {
-                    use brec::{CrcU32 as _, StaticSize as _};
                     if !skip_sig {
                         if #src.len() < #sig_len {
                             return Err(brec::Error::NotEnoughtSignatureData(#src.len(), #sig_len));
@@ -107,9 +105,9 @@ impl ReadFromSlice for Block {
                         }
                     }
                     let required = if skip_sig {
-                        #block_name::ssize() - #sig_len
+                        <#block_name as brec::StaticSize>::ssize() - #sig_len
                     } else {
-                        #block_name::ssize()
+                        <#block_name as brec::StaticSize>::ssize()
                     } as usize;
                     if #src.len() < required {
                         return Err(brec::Error::NotEnoughData(required));
@@ -121,7 +119,7 @@ impl ReadFromSlice for Block {
                         #(#fnames,)*
                     };
 
-                    if block.crc() != *#crc {
+                    if brec::CrcU32::crc(&block) != *#crc {
                         return Err(brec::Error::CrcDismatch)
                     }
                     let block: #referred_name <'a> = unsafe { std::mem::transmute(block) };
@@ -147,7 +145,6 @@ impl TryRead for Block {
                 where
                     Self: Sized,
                 {
-                    use brec::StaticSize as _;
                     let mut sig_buf = [0u8; #sig_len];
                     let start_pos = buf.stream_position()?;
                     let len = buf
@@ -163,9 +160,9 @@ impl TryRead for Block {
                         buf.seek(std::io::SeekFrom::Start(start_pos))?;
                         return Err(brec::Error::SignatureDismatch);
                     }
-                    if len < #block_name::ssize() {
+                    if len < <#block_name as brec::StaticSize>::ssize() {
                         buf.seek(std::io::SeekFrom::Start(start_pos))?;
-                        return Ok(brec::ReadStatus::NotEnoughData(#block_name::ssize() - len));
+                        return Ok(brec::ReadStatus::NotEnoughData(<#block_name as brec::StaticSize>::ssize() - len));
                     }
                     match <#block_name as brec::ReadBlockFrom>::read(buf, true) {
                         Ok(blk) => Ok(brec::ReadStatus::Success(blk)),
@@ -194,7 +191,6 @@ impl TryReadBuffered for Block {
                     Self: Sized,
                 {
                     use std::io::BufRead;
-                    use brec::StaticSize as _;
 
                     let bytes = reader.fill_buf()?;
 
@@ -208,7 +204,7 @@ impl TryReadBuffered for Block {
                         return Err(brec::Error::SignatureDismatch);
                     }
 
-                    let required = #block_name::ssize() as usize;
+                    let required = <#block_name as brec::StaticSize>::ssize() as usize;
                     if bytes.len() < required {
                         return Ok(brec::ReadStatus::NotEnoughData(
                             (required - bytes.len()) as u64,
diff --git a/brec_macros/src/codegen/write/block.rs b/brec_macros/src/codegen/write/block.rs
index 5a6091a..290563f 100644
--- a/brec_macros/src/codegen/write/block.rs
+++ b/brec_macros/src/codegen/write/block.rs
@@ -49,10 +49,9 @@ impl Write for Block {
             impl brec::WriteTo for #block_name {
 
                 fn write<T: std::io::Write>(&self, writer: &mut T) -> std::io::Result<usize> {
-                    use brec::CrcU32 as _;
                     let mut buffer = [0u8; #size];
                     let mut offset = 0;
-                    let crc = self.crc();
+                    let crc = brec::CrcU32::crc(self);
                     buffer[offset..offset + #BLOCK_SIG_LEN].copy_from_slice(&#const_sig);
                     offset += #BLOCK_SIG_LEN;
                     #(#buf_fillers)*
@@ -65,10 +64,9 @@ impl Write for Block {
                 }
 
                 fn write_all<T: std::io::Write>(&self, writer: &mut T) -> std::io::Result<()> {
-                    use brec::CrcU32 as _;
                     let mut buffer = [0u8; #size];
                     let mut offset = 0;
-                    let crc = self.crc();
+                    let crc = brec::CrcU32::crc(self);
                     buffer[offset..offset + #BLOCK_SIG_LEN].copy_from_slice(&#const_sig);
                     offset += #BLOCK_SIG_LEN;
                     #(#buf_fillers)*
@@ -186,11 +184,10 @@ impl WriteVectored for Block {
             impl brec::WriteVectoredTo for #block_name {
 
                 fn slices(&self) -> std::io::Result<brec::IoSlices<'_>> {
-                    use brec::CrcU32 as _;
                     let mut slices = brec::IoSlices::default();
                     slices.add_buffered(#const_sig.to_vec());
                     #(#fragments)*
-                    slices.add_buffered(self.crc().to_vec());
+                    slices.add_buffered(brec::CrcU32::crc(self).to_vec());
                     Ok(slices)
                 }
 
diff --git a/brec_macros/src/collector/blocks/props.rs b/brec_macros/src/collector/blocks/props.rs
index d44e5e9..98fcaf5 100644
--- a/brec_macros/src/collector/blocks/props.rs
+++ b/brec_macros/src/collector/blocks/props.rs
@@ -8,12 +8,11 @@ pub fn gen(blocks: &[&Block]) -> Result<TokenStream, E> {
     for blk in blocks.iter() {
         let fullname = blk.fullname()?;
         let fullpath = blk.fullpath()?;
-        variants.push(quote! {Block::#fullname(..) => #fullpath::ssize()});
+        variants.push(quote! {Block::#fullname(..) => <#fullpath as brec::StaticSize>::ssize()});
     }
     Ok(quote! {
         impl brec::Size for Block {
             fn size(&self) -> u64 {
-                use brec::StaticSize;
                 match self {
                     #(#variants,)*
                 }
@@ -27,12 +26,11 @@ pub fn gen_referred(blocks: &[&Block]) -> Result<TokenStream, E> {
     for blk in blocks.iter() {
         let fullpath = blk.fullpath()?;
         let fullname = blk.fullname()?;
-        variants.push(quote! {BlockReferred::#fullname(..) => #fullpath::ssize()});
+        variants.push(quote! {BlockReferred::#fullname(..) => <#fullpath as brec::StaticSize>::ssize()});
     }
     Ok(quote! {
         impl brec::Size for BlockReferred<'_> {
             fn size(&self) -> u64 {
-                use brec::StaticSize;
                 match self {
                     #(#variants,)*
                 }
diff --git a/brec_macros/src/collector/blocks/write.rs b/brec_macros/src/collector/blocks/write.rs
index a7d1720..2fafd58 100644
--- a/brec_macros/src/collector/blocks/write.rs
+++ b/brec_macros/src/collector/blocks/write.rs
@@ -9,10 +9,10 @@ pub fn write_to(blocks: &[&Block]) -> Result<TokenStream, E> {
     for blk in blocks.iter() {
         let fullname = blk.fullname()?;
         write.push(quote! {
-            Block::#fullname(blk) => blk.write(buf)
+            Block::#fullname(blk) => brec::WriteTo::write(blk, buf)
         });
         write_all.push(quote! {
-            Block::#fullname(blk) => blk.write_all(buf)
+            Block::#fullname(blk) => brec::WriteTo::write_all(blk, buf)
         });
     }
     Ok(quote! {
@@ -36,7 +36,7 @@ pub fn write_vectored_to(blocks: &[&Block]) -> Result<TokenStream, E> {
     for blk in blocks.iter() {
         let fullname = blk.fullname()?;
         slices.push(quote! {
-            Block::#fullname(blk) => blk.slices()
+            Block::#fullname(blk) => brec::WriteVectoredTo::slices(blk)
         });
     }
     Ok(quote! {
diff --git a/brec_macros/src/collector/payloads/props.rs b/brec_macros/src/collector/payloads/props.rs
index 2065375..2588281 100644
--- a/brec_macros/src/collector/payloads/props.rs
+++ b/brec_macros/src/collector/payloads/props.rs
@@ -58,13 +58,13 @@ pub fn sig(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
-        variants.push(quote! {Payload::#fullname(pl) => pl.sig()});
+        variants.push(quote! {Payload::#fullname(pl) => brec::PayloadSignature::sig(pl)});
     }
     let defaults = defaults(
         cfg,
         quote! {
-            Payload::Bytes(pl) => pl.sig(),
-            Payload::String(pl) => pl.sig(),
+            Payload::Bytes(pl) => brec::PayloadSignature::sig(pl),
+            Payload::String(pl) => brec::PayloadSignature::sig(pl),
         },
     );
     Ok(quote! {
@@ -84,21 +84,21 @@ pub fn crc(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut lengths = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
-        variants.push(quote! {Payload::#fullname(pl) => pl.crc()});
-        lengths.push(quote! {Payload::#fullname(pl) => pl.crc_len()});
+        variants.push(quote! {Payload::#fullname(pl) => brec::PayloadCrc::crc(pl)});
+        lengths.push(quote! {Payload::#fullname(pl) => brec::PayloadCrc::crc_len(pl)});
     }
     let defaults_crc = defaults(
         cfg,
         quote! {
-            Payload::Bytes(pl) => pl.crc(),
-            Payload::String(pl) => pl.crc(),
+            Payload::Bytes(pl) => brec::PayloadCrc::crc(pl),
+            Payload::String(pl) => brec::PayloadCrc::crc(pl),
         },
     );
     let defaults_len = defaults(
         cfg,
         quote! {
-            Payload::Bytes(pl) => pl.crc_len(),
-            Payload::String(pl) => pl.crc_len(),
+            Payload::Bytes(pl) => brec::PayloadCrc::crc_len(pl),
+            Payload::String(pl) => brec::PayloadCrc::crc_len(pl),
         },
     );
     Ok(quote! {
@@ -123,13 +123,13 @@ pub fn size(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
-        variants.push(quote! {Payload::#fullname(pl) => pl.size()});
+        variants.push(quote! {Payload::#fullname(pl) => brec::PayloadSize::size(pl)});
     }
     let defaults = defaults(
         cfg,
         quote! {
-            Payload::Bytes(pl) => pl.size(),
-            Payload::String(pl) => pl.size(),
+            Payload::Bytes(pl) => brec::PayloadSize::size(pl),
+            Payload::String(pl) => brec::PayloadSize::size(pl),
         },
     );
     Ok(quote! {
diff --git a/brec_macros/src/collector/payloads/write.rs b/brec_macros/src/collector/payloads/write.rs
index fd3df9b..6b749eb 100644
--- a/brec_macros/src/collector/payloads/write.rs
+++ b/brec_macros/src/collector/payloads/write.rs
@@ -53,13 +53,13 @@ pub fn writing_vectored_to(payloads: &[&Payload], cfg: &Config) -> Result<TokenS
     let mut slices = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
-        slices.push(quote! {Payload::#fullname(pl) => pl.slices()});
+        slices.push(quote! {Payload::#fullname(pl) => brec::WriteVectoredPayloadWithHeaderTo::slices(pl)});
     }
     let defaults = defaults(
         cfg,
         quote! {
-            Payload::Bytes(pl) => pl.slices(),
-            Payload::String(pl) => pl.slices(),
+            Payload::Bytes(pl) => brec::WriteVectoredPayloadWithHeaderTo::slices(pl),
+            Payload::String(pl) => brec::WriteVectoredPayloadWithHeaderTo::slices(pl),
         },
     );
     Ok(quote! {
-- 
2.43.0


From 4bd3ca47e6809e11e0b813b8645a9ec709186ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:43 +0000
Subject: [PATCH 48/53] fix: names of fields do not clash with local variables
 of generated code, raw names of modules are accepted

---
 brec_macros/src/codegen/read/block.rs        | 12 ++++++------
 brec_macros/src/entities/block/attr/mod.rs   |  2 +-
 brec_macros/src/entities/payload/attr/mod.rs |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 35d0e3d..9a81646 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -1,5 +1,5 @@
 use crate::*;
-use proc_macro2::TokenStream;
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::{format_ident, quote};
 
 impl Read for Block {
@@ -10,8 +10,8 @@ impl Read for Block {
         let mut fnames = Vec::new();
         let sig_len = self.sig_len();
         // Names of fields are bound to local variables; our own variables should not overlap with it
-        let src: syn::Ident = format_ident!("__buf");
-        let crc: syn::Ident = format_ident!("{}", FIELD_CRC);
+        let src: Ident = Ident::new("__buf", Span::mixed_site());
+        let crc: Ident = format_ident!("{}", FIELD_CRC);
         for field in self.fields.iter().filter(|f| !f.injected) {
             fields.push(field.read_exact(&src)?);
             fnames.push(format_ident!("{}", field.name));
@@ -59,10 +59,10 @@ impl ReadFromSlice for Block {
         let mut fields = Vec::new();
         let mut fnames = Vec::new();
         let mut offset = 0usize;
-        let src: syn::Ident = format_ident!("buf");
-        let crc: syn::Ident = format_ident!("{}", FIELD_CRC);
+        let src: Ident = format_ident!("buf");
+        let crc: Ident = format_ident!("{}", FIELD_CRC);
         // Content of the block without signature
-        let body: syn::Ident = format_ident!("__body");
+        let body: Ident = Ident::new("__body", Span::mixed_site());
         for field in self.fields.iter() {
             if &field.name == "__sig" {
                 let name = format_ident!("{}", FIELD_SIG);
diff --git a/brec_macros/src/entities/block/attr/mod.rs b/brec_macros/src/entities/block/attr/mod.rs
index d4c2419..524e3c6 100644
--- a/brec_macros/src/entities/block/attr/mod.rs
+++ b/brec_macros/src/entities/block/attr/mod.rs
@@ -25,7 +25,7 @@ impl BlockAttrs {
                 .to_string()
                 .split("::")
                 .map(|s| {
-                    let mut chars = s.trim().chars();
+                    let mut chars = s.trim().trim_start_matches("r#").chars();
                     match chars.next() {
                         Some(first) => first.to_uppercase().chain(chars).collect(),
                         None => String::new(),
diff --git a/brec_macros/src/entities/payload/attr/mod.rs b/brec_macros/src/entities/payload/attr/mod.rs
index 8c6d994..86e8f2d 100644
--- a/brec_macros/src/entities/payload/attr/mod.rs
+++ b/brec_macros/src/entities/payload/attr/mod.rs
@@ -25,7 +25,7 @@ impl PayloadAttrs {
                 .to_string()
                 .split("::")
                 .map(|s| {
-                    let mut chars = s.trim().chars();
+                    let mut chars = s.trim().trim_start_matches("r#").chars();
                     match chars.next() {
                         Some(first) => first.to_uppercase().chain(chars).collect(),
                         None => String::new(),
-- 
2.43.0


From b9e5d31e7d4d51a02722fe696788c44173138939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:04 +0000
Subject: [PATCH 49/53] fix: failed reload leaves the reader as it was

---
 brec/src/storage/reader/mod.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index bfdcfd2..71c6ff7 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -105,6 +105,9 @@ impl<
         let known: usize = self.slots.iter().map(|slot| slot.inner.count()).sum();
         // Tells if the last known slot has been read again
         let mut updated = last.is_none();
+        // Known slots are changed only if everything has been read
+        let mut refreshed: Option<Slot> = None;
+        let mut added: Vec<AnchoredSlot> = Vec::new();
         loop {
             self.inner.seek(std::io::SeekFrom::Start(source_pos))?;
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
@@ -117,24 +120,21 @@ impl<
                         }
                         // Lengths aren't trusted, even if the slot has free space
                         let next = slot.next_offset(source_pos)?;
-                        if let Some(lst) = self.slots.get_mut(count.saturating_sub(1)) {
-                            lst.inner = slot;
-                            updated = true;
-                            if lst.inner.get_free_slot_index().is_none() {
-                                // Slot is full, move source position to the end of this slot
-                                source_pos = next;
-                            } else {
-                                // Slot has free space, so we can stop here
-                                break;
-                            }
+                        let full = slot.get_free_slot_index().is_none();
+                        refreshed = Some(slot);
+                        updated = true;
+                        if full {
+                            // Slot is full, move source position to the end of this slot
+                            source_pos = next;
                         } else {
-                            return Err(Error::AccessSlot(count.saturating_sub(1)));
+                            // Slot has free space, so we can stop here
+                            break;
                         }
                     } else {
                         let position = source_pos;
                         source_pos = slot.next_offset(source_pos)?;
                         let full = slot.is_full();
-                        self.slots.push(AnchoredSlot::new(slot, position));
+                        added.push(AnchoredSlot::new(slot, position));
                         if !full {
                             // Next slot is created only after a full one
                             break;
@@ -162,6 +162,14 @@ impl<
             }
         }
 
+        if let Some(slot) = refreshed {
+            self.slots
+                .get_mut(count.saturating_sub(1))
+                .ok_or(Error::AccessSlot(count.saturating_sub(1)))?
+                .inner = slot;
+        }
+        self.slots.append(&mut added);
+
         let read = self
             .slots
             .iter()
-- 
2.43.0


From 267abbe6466281afaca867374eefd9c960c8ea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:20 +0000
Subject: [PATCH 50/53] fix: incremental reads of blocks and payload headers do
 not move the source if it fails

---
 brec/src/payload/header/sreader.rs    | 15 ++++++++++++---
 brec_macros/src/codegen/read/block.rs |  5 ++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/brec/src/payload/header/sreader.rs b/brec/src/payload/header/sreader.rs
index 4767867..a4847bb 100644
--- a/brec/src/payload/header/sreader.rs
+++ b/brec/src/payload/header/sreader.rs
@@ -70,6 +70,15 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
         Ok(())
     }
 
+    /// Fills the given buffer. If the stream fails, resets it.
+    fn read_exact(&mut self, dest: &mut [u8]) -> Result<(), Error> {
+        if let Err(err) = self.buf.read_exact(dest) {
+            self.reset()?;
+            return Err(err.into());
+        }
+        Ok(())
+    }
+
     /// Attempts to read a single `u8` from the stream.
     ///
     /// If insufficient data is available, resets the stream and returns
@@ -80,7 +89,7 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
             return Ok(NextChunk::NotEnoughData(self.read + 1 - self.len));
         }
         let mut dest = [0u8; 1];
-        self.buf.read_exact(&mut dest)?;
+        self.read_exact(&mut dest)?;
         self.read += 1;
         Ok(NextChunk::U8(dest[0]))
     }
@@ -95,7 +104,7 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
             return Ok(NextChunk::NotEnoughData(self.read + 4u64 - self.len));
         }
         let mut dest = [0u8; 4];
-        self.buf.read_exact(&mut dest)?;
+        self.read_exact(&mut dest)?;
         self.read += 4u64;
         Ok(NextChunk::U32(u32::from_le_bytes(dest)))
     }
@@ -113,7 +122,7 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
             return Ok(NextChunk::NotEnoughData(self.read + capacity - self.len));
         }
         let mut dest = vec![0u8; capacity as usize];
-        self.buf.read_exact(&mut dest)?;
+        self.read_exact(&mut dest)?;
         self.read += capacity;
         Ok(NextChunk::Bytes(dest))
     }
diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 9a81646..1adb472 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -155,7 +155,10 @@ impl TryRead for Block {
                     if len < #sig_len {
                         return Ok(brec::ReadStatus::NotEnoughData(#sig_len - len));
                     }
-                    buf.read_exact(&mut sig_buf)?;
+                    if let Err(err) = buf.read_exact(&mut sig_buf) {
+                        buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                        return Err(err.into());
+                    }
                     if sig_buf != #const_sig {
                         buf.seek(std::io::SeekFrom::Start(start_pos))?;
                         return Err(brec::Error::SignatureDismatch);
-- 
2.43.0


From 11c1cd26d735e5c754494c256ae22bfa35947ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:56 +0000
Subject: [PATCH 51/53] fix: every way of reading a packet refuses more blocks
 than allowed

---
 brec/src/packet/mod.rs  |  3 +++
 brec/src/packet/read.rs | 26 ++++++++++----------------
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/brec/src/packet/mod.rs b/brec/src/packet/mod.rs
index 0598d93..3c377ef 100644
--- a/brec/src/packet/mod.rs
+++ b/brec/src/packet/mod.rs
@@ -143,6 +143,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketDef<B, P,
         let blocks_len = header.blocks_len as usize;
         if blocks_len > 0 {
             loop {
+                if blocks.len() == MAX_BLOCKS_COUNT as usize {
+                    return Err(Error::MaxBlocksCount);
+                }
                 let blk =
                     <BR as ReadBlockFromSlice>::read_from_slice(&packet_buffer[read..], false)?;
                 read += blk.size() as usize;
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index ac8fa13..d4bb3a6 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -35,8 +35,10 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReadFrom
         }
         let mut reader = std::io::Cursor::new(&mut inner);
         if header.blocks_len > 0 {
-            let mut iterations = 0;
             loop {
+                if pkg.blocks.len() == MAX_BLOCKS_COUNT as usize {
+                    return Err(Error::MaxBlocksCount);
+                }
                 match <B as TryReadFromBuffered>::try_read(&mut reader)? {
                     ReadStatus::Success(blk) => {
                         read += blk.size();
@@ -49,10 +51,6 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReadFrom
                         return Err(Error::NotEnoughData(needed as usize));
                     }
                 }
-                iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
-                    return Err(Error::MaxBlocksCount);
-                }
             }
         }
         if header.payload {
@@ -106,8 +104,11 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
         let mut pkg = PacketDef::default();
         let mut read = 0;
         if header.blocks_len > 0 {
-            let mut iterations = 0;
             loop {
+                if pkg.blocks.len() == MAX_BLOCKS_COUNT as usize {
+                    buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                    return Err(Error::MaxBlocksCount);
+                }
                 match <B as TryReadFrom>::try_read(buf) {
                     Ok(ReadStatus::Success(blk)) => {
                         read += blk.size();
@@ -125,11 +126,6 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
                         return Err(err);
                     }
                 }
-                iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
-                    buf.seek(std::io::SeekFrom::Start(start_pos))?;
-                    return Err(Error::MaxBlocksCount);
-                }
             }
         }
         if header.payload {
@@ -206,8 +202,10 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
         let mut pkg = PacketDef::default();
         let mut read = 0;
         if header.blocks_len > 0 {
-            let mut iterations = 0;
             loop {
+                if pkg.blocks.len() == MAX_BLOCKS_COUNT as usize {
+                    return Err(Error::MaxBlocksCount);
+                }
                 match <B as TryReadFromBuffered>::try_read(&mut body)? {
                     ReadStatus::Success(blk) => {
                         read += blk.size();
@@ -220,10 +218,6 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
                         return Ok(ReadStatus::NotEnoughData(needed))
                     }
                 }
-                iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
-                    return Err(Error::MaxBlocksCount);
-                }
             }
         }
         if header.payload {
-- 
2.43.0


From d7b46fa843249f08c6e6e85b0b7654b43146fb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 52/53] fix: seekable read of a packet stays within the packet
 and ends at its end

---
 brec/src/packet/read.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index d4bb3a6..67d00cc 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -101,6 +101,14 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
             buf.seek(std::io::SeekFrom::Start(start_pos))?;
             return Ok(ReadStatus::NotEnoughData(required - available));
         }
+        if header.blocks_len > header.size {
+            // Blocks cannot continue behind the end of the packet
+            buf.seek(std::io::SeekFrom::Start(start_pos))?;
+            return Err(Error::OutOfBounds(
+                header.size as usize,
+                header.blocks_len as usize,
+            ));
+        }
         let mut pkg = PacketDef::default();
         let mut read = 0;
         if header.blocks_len > 0 {
@@ -159,6 +167,8 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
                 }
             }
         }
+        // The next packet begins where the header tells, whatever has been read
+        buf.seek(std::io::SeekFrom::Start(start_pos + required))?;
         Ok(ReadStatus::Success(pkg))
     }
 }
-- 
2.43.0


From 95be384ef123ce6375484c71935e0588396a8aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:41 +0000
Subject: [PATCH 53/53] fix: accept every repr attribute beside the macros

---
 brec_macros/src/modificators/attrs.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/brec_macros/src/modificators/attrs.rs b/brec_macros/src/modificators/attrs.rs
index aafbd83..c04e411 100644
--- a/brec_macros/src/modificators/attrs.rs
+++ b/brec_macros/src/modificators/attrs.rs
@@ -1,19 +1,26 @@
-use syn::{parse_quote, DeriveInput};
+use proc_macro2::TokenStream;
+use syn::{parenthesized, parse_quote, token, DeriveInput};
 
 pub fn inject_repr_c(input: &mut DeriveInput) -> Result<(), syn::Error> {
-    let mut has_repr_c = false;
+    let mut has_layout = false;
     for attr in input.attrs.iter() {
         if attr.path().is_ident("repr") {
             attr.parse_nested_meta(|meta| {
-                if let Some(ident) = meta.path.get_ident() {
-                    has_repr_c = &ident.to_string() == "C";
+                if meta.input.peek(token::Paren) {
+                    // Arguments of "align(N)" or "packed(N)"; layout isn't defined by it
+                    let args;
+                    parenthesized!(args in meta.input);
+                    args.parse::<TokenStream>()?;
+                } else if !meta.path.is_ident("packed") {
+                    // "C" or another layout, which cannot be combined with "C"
+                    has_layout = true;
                 }
                 Ok(())
             })?;
         }
     }
 
-    if !has_repr_c {
+    if !has_layout {
         input.attrs.insert(0, parse_quote!(#[repr(C)]));
     }
     Ok(())
-- 
2.43.0

