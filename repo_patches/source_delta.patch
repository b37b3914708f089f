From abd6dbc28ecff613dcb6afedbe63562b4c08ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:49 +0000
Subject: [PATCH 01/31] fix: ticket with an unknown common key index panics
 instead of failing to parse

---
 src/structs.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index df8a7d5..8124e8f 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -98,24 +98,39 @@ pub struct TicketTimeLimit {
     pub time_limit: u32,
 }
 
-fn decrypt_title_key(key: &[u8; 16], common_key_idx: u8, title_id: &[u8; 8]) -> [u8; 16] {
+fn get_common_key(common_key_idx: u8) -> Result<[u8; 16], String> {
+    COMMON_KEYS
+        .get(common_key_idx as usize)
+        .copied()
+        .ok_or_else(|| format!("invalid common key index: {common_key_idx}"))
+}
+
+fn decrypt_title_key(
+    key: &[u8; 16],
+    common_key_idx: u8,
+    title_id: &[u8; 8],
+) -> Result<[u8; 16], String> {
     let mut decrypted = [0; 16];
     let mut iv = [0u8; 0x10];
     iv[..8].copy_from_slice(title_id);
-    Aes128CbcDec::new(&COMMON_KEYS[common_key_idx as usize].into(), &iv.into())
+    Aes128CbcDec::new(&get_common_key(common_key_idx)?.into(), &iv.into())
         .decrypt_padded_b2b_mut::<NoPadding>(key, &mut decrypted)
         .unwrap();
-    decrypted
+    Ok(decrypted)
 }
 
-fn encrypt_title_key(key: &[u8; 16], common_key_idx: u8, title_id: &[u8; 8]) -> [u8; 16] {
+fn encrypt_title_key(
+    key: &[u8; 16],
+    common_key_idx: u8,
+    title_id: &[u8; 8],
+) -> Result<[u8; 16], String> {
     let mut encrypted = [0; 16];
     let mut iv = [0u8; 0x10];
     iv[..8].copy_from_slice(title_id);
-    Aes128CbcEnc::new(&COMMON_KEYS[common_key_idx as usize].into(), &iv.into())
+    Aes128CbcEnc::new(&get_common_key(common_key_idx)?.into(), &iv.into())
         .encrypt_padded_b2b_mut::<NoPadding>(key, &mut encrypted)
         .unwrap();
-    encrypted
+    Ok(encrypted)
 }
 
 #[binrw]
@@ -128,7 +143,7 @@ pub struct Ticket {
     pub ecdh: [u8; 0x3C],
     #[brw(pad_before = 3)]
     #[br(temp)]
-    #[bw(calc = encrypt_title_key(title_key, *common_key_idx, title_id))]
+    #[bw(try_calc = encrypt_title_key(title_key, *common_key_idx, title_id))]
     encrypted_key: [u8; 16],
     #[brw(pad_before = 1)]
     pub ticket_id: [u8; 8],
@@ -145,7 +160,7 @@ pub struct Ticket {
     pub unk2: u16,
     pub time_limits: [TicketTimeLimit; 8],
     #[bw(ignore)]
-    #[br(calc = decrypt_title_key(&encrypted_key, common_key_idx, &title_id))]
+    #[br(try_calc = decrypt_title_key(&encrypted_key, common_key_idx, &title_id))]
     pub title_key: [u8; 16],
 }
 
-- 
2.43.0


From 3afdcd822addd0dd729ef0943dae1300fc11c805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:49 +0000
Subject: [PATCH 02/31] fix: IOWindow::read_exact refused reads inside the
 window and allowed reads past its end

---
 src/window.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/window.rs b/src/window.rs
index 9f15e14..77cf45c 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -62,7 +62,7 @@ where
 
     fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
         if let Some(bytes_left) = self.bytes_left() {
-            if bytes_left > buf.len() {
+            if bytes_left < buf.len() {
                 return Err(io::ErrorKind::UnexpectedEof.into());
             }
         }
-- 
2.43.0


From d6a607565c250124a7cde32f76a3505a764d04e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:49 +0000
Subject: [PATCH 03/31] fix: IOWindow relative seek started from the position
 of the source instead of the window

---
 src/window.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/window.rs b/src/window.rs
index 77cf45c..7d0c5ed 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -113,7 +113,10 @@ where
 {
     fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
         let position = self.source.seek(match pos {
-            SeekFrom::Current(_) => pos,
+            SeekFrom::Current(off) => {
+                // the source doesn't have to be at the position of this window
+                SeekFrom::Start((self.start + self.pos).saturating_add_signed(off))
+            }
             SeekFrom::End(off) => {
                 if let Some(length) = self.length {
                     SeekFrom::Start((self.start + length).saturating_add_signed(off))
-- 
2.43.0


From 91df18eef9a62d83345a435e035312048b32b97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:49 +0000
Subject: [PATCH 04/31] fix: malformed FST node ranges and counts panic or
 abort instead of returning an error

---
 src/fst.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fst.rs b/src/fst.rs
index a2ffa68..875796c 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -318,8 +318,8 @@ impl Fst {
             });
         }
         let total_node_count = root_node.length - 1;
-        let mut nodes = Vec::with_capacity(total_node_count as usize);
-        nodes.push(root_node);
+        // the node count isn't trustworthy, so don't allocate for all of them in advance
+        let mut nodes = vec![root_node];
         for _ in 0..total_node_count {
             nodes.push(rs.read_be::<RawFstNode>()?);
         }
@@ -337,12 +337,19 @@ impl Fst {
         children_end: u32,
         cur_idx: &mut u32,
     ) -> binrw::BinResult<Vec<FstNode>> {
-        let mut nodes = Vec::with_capacity(raw_nodes.len());
+        let mut nodes = Vec::new();
         while *cur_idx < children_end {
             let node = &raw_nodes[*cur_idx as usize];
             let name = read_shiftjs(rs, str_offset + node.name_offset as u64)?;
             *cur_idx += 1;
             if node.is_directory {
+                // the children have to be within the parent directory
+                if node.length < *cur_idx || node.length > children_end {
+                    return Err(binrw::Error::Custom {
+                        pos: str_offset,
+                        err: Box::new(format!("invalid FST directory node: {:?}", node)),
+                    });
+                }
                 let files =
                     Self::transform_fst_rec(rs, str_offset, raw_nodes, node.length, cur_idx)?;
                 nodes.push(FstNode::Directory { name, files });
-- 
2.43.0


From 1d9a90646a775fdfad593fbdcae6988653e8c35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:03 +0000
Subject: [PATCH 05/31] fix: FST names starting with a BOM were decoded as
 UTF-8/16 instead of Shift-JIS

---
 src/fst.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fst.rs b/src/fst.rs
index 875796c..7f70db7 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -132,7 +132,7 @@ impl AsMut<FstNode> for FstNode {
 fn read_shiftjs<RS: Read + Seek>(rs: &mut RS, offset: u64) -> binrw::BinResult<String> {
     rs.seek(SeekFrom::Start(offset))?;
     let null_str = rs.read_be::<NullString>()?;
-    let (res, _, err) = SHIFT_JIS.decode(&null_str);
+    let (res, err) = SHIFT_JIS.decode_without_bom_handling(&null_str);
     if err {
         return Err(binrw::Error::Custom {
             pos: offset,
-- 
2.43.0


From 7e3acf16d09664dc18ac372d020303a66ae98d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:03 +0000
Subject: [PATCH 06/31] fix: FST names that change when stored as Shift-JIS
 were silently altered

---
 src/fst.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fst.rs b/src/fst.rs
index 7f70db7..b884520 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -533,7 +533,12 @@ fn rec_build_fst_bytes(
 ) -> Result<(), FstToBytesError> {
     for node in nodes {
         let (bytes, _, error) = SHIFT_JIS.encode(node.get_name());
-        if error {
+        // some characters are encoded as similar ones and a null byte ends the name,
+        // in these cases a different name would be stored
+        if error
+            || bytes.contains(&0)
+            || SHIFT_JIS.decode_without_bom_handling(&bytes).0 != node.get_name().as_str()
+        {
             return Err(FstToBytesError::InvalidShiftJis(node.get_name().clone()));
         }
         let name_offset = str_bytes.len() as u32;
-- 
2.43.0


From b0c979ba7e8a4cb4b739aa37b043aa3de0a18688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:04 +0000
Subject: [PATCH 07/31] fix: a partition that failed to be added was still
 listed in the partition table

---
 src/builder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 18798ea..12cdd32 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -115,10 +115,6 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         progress_cb(0);
         let part_data_off = self.current_data_offset;
         let mut partition_window = IOWindow::new(&mut self.file, part_data_off, None);
-        self.partitions.push(WiiPartTableEntry {
-            part_data_off: part_data_off.into(),
-            part_type,
-        });
         // placeholder header
         let mut part_header = WiiPartitionHeader {
             ticket,
@@ -289,6 +285,11 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         // write partition header
         partition_window.seek(SeekFrom::Start(0))?;
         partition_window.write_be(&part_header)?;
+        // only list the partition after it's complete
+        self.partitions.push(WiiPartTableEntry {
+            part_data_off: part_data_off.into(),
+            part_type,
+        });
         Ok(())
     }
 
-- 
2.43.0


From 8e326f5b2e6a65d4f47028fcc0d8411bef017b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:04 +0000
Subject: [PATCH 08/31] fix: adding a partition with a TMD without contents
 panics

---
 src/builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 12cdd32..7e44b12 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -112,6 +112,9 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         E: Error,
         C: FnMut(u8),
     {
+        if tmd.contents.is_empty() {
+            return Err(io::Error::new(io::ErrorKind::InvalidInput, "tmd has no contents").into());
+        }
         progress_cb(0);
         let part_data_off = self.current_data_offset;
         let mut partition_window = IOWindow::new(&mut self.file, part_data_off, None);
-- 
2.43.0


From 3164848d2602b6370e71aa4dbfbde5cd52e3912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:37 +0000
Subject: [PATCH 09/31] fix: TMD and certificates that don't fit before the
 global hash table were overwritten by it

---
 src/builder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 7e44b12..299f901 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -142,6 +142,13 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         partition_window.write_be(&cert_chain)?;
         part_header.cert_chain_size =
             (partition_window.stream_position()? - *part_header.cert_chain_off) as u32;
+        if partition_window.stream_position()? > 0x8000 {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "tmd and certificates don't fit before the global hash table",
+            )
+            .into());
+        }
         // global hash table at 0x8000, encrypted data starts at 0x20000
         // let mut h3: Box<[u8; 0x18000]> = vec![0u8; 0x18000].into_boxed_slice().try_into().unwrap();
         // now we write encrypted data
-- 
2.43.0


From 86478db2d317465fb2ff924c5212d7a61a6bf79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:38 +0000
Subject: [PATCH 10/31] fix: bi2 larger than its area was partially overwritten
 by the apploader

---
 src/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 299f901..c5f7413 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -179,7 +179,12 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         let mut fst = FstToBytes::try_from(source_fst)?;
         let mut part_disc_header = partition_def.get_disc_header()?;
         crypto_writer.seek(SeekFrom::Start(0x440))?;
-        crypto_writer.write_all(&partition_def.get_bi2()?)?;
+        let bi2 = partition_def.get_bi2()?;
+        if bi2.len() > 0x2000 {
+            return Err(io::Error::new(io::ErrorKind::InvalidInput, "bi2 is too large").into());
+        }
+        crypto_writer.write_all(&bi2)?;
+        drop(bi2);
 
         // write apploader (always at the same address)
         crypto_writer.seek(SeekFrom::Start(0x2440))?;
-- 
2.43.0


From 9464740b941b620f1c0c8839efa4a0a2bb873ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:39 +0000
Subject: [PATCH 11/31] fix: partition with more groups than the global hash
 table can hold panics

---
 src/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index c5f7413..66bb92d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -156,7 +156,8 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
             &mut partition_window,
             0x20000,
             part_header.ticket.title_key,
-            None,
+            // there has to be space for the hash of every group in the global hash table
+            Some(0x18000 / 20),
             0,
         );
         let source_fst = partition_def.get_fst()?;
-- 
2.43.0


From 49c4f0e3dcd385a25ca296408e8c37f7c2dbeffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:40 +0000
Subject: [PATCH 12/31] fix: length of files with 4GiB or more was silently
 truncated in the FST

---
 src/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 66bb92d..bfb96de 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -217,7 +217,12 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
             *offset = crypto_writer.stream_position()?;
             let (data, padding) = partition_def.get_file_data(path)?;
             let mut remaining_data = data.as_ref();
-            *size = remaining_data.len() as u32;
+            *size = remaining_data.len().try_into().map_err(|_| {
+                io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    format!("file {path:?} is too large"),
+                )
+            })?;
             while remaining_data.len() > 0 {
                 let bytes_to_write = remaining_data.len().min(0x1_000_000);
                 let batch;
-- 
2.43.0


From f0dd11d1ad98cef0bd854e0ee910f513d2fdbd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:41 +0000
Subject: [PATCH 13/31] fix: stale partition groups of the destination were
 kept when finishing a disc

---
 src/builder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index bfb96de..3947441 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -326,6 +326,8 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         // we keep everything in one group, first write count then offset
         self.file.write_be(&(self.partitions.len() as u32))?;
         self.file.write_be(&(0x40020u32 >> 2))?;
+        // the other 3 groups are empty
+        self.file.write_all(&[0; 3 * 8])?;
         // write entries
         self.file.seek(SeekFrom::Start(0x40020))?;
         for partition in self.partitions.iter() {
-- 
2.43.0


From 0e5fa0f5fe6f58c8441863f6b24242d58ce42387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:42 +0000
Subject: [PATCH 14/31] fix: overflow calculating the apploader size

---
 src/new_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 9071f98..012322c 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -295,9 +295,9 @@ impl WiiPartitionReadInfo {
         let mut crypt_part_reader = self.get_crypto_reader(reader);
         crypt_part_reader.seek(SeekFrom::Start(0x2440))?;
         let apploader_header: ApploaderHeader = crypt_part_reader.read_be()?;
-        let fullsize = 32 + apploader_header.size1 + apploader_header.size2;
+        let fullsize = 32 + apploader_header.size1 as u64 + apploader_header.size2 as u64;
         let mut buf = Vec::new();
-        crypt_part_reader.read_into_vec(0x2440, fullsize as u64, &mut buf)?;
+        crypt_part_reader.read_into_vec(0x2440, fullsize, &mut buf)?;
         Ok(buf)
     }
 
-- 
2.43.0


From 27a5c10f4ddca2537328fb6953d1d83056ba1e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:43 +0000
Subject: [PATCH 15/31] fix: seeking a partition reader to huge offsets wrapped
 around to the start

---
 src/new_reader.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 012322c..e9a4a91 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -174,12 +174,15 @@ impl<'a, RS: Read + Seek> CryptPartReader<'a, RS> {
 impl<'a, RS: Read + Seek> Seek for CryptPartReader<'a, RS> {
     fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
         let new_pos = match pos {
-            SeekFrom::Current(off) => self.crypt_part_state.current_position as i64 + off,
-            SeekFrom::Start(off) => off as i64,
+            SeekFrom::Current(off) => self
+                .crypt_part_state
+                .current_position
+                .saturating_add_signed(off),
+            SeekFrom::Start(off) => off,
             // TODO: support seeking from the end when it's known?
             SeekFrom::End(_off) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
-        self.crypt_part_state.current_position = new_pos.max(0) as u64;
+        self.crypt_part_state.current_position = new_pos;
         Ok(self.crypt_part_state.current_position)
     }
 
-- 
2.43.0


From 88025643740ac7d79b6771862faf2ace93e36681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:43 +0000
Subject: [PATCH 16/31] fix: reading a range with a huge length allocated it in
 full instead of stopping at the end

---
 src/new_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index e9a4a91..a350444 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -93,7 +93,8 @@ impl EncryptedPartState {
         buffer: &mut Vec<u8>,
     ) -> io::Result<()> {
         buffer.clear();
-        buffer.reserve(length as usize);
+        // there is nothing to read past the end
+        buffer.reserve(length.min(self.data_size.saturating_sub(offset)) as usize);
         let mut group = offset / GROUP_DATA_SIZE;
         let mut block = (offset % GROUP_DATA_SIZE) / BLOCK_DATA_SIZE;
         let mut offset_in_block_data = offset % BLOCK_DATA_SIZE;
-- 
2.43.0


From 8f1d0a577fed20ac00afaeaae1e0ff91b0ad9c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:44 +0000
Subject: [PATCH 17/31] fix: reads went past the data size of a partition that
 doesn't end with a full block

---
 src/new_reader.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index a350444..afa3648 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -104,7 +104,9 @@ impl EncryptedPartState {
             }
             // we either copy the entire block or what's needed to fill the vec
             let count_to_copy =
-                (BLOCK_DATA_SIZE - offset_in_block_data).min(length - buffer.len() as u64);
+                (BLOCK_DATA_SIZE - offset_in_block_data)
+                    .min(length - buffer.len() as u64)
+                    .min(self.data_size - offset);
             buffer.extend_from_slice(
                 &self.get_decrypted_block_data(group, block, rs)?[offset_in_block_data as usize..]
                     [..count_to_copy as usize],
@@ -131,7 +133,9 @@ impl EncryptedPartState {
                 break;
             }
             // we either copy the entire block or what's needed to fill the slice
-            let count_to_copy = (BLOCK_DATA_SIZE - offset_in_block_data).min(buf.len() as u64);
+            let count_to_copy = (BLOCK_DATA_SIZE - offset_in_block_data)
+                .min(buf.len() as u64)
+                .min(self.data_size - self.current_position);
             let to_fill;
             (to_fill, buf) = buf.split_at_mut(count_to_copy as usize);
             to_fill.copy_from_slice(
-- 
2.43.0


From 6a66b9db4d3dab7a1aa8a933a83d508dde919db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:03 +0000
Subject: [PATCH 18/31] fix: disc titles of 64 or more bytes displaced all
 following header fields

---
 src/structs.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index 8124e8f..b380e84 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -5,7 +5,7 @@ use aes::{
     cipher::{BlockEncryptMut, KeyIvInit},
     Aes128,
 };
-use binrw::{binrw, BinReaderExt, NullString};
+use binrw::{binrw, BinReaderExt};
 
 use crate::{ShiftedU64, COMMON_KEYS};
 
@@ -236,6 +236,22 @@ pub struct WiiPartitionHeader {
     pub data_size: ShiftedU64,
 }
 
+fn game_title_from_bytes(bytes: &[u8; 64]) -> String {
+    let len = bytes.iter().position(|b| *b == 0).unwrap_or(bytes.len());
+    String::from_utf8_lossy(&bytes[..len]).into_owned()
+}
+
+// the title always takes up 64 bytes, longer ones are cut off
+fn game_title_to_bytes(title: &str) -> [u8; 64] {
+    let mut bytes = [0; 64];
+    let mut len = title.len().min(bytes.len());
+    while !title.is_char_boundary(len) {
+        len -= 1;
+    }
+    bytes[..len].copy_from_slice(&title.as_bytes()[..len]);
+    bytes
+}
+
 /// Wii disc header
 #[binrw]
 #[derive(Clone, Debug, PartialEq, Eq)]
@@ -251,9 +267,8 @@ pub struct DiscHeader {
     pub wii_magic: u32,
     /// If this is a GameCube disc, this will be 0xC2339F3D
     pub gcn_magic: u32,
-    #[brw(pad_size_to(64))]
-    #[br(map = |s| NullString::to_string(&s))]
-    #[bw(map = |s| NullString::from(s.clone()))]
+    #[br(map = |bytes: [u8; 64]| game_title_from_bytes(&bytes))]
+    #[bw(map = |s| game_title_to_bytes(s))]
     pub game_title: String,
     /// Disable hash verification
     pub disable_hash_verification: u8,
-- 
2.43.0


From 0fb32f5db4d8278001197a89c8c00b88e3eae3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:28 +0000
Subject: [PATCH 19/31] fix: names in an image could make extract_to write
 outside of the destination

---
 disc-riider-py/src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index e7611b8..944c6c5 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -2,7 +2,7 @@ use std::{
     convert::Infallible,
     fs::{self, create_dir_all, OpenOptions},
     io::{Read, Seek, SeekFrom, Write},
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 
 use binrw::{BinWrite, BinWriterExt};
@@ -82,6 +82,13 @@ pub fn binrw_write_file(p: &Path, value: &impl for<'a> BinWrite<Args<'a> = ()>)
     Ok(())
 }
 
+/// makes sure a name in an FST can't point outside of the directory it's extracted to
+fn is_plain_filename(name: &str) -> bool {
+    let mut components = Path::new(name).components();
+    matches!(components.next(), Some(Component::Normal(c)) if c == name)
+        && components.next().is_none()
+}
+
 #[pymethods]
 impl WiiIsoExtractor {
     #[new]
@@ -234,6 +241,12 @@ impl WiiIsoExtractor {
                     if let FstNode::File { offset, length, .. } = node {
                         let mut filepath = section_path.join("files");
                         for name in names {
+                            if !is_plain_filename(name) {
+                                return Err(std::io::Error::new(
+                                    std::io::ErrorKind::InvalidData,
+                                    format!("invalid filename: {names:?}"),
+                                ));
+                            }
                             filepath.push(name);
                         }
                         // println!("{filepath:?}");
-- 
2.43.0


From 61dd11060665bfb1d12171dd9c6dbe97b1985c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:29 +0000
Subject: [PATCH 20/31] fix: extract_to silently truncated files reaching past
 the end of the partition

---
 disc-riider-py/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index 944c6c5..e24b9f0 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -261,6 +261,9 @@ impl WiiIsoExtractor {
                             let bytes_read =
                                 wii_encrypt_reader.read(&mut buffer[..bytes_to_read])?;
                             if bytes_read == 0 {
+                                if bytes_left != 0 {
+                                    return Err(std::io::ErrorKind::UnexpectedEof.into());
+                                }
                                 break;
                             }
 
-- 
2.43.0


From 003eeecc17893c8822c841cb145a007112aa4112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:19 +0000
Subject: [PATCH 21/31] fix: name offsets that don't fit into 24 bits turned
 files into directories in the FST

---
 src/fst.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fst.rs b/src/fst.rs
index b884520..b40203e 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -524,6 +524,8 @@ pub struct FstToBytes {
 pub enum FstToBytesError {
     #[error("{0} can't be converted into shift-jis!")]
     InvalidShiftJis(String),
+    #[error("all names together are too long!")]
+    NamesTooLong,
 }
 
 fn rec_build_fst_bytes(
@@ -542,6 +544,10 @@ fn rec_build_fst_bytes(
             return Err(FstToBytesError::InvalidShiftJis(node.get_name().clone()));
         }
         let name_offset = str_bytes.len() as u32;
+        // only 24 bits are stored
+        if name_offset > 0xffffff {
+            return Err(FstToBytesError::NamesTooLong);
+        }
         str_bytes.extend_from_slice(bytes.as_ref());
         str_bytes.push(0);
         name_offsets.push(name_offset as u32);
-- 
2.43.0


From fab757ef98d51caa9ec30f3a7fd4e7e323ba8af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:44 +0000
Subject: [PATCH 22/31] fix: refuse window seeks past the 64-bit range instead
 of overflowing

---
 src/window.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/window.rs b/src/window.rs
index 7d0c5ed..f332a86 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -124,7 +124,11 @@ where
                     return Err(io::ErrorKind::Unsupported.into());
                 }
             }
-            SeekFrom::Start(off) => SeekFrom::Start(self.start + off),
+            SeekFrom::Start(off) => SeekFrom::Start(
+                self.start
+                    .checked_add(off)
+                    .ok_or(io::ErrorKind::InvalidInput)?,
+            ),
         })?;
         self.pos = position.saturating_sub(self.start);
         Ok(self.pos)
-- 
2.43.0


From 5114dd309420d9ed73527ce8c9cfb4828efec774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:02 +0000
Subject: [PATCH 23/31] fix: build_copy panics for images without a THP
 directory or data partition

---
 src/builder.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 3947441..4c10b97 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -404,20 +404,16 @@ pub fn build_copy(src: &Path, dest: &Path) -> Result<(), CpBuildErr> {
         .partitions()
         .iter()
         .find(|p| p.get_type() == WiiPartType::Data)
-        .unwrap()
-        .clone();
+        .cloned()
+        .ok_or_else(|| io::Error::new(io::ErrorKind::NotFound, "no data partition"))?;
     let mut part_read_info = reader.open_partition(data_part)?;
     let ticket = part_read_info.get_partition_header().ticket.clone();
     let tmd = part_read_info.read_tmd(&mut reader)?;
     let cert_chain = part_read_info.read_certificates(&mut reader)?;
     let bi2 = part_read_info.read_bi2(&mut reader)?;
     let mut original_fst = part_read_info.get_fst().clone();
-    let thp_dir = original_fst.find_node_path_mut("THP").unwrap();
-    match thp_dir {
-        FstNode::File { .. } => unreachable!(),
-        FstNode::Directory { files, .. } => {
-            files.retain(|f| f.get_name().starts_with("Demo"));
-        }
+    if let Some(FstNode::Directory { files, .. }) = original_fst.find_node_path_mut("THP") {
+        files.retain(|f| f.get_name().starts_with("Demo"));
     }
     let mut copy_builder = CopyBuilder {
         bi2,
-- 
2.43.0


From bc1f88303c1c9e3bf2e9ea0d6ce9c24953e63770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:02 +0000
Subject: [PATCH 24/31] fix: build_copy silently truncated files reaching past
 the end of the partition

---
 src/builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 4c10b97..9088050 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -381,6 +381,9 @@ impl<'b, RS: Read + Seek> WiiPartitionDefinition<std::convert::Infallible> for C
                 self.part_read_info
                     .get_crypto_reader(self.reader)
                     .read_into_vec(*offset, *length as u64, &mut self.buffer)?;
+                if self.buffer.len() as u64 != *length as u64 {
+                    return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+                }
                 Ok((Cow::Borrowed(&self.buffer), 0))
             }
             _ => panic!("???"),
-- 
2.43.0


From c769669a561f4faedbe843771f8fa5ec9179625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:11 +0000
Subject: [PATCH 25/31] fix: system files reaching past the end of the
 partition were silently truncated

---
 src/new_reader.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index afa3648..26271b9 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -174,6 +174,16 @@ impl<'a, RS: Read + Seek> CryptPartReader<'a, RS> {
     pub fn into_window(self, offset: u64, length: Option<u64>) -> impl Read + Seek + 'a {
         IOWindow::new(self, offset, length)
     }
+
+    /// like read_into_vec, but it's an error if the partition doesn't contain the entire range
+    fn read_exact_vec(&mut self, offset: u64, length: u64) -> io::Result<Vec<u8>> {
+        let mut buffer = Vec::new();
+        self.read_into_vec(offset, length, &mut buffer)?;
+        if buffer.len() as u64 != length {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
+        Ok(buffer)
+    }
 }
 
 impl<'a, RS: Read + Seek> Seek for CryptPartReader<'a, RS> {
@@ -291,9 +301,7 @@ impl WiiPartitionReadInfo {
     ) -> binrw::BinResult<Vec<u8>> {
         let mut crypt_part_reader = self.get_crypto_reader(reader);
         crypt_part_reader.seek(SeekFrom::Start(0x440))?;
-        let mut bi2_buf = vec![];
-        crypt_part_reader.read_into_vec(0x440, 0x2000, &mut bi2_buf)?;
-        Ok(bi2_buf)
+        Ok(crypt_part_reader.read_exact_vec(0x440, 0x2000)?)
     }
 
     pub fn read_apploader<RS: Read + Seek>(
@@ -304,9 +312,7 @@ impl WiiPartitionReadInfo {
         crypt_part_reader.seek(SeekFrom::Start(0x2440))?;
         let apploader_header: ApploaderHeader = crypt_part_reader.read_be()?;
         let fullsize = 32 + apploader_header.size1 as u64 + apploader_header.size2 as u64;
-        let mut buf = Vec::new();
-        crypt_part_reader.read_into_vec(0x2440, fullsize, &mut buf)?;
-        Ok(buf)
+        Ok(crypt_part_reader.read_exact_vec(0x2440, fullsize)?)
     }
 
     pub fn read_dol<RS: Read + Seek>(
@@ -333,9 +339,7 @@ impl WiiPartitionReadInfo {
                 err: Box::new("overflow calculating dol size!"),
             })
         } else {
-            let mut out_buf = Vec::new();
-            crypt_part_reader.read_into_vec(dol_offset, dol_size as u64, &mut out_buf)?;
-            Ok(out_buf)
+            Ok(crypt_part_reader.read_exact_vec(dol_offset, dol_size as u64)?)
         }
     }
 
@@ -360,11 +364,11 @@ impl WiiPartitionReadInfo {
         write_file(&sys_folder, "bi2.bin", &self.read_bi2(reader)?)?;
         write_file(&sys_folder, "apploader.img", &self.read_apploader(reader)?)?;
         write_file(&sys_folder, "main.dol", &self.read_dol(reader)?)?;
-        let mut fst_buf = Vec::new();
         let fst_off = *self.encrypted_header.fst_off;
         let fst_sz = *self.encrypted_header.fst_sz;
-        self.get_crypto_reader(reader)
-            .read_into_vec(fst_off, fst_sz, &mut fst_buf)?;
+        let fst_buf = self
+            .get_crypto_reader(reader)
+            .read_exact_vec(fst_off, fst_sz)?;
         write_file(&sys_folder, "fst.bin", &fst_buf)?;
         Ok(())
     }
-- 
2.43.0


From 3cdb4a52e9db9c4313edd072b2efd7ee30431161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:29 +0000
Subject: [PATCH 26/31] fix: deeply nested directories in an FST overflow the
 stack instead of returning an error

---
 src/fst.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/fst.rs b/src/fst.rs
index b40203e..f312239 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -142,6 +142,9 @@ fn read_shiftjs<RS: Read + Seek>(rs: &mut RS, offset: u64) -> binrw::BinResult<S
     Ok(res.into())
 }
 
+/// directories nested deeper than this aren't read
+const MAX_FST_DEPTH: u32 = 1024;
+
 /// Implements the file system table
 #[derive(Default, Clone)]
 pub struct Fst {
@@ -326,7 +329,7 @@ impl Fst {
         let str_offset = rs.stream_position()?;
 
         let fst_nodes =
-            Self::transform_fst_rec(rs, str_offset, &nodes, total_node_count + 1, &mut 1)?;
+            Self::transform_fst_rec(rs, str_offset, &nodes, total_node_count + 1, &mut 1, 0)?;
         Ok(Self { entries: fst_nodes })
     }
 
@@ -336,7 +339,15 @@ impl Fst {
         raw_nodes: &Vec<RawFstNode>,
         children_end: u32,
         cur_idx: &mut u32,
+        depth: u32,
     ) -> binrw::BinResult<Vec<FstNode>> {
+        // directories are processed recursively, so don't trust the nesting
+        if depth > MAX_FST_DEPTH {
+            return Err(binrw::Error::Custom {
+                pos: str_offset,
+                err: Box::new("FST directories are nested too deeply"),
+            });
+        }
         let mut nodes = Vec::new();
         while *cur_idx < children_end {
             let node = &raw_nodes[*cur_idx as usize];
@@ -350,8 +361,14 @@ impl Fst {
                         err: Box::new(format!("invalid FST directory node: {:?}", node)),
                     });
                 }
-                let files =
-                    Self::transform_fst_rec(rs, str_offset, raw_nodes, node.length, cur_idx)?;
+                let files = Self::transform_fst_rec(
+                    rs,
+                    str_offset,
+                    raw_nodes,
+                    node.length,
+                    cur_idx,
+                    depth + 1,
+                )?;
                 nodes.push(FstNode::Directory { name, files });
             } else {
                 nodes.push(FstNode::File {
-- 
2.43.0


From ad5b0fab932052478ac2a632598da245feee7732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:10 +0000
Subject: [PATCH 27/31] fix: a section without files couldn't be rebuilt after
 extracting it

---
 disc-riider-py/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index e24b9f0..11ab0a2 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -211,6 +211,8 @@ impl WiiIsoExtractor {
 
             let section_path_disk = section_path.join("disc");
             create_dir_all(&section_path_disk)?;
+            // needed to rebuild, even if there are no files
+            create_dir_all(section_path.join("files"))?;
 
             binrw_write_file(&section_path_disk.join("header.bin"), &disc_header)?;
             fs::write(section_path_disk.join("region.bin"), region)?;
-- 
2.43.0


From 8a4fc0bd17e3f312c4d164758a5afcaa75a7c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:06 +0000
Subject: [PATCH 28/31] fix: tables nested deeper than the reader accepts could
 be serialised

---
 src/fst.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fst.rs b/src/fst.rs
index f312239..3022eb7 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -142,7 +142,7 @@ fn read_shiftjs<RS: Read + Seek>(rs: &mut RS, offset: u64) -> binrw::BinResult<S
     Ok(res.into())
 }
 
-/// directories nested deeper than this aren't read
+/// directories nested deeper than this are neither read nor written
 const MAX_FST_DEPTH: u32 = 1024;
 
 /// Implements the file system table
@@ -543,13 +543,19 @@ pub enum FstToBytesError {
     InvalidShiftJis(String),
     #[error("all names together are too long!")]
     NamesTooLong,
+    #[error("directories are nested too deeply!")]
+    NestedTooDeeply,
 }
 
 fn rec_build_fst_bytes(
     nodes: &Vec<FstNode>,
     name_offsets: &mut Vec<u32>,
     str_bytes: &mut Vec<u8>,
+    depth: u32,
 ) -> Result<(), FstToBytesError> {
+    if depth > MAX_FST_DEPTH {
+        return Err(FstToBytesError::NestedTooDeeply);
+    }
     for node in nodes {
         let (bytes, _, error) = SHIFT_JIS.encode(node.get_name());
         // some characters are encoded as similar ones and a null byte ends the name,
@@ -570,7 +576,7 @@ fn rec_build_fst_bytes(
         name_offsets.push(name_offset as u32);
         match node {
             FstNode::Directory { files, .. } => {
-                rec_build_fst_bytes(files, name_offsets, str_bytes)?;
+                rec_build_fst_bytes(files, name_offsets, str_bytes, depth + 1)?;
             }
             &FstNode::File { .. } => {}
         }
@@ -590,7 +596,7 @@ impl TryFrom<Fst> for FstToBytes {
         str_offsets.push(0);
         str_bytes.push(0);
         // recursive
-        rec_build_fst_bytes(&value.entries, &mut str_offsets, &mut str_bytes)?;
+        rec_build_fst_bytes(&value.entries, &mut str_offsets, &mut str_bytes, 0)?;
         Ok(FstToBytes {
             str_offsets,
             str_bytes,
-- 
2.43.0


From 8d86b45fc66507ac1144b2033bee1bc28a8fd1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:37 +0000
Subject: [PATCH 29/31] fix: end-relative seek on a window of huge length
 overflowed

---
 src/window.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/window.rs b/src/window.rs
index f332a86..25ca046 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -119,7 +119,11 @@ where
             }
             SeekFrom::End(off) => {
                 if let Some(length) = self.length {
-                    SeekFrom::Start((self.start + length).saturating_add_signed(off))
+                    let end = self
+                        .start
+                        .checked_add(length)
+                        .ok_or(io::ErrorKind::InvalidInput)?;
+                    SeekFrom::Start(end.saturating_add_signed(off))
                 } else {
                     return Err(io::ErrorKind::Unsupported.into());
                 }
-- 
2.43.0


From 4ee8f3bde60b9868af108741f42c57e2261180e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:54 +0000
Subject: [PATCH 30/31] fix: partitions starting past 16 GiB got a wrong offset
 in the partition table

---
 src/builder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 9088050..64fe1d5 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -115,6 +115,13 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         if tmd.contents.is_empty() {
             return Err(io::Error::new(io::ErrorKind::InvalidInput, "tmd has no contents").into());
         }
+        if self.current_data_offset >> 2 > u32::MAX as u64 {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "partition starts past the end of what the partition table can describe",
+            )
+            .into());
+        }
         progress_cb(0);
         let part_data_off = self.current_data_offset;
         let mut partition_window = IOWindow::new(&mut self.file, part_data_off, None);
-- 
2.43.0


From 0a56f42372c64eac421f3bba7089496897cc81bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:11 +0000
Subject: [PATCH 31/31] fix: partitions beyond the partition table's room
 overwrote the region data

---
 src/builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 64fe1d5..57ced55 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -122,6 +122,12 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
             )
             .into());
         }
+        // the region data follows the partition table
+        if self.partitions.len() >= (0x4E000 - 0x40020) / 8 {
+            return Err(
+                io::Error::new(io::ErrorKind::InvalidInput, "the partition table is full").into(),
+            );
+        }
         progress_cb(0);
         let part_data_off = self.current_data_offset;
         let mut partition_window = IOWindow::new(&mut self.file, part_data_off, None);
-- 
2.43.0

