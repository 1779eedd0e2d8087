From 062b0380026d641c071682343b48cb5833daa864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:56 +0000
Subject: [PATCH 01/38] fix: return an error for malformed string lengths and
 block offsets instead of panicking

---
 src/reader.rs | 68 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 23 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index e392b0f..f29c97f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -446,7 +446,7 @@ impl<'a> WzSliceReader<'a> {
             return Ok(String::new());
         }
 
-        let unicode_u8_len = (len * 2) as usize;
+        let unicode_u8_len = checked_str_len(len)? * 2;
 
         let string =
             self.resolve_wz_string_meta(&WzStringType::Unicode, self.pos.get(), unicode_u8_len)?;
@@ -456,7 +456,7 @@ impl<'a> WzSliceReader<'a> {
         Ok(string)
     }
     pub fn read_ascii_string(&self, sl: i8) -> Result<String> {
-        let len = self.read_ascii_str_len(sl)? as usize;
+        let len = checked_str_len(self.read_ascii_str_len(sl)?)?;
         if len == 0 {
             return Ok(String::new());
         }
@@ -486,7 +486,7 @@ impl<'a> WzSliceReader<'a> {
             WzStringType::Empty => Ok(WzStringMeta::empty()),
             WzStringType::Unicode => {
                 if small_len == i8::MAX {
-                    let length = self.read_i32()? as u32 * 2;
+                    let length = checked_str_len(self.read_i32()?)? as u32 * 2;
                     /* remember skip char reading */
                     let meta = WzStringMeta::new_unicode(self.pos.get(), length);
                     self.skip(length as usize);
@@ -500,9 +500,9 @@ impl<'a> WzSliceReader<'a> {
             }
             WzStringType::Ascii => {
                 if small_len == i8::MIN {
-                    let length = self.read_i32()?;
+                    let length = checked_str_len(self.read_i32()?)?;
                     let meta = WzStringMeta::new_ascii(self.pos.get(), length as u32);
-                    self.skip(length as usize);
+                    self.skip(length);
                     Ok(meta)
                 } else {
                     let length = (-small_len) as u32;
@@ -522,7 +522,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(WzStringMeta::empty())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let meta = WzStringMeta::new_pkg2_dir(self.pos.get(), length as u32);
             self.skip(length);
             Ok(meta)
@@ -534,7 +534,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(WzStringMeta::empty())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let meta = WzStringMeta::new_pkg2_dir(self.pos.get(), length as u32);
             self.skip(length);
             Ok(meta)
@@ -559,7 +559,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(String::new())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let offset = self.pos.get();
             let bytes = self.resolve_pkg2_dir_raw(offset, length)?;
 
@@ -586,7 +586,11 @@ impl<'a> WzSliceReader<'a> {
             0 | 0x73 => self.read_wz_string(),
             1 | 0x1B => {
                 let append_offset = self.read_i32()?;
-                self.read_wz_string_at_offset(offset + append_offset as usize)
+                self.read_wz_string_at_offset(checked_block_offset(
+                    offset,
+                    append_offset,
+                    self.get_size(),
+                )?)
             }
             _ => Ok(String::new()),
         }
@@ -599,7 +603,11 @@ impl<'a> WzSliceReader<'a> {
             0 | 0x73 => self.read_wz_string_meta(),
             1 | 0x1B => {
                 let append_offset = self.read_i32()?;
-                self.read_wz_string_meta_at(wz_img_offset + append_offset as usize)
+                self.read_wz_string_meta_at(checked_block_offset(
+                    wz_img_offset,
+                    append_offset,
+                    self.get_size(),
+                )?)
             }
             _ => Ok(WzStringMeta::empty()),
         }
@@ -836,8 +844,9 @@ pub fn read_wz_string_block(buf: &[u8], offset: usize) -> Result<String> {
     match string_type {
         0 | 0x73 => read_wz_string(&buf[1..]),
         1 | 0x1B => {
-            let append_offset = read_i32_at(buf, 1)? as usize;
-            read_wz_string(&buf[append_offset + offset..])
+            let append_offset = read_i32_at(buf, 1)?;
+            let start = checked_block_offset(offset, append_offset, buf.len())?;
+            read_wz_string(buf.get(start..).unwrap_or_default())
         }
         _ => Ok(String::new()),
     }
@@ -871,13 +880,13 @@ pub fn read_wz_long(buf: &[u8], offset: Option<usize>) -> Result<i64> {
 
 pub fn read_unicode_string(buf: &[u8], sl: i8) -> Result<String> {
     let len;
-    let mut offset: i32 = 0;
+    let mut offset: usize = 0;
 
     if sl == i8::MAX {
-        len = read_i32_at(buf, 0)?;
+        len = checked_str_len(read_i32_at(buf, 0)?)?;
         offset = 4;
     } else {
-        len = sl as i32;
+        len = checked_str_len(sl as i32)?;
     }
 
     if len == 0 {
@@ -885,21 +894,21 @@ pub fn read_unicode_string(buf: &[u8], sl: i8) -> Result<String> {
     }
 
     let strvec: Vec<u16> = (0..len)
-        .map(|i| resolve_unicode_char(read_u16_at(buf, (i * 2 + offset) as usize).unwrap(), i))
-        .collect();
+        .map(|i| Ok(resolve_unicode_char(read_u16_at(buf, i * 2 + offset)?, i as i32)))
+        .collect::<Result<_>>()?;
 
     Ok(String::from_utf16_lossy(&strvec).to_string())
 }
 
 pub fn read_ascii_string(buf: &[u8], sl: i8) -> Result<String> {
-    let len: i32;
-    let mut offset: i32 = 0;
+    let len;
+    let mut offset: usize = 0;
 
     if sl == i8::MIN {
-        len = read_i32_at(buf, 0)?;
+        len = checked_str_len(read_i32_at(buf, 0)?)?;
         offset = 4;
     } else {
-        len = (-sl).into();
+        len = checked_str_len(-i32::from(sl))?;
     }
 
     if len == 0 {
@@ -907,12 +916,25 @@ pub fn read_ascii_string(buf: &[u8], sl: i8) -> Result<String> {
     }
 
     let strvec: Vec<u8> = (0..len)
-        .map(|i| resolve_ascii_char(read_u8_at(buf, (i + offset) as usize).unwrap(), i))
-        .collect();
+        .map(|i| Ok(resolve_ascii_char(read_u8_at(buf, i + offset)?, i as i32)))
+        .collect::<Result<_>>()?;
 
     Ok(String::from_utf8_lossy(&strvec).to_string())
 }
 
+/// a string length read from the data, a negative one is malformed
+#[inline]
+fn checked_str_len(len: i32) -> Result<usize> {
+    usize::try_from(len).map_err(|_| Error::DecryptError(len as usize))
+}
+/// the position a string block refers to, `append_offset` can be negative
+#[inline]
+fn checked_block_offset(offset: usize, append_offset: i32, size: usize) -> Result<usize> {
+    offset
+        .checked_add_signed(append_offset as isize)
+        .ok_or(Error::OutOfBounds(size, offset))
+}
+
 #[inline]
 fn resolve_ascii_char(c: u8, i: i32) -> u8 {
     c ^ (i as u8).wrapping_add(0xAA)
-- 
2.43.0


From e9581980e517c82b070c1b462317b8be5d2fba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:56 +0000
Subject: [PATCH 02/38] fix: keep the whole text when creating a WzString with
 characters outside the BMP

---
 src/property/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property/string.rs b/src/property/string.rs
index 66f6810..12d609c 100644
--- a/src/property/string.rs
+++ b/src/property/string.rs
@@ -119,7 +119,7 @@ impl WzString {
             len = str.len();
             WzStringType::Ascii
         } else {
-            len = str.chars().count() * 2;
+            len = str.encode_utf16().count() * 2;
             WzStringType::Unicode
         };
 
@@ -140,7 +140,7 @@ impl WzString {
     pub fn from_str_pkg2_dir(str: &str) -> Self {
         let mut keys = Pkg2Decryptor::new_with_key(0x1A2B3C4D, DecrypterType::KMST1198);
 
-        let len = str.chars().count() * 2;
+        let len = str.encode_utf16().count() * 2;
 
         let encrypted = encrypt_str(&mut keys, str, &WzStringType::Pkg2Dir);
 
-- 
2.43.0


From ba8e52bf95b7df6f2df74c6c12b0c1e8e140b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:16 +0000
Subject: [PATCH 03/38] fix: drop the cached keys when the iv of an
 EcbDecryptor changes, and let a keyless one answer at()

---
 src/util/string_decryptor/ecb_decryptor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/string_decryptor/ecb_decryptor.rs b/src/util/string_decryptor/ecb_decryptor.rs
index 49935b3..86e50bd 100644
--- a/src/util/string_decryptor/ecb_decryptor.rs
+++ b/src/util/string_decryptor/ecb_decryptor.rs
@@ -64,6 +64,9 @@ impl Decryptor for EcbDecryptor {
     fn set_iv(&mut self, iv: u64, enc_type: DecrypterType) {
         self.enc_type = enc_type;
         self.iv = (iv as u32).to_le_bytes();
+        self.without_decrypt = iv as u32 == 0;
+        // the cached keys belong to the previous iv
+        self.keys.clear();
     }
 
     fn get_iv_hash(&self) -> u64 {
@@ -83,6 +86,9 @@ impl Decryptor for EcbDecryptor {
 
     /// force get key at index, will expand key size if not enough.
     fn at(&mut self, index: usize) -> &u8 {
+        if self.without_decrypt {
+            return &0;
+        }
         if self.keys.len() <= index {
             self.ensure_key_size(index + 1).unwrap();
         }
-- 
2.43.0


From 862aebb464431f341a3e102c86478d91b89ee1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:15 +0000
Subject: [PATCH 04/38] fix: reject a negative decrypted entry count instead of
 casting it to a huge usize

---
 src/util/offset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/offset.rs b/src/util/offset.rs
index 1a197e5..791114c 100644
--- a/src/util/offset.rs
+++ b/src/util/offset.rs
@@ -175,7 +175,7 @@ pub fn decrypt_pkg2_entry_count_64_v1(
 ) -> EntryCountResult<usize> {
     let dir_count =
         (encrypted_entry_count ^ header.hash1 as i64 ^ hash as i64 ^ 0x550EC4DD02C468EC) >> 16;
-    if dir_count > i32::MAX as i64 {
+    if !(0..=i32::MAX as i64).contains(&dir_count) {
         return Err(directory::Error::InvalidEntryCount);
     }
     Ok(dir_count as usize)
-- 
2.43.0


From a9c0bedac8a2c62d6daeca76f1ada6a9ad401da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:15 +0000
Subject: [PATCH 05/38] fix: no overflow panic in the version hash of a version
 with seven or more digits

---
 src/util/version/pkg1.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/version/pkg1.rs b/src/util/version/pkg1.rs
index 1bd785f..196991a 100644
--- a/src/util/version/pkg1.rs
+++ b/src/util/version/pkg1.rs
@@ -21,7 +21,10 @@ impl VersionGen {
 
         for i in bind_version.chars() {
             let char_code = i.to_ascii_lowercase() as u32;
-            version_hash = version_hash * 32 + char_code + 1;
+            version_hash = version_hash
+                .wrapping_mul(32)
+                .wrapping_add(char_code)
+                .wrapping_add(1);
         }
         version_hash
     }
-- 
2.43.0


From 9cc1e135e52732ce7d527579b4d921ea23e1066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:15 +0000
Subject: [PATCH 06/38] fix: find version hashes whose rotation amount is a
 multiple of 32

---
 src/util/version/pkg2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 68bb08c..9b00ab5 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -410,7 +410,8 @@ fn backtrack<'a, F: Fn(u32, u32, u32) -> bool>(
 
         let future_v_idx = (bit_idx.wrapping_add(info.s)) & 0x1f;
         if future_v_idx <= bit_idx {
-            let known_v_bit = (v_hash >> future_v_idx) & 1;
+            // with a rotation of 0 the bit looked up is the one being tried
+            let known_v_bit = ((v_hash | (v_bit << bit_idx)) >> future_v_idx) & 1;
             let target_v_xor_h2 = known_v_bit ^ ((info.target >> future_v_idx) & 1);
             if current_lhs_bit != target_v_xor_h2 {
                 continue;
-- 
2.43.0


From 78af6dcfd4ee07e3c3790d3c175cd09e9cc5e59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:15 +0000
Subject: [PATCH 07/38] fix: try u32::MAX too when brute forcing the version
 hash

---
 src/util/version/pkg2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 9b00ab5..523d5d5 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -437,12 +437,12 @@ fn brute_force_hash<F: Fn(u32, u32, u32) -> bool + Sync>(
     verifier: &F,
 ) -> Vec<u32> {
     #[cfg(feature = "rayon")]
-    return (0_u32..u32::MAX)
+    return (0_u32..=u32::MAX)
         .into_par_iter()
         .filter(|target_hash| verifier(hash1, hash2, *target_hash))
         .collect();
     #[cfg(not(feature = "rayon"))]
-    return (0_u32..u32::MAX)
+    return (0_u32..=u32::MAX)
         .into_iter()
         .filter(|target_hash| verifier(hash1, hash2, *target_hash))
         .collect();
-- 
2.43.0


From b965dd982bcc73a64de695d6d77a7915a3acd80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:49 +0000
Subject: [PATCH 08/38] fix: go on with the next generator when one finds no
 version hash at all

---
 src/util/version/pkg2.rs | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 523d5d5..2815f8b 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -349,25 +349,17 @@ impl Iterator for VersionGen {
     type Item = u32;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // use the current iterator if it exists
-        if let Some(current_iter) = self.current_iter.as_mut() {
-            if let Some(result) = current_iter.next() {
-                return Some(result);
-            } else {
-                self.current_iter = None;
+        loop {
+            // use the current iterator if it exists
+            if let Some(current_iter) = self.current_iter.as_mut() {
+                if let Some(result) = current_iter.next() {
+                    return Some(result);
+                }
             }
-        }
 
-        // try using the next generator
-        if self.current_iter.is_none() {
-            if let Some(generator) = self.generators.pop() {
-                self.current_iter = Some(generator.get_iter());
-                return self.current_iter.as_mut().unwrap().next();
-            }
+            // try using the next generator, or stop when there are no more to try
+            self.current_iter = Some(self.generators.pop()?.get_iter());
         }
-
-        // no more generators to try
-        None
     }
 }
 
-- 
2.43.0


From 0ecd84bad4bc3b2c10b6090f435f197641138dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:20 +0000
Subject: [PATCH 09/38] fix: decode DXT3/DXT5 images whose width or height is
 not a multiple of 4

---
 src/property/png.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index 6f93784..0745e76 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -382,7 +382,7 @@ fn get_image_from_dxt3(
         })?;
 
     // combine image buffer
-    let grid_row_count = width / 4;
+    let grid_row_count = width.div_ceil(4);
     let img_buffer = image::ImageBuffer::from_par_fn(width, height, |x, y| {
         *image_buffer_chunks[(x / 4 + y / 4 * grid_row_count) as usize].get_pixel(x % 4, y % 4)
     });
@@ -402,9 +402,10 @@ fn get_image_from_dxt3(
     let mut color_table = [Rgb::black(); 4];
     let mut color_idx_table = [0u8; 16];
 
+    let grid_row_count = width.div_ceil(4);
     for y in (0..height).step_by(4) {
         for x in (0..width).step_by(4) {
-            let offset = (y * width + x * 4) as usize;
+            let offset = (x / 4 + y / 4 * grid_row_count) as usize * 16;
             let chunk = &raw_data[offset..offset + 16];
             expand_alpha_table_dxt3(&mut alpha_table, &chunk[..8]);
 
@@ -414,8 +415,9 @@ fn get_image_from_dxt3(
             expand_color_table(&mut color_table, u0, u1);
             expand_color_index_table(&mut color_idx_table, &chunk[12..]);
 
-            for j in 0..4 {
-                for i in 0..4 {
+            // the last blocks can reach over the edges
+            for j in 0..4.min(height - y) {
+                for i in 0..4.min(width - x) {
                     let idx = (j * 4 + i) as usize;
                     let color_idx = color_idx_table[idx] as usize;
                     let color = color_table[color_idx];
@@ -479,7 +481,7 @@ fn get_image_from_dxt5(
             Ok(acc)
         })?;
 
-    let grid_row_count = width / 4;
+    let grid_row_count = width.div_ceil(4);
     let img_buffer = image::ImageBuffer::from_par_fn(width, height, |x, y| {
         *image_buffer_chunks[(x / 4 + y / 4 * grid_row_count) as usize].get_pixel(x % 4, y % 4)
     });
@@ -500,9 +502,10 @@ fn get_image_from_dxt5(
     let mut color_table = [Rgb::black(); 4];
     let mut color_idx_table = [0u8; 16];
 
+    let grid_row_count = width.div_ceil(4);
     for y in (0..height).step_by(4) {
         for x in (0..width).step_by(4) {
-            let offset = (y * width + x * 4) as usize;
+            let offset = (x / 4 + y / 4 * grid_row_count) as usize * 16;
             let chunk = &raw_data[offset..offset + 16];
             expand_alpha_table_dxt5(&mut alpha_table, chunk[0], chunk[1]);
             expand_alpha_index_table_dxt5(&mut alpha_idx_table, &chunk[2..8]);
@@ -513,8 +516,9 @@ fn get_image_from_dxt5(
             expand_color_table(&mut color_table, u0, u1);
             expand_color_index_table(&mut color_idx_table, &chunk[12..]);
 
-            for j in 0..4 {
-                for i in 0..4 {
+            // the last blocks can reach over the edges
+            for j in 0..4.min(height - y) {
+                for i in 0..4.min(width - x) {
                     let idx = (j * 4 + i) as usize;
                     let color_idx = color_idx_table[idx] as usize;
                     let color = color_table[color_idx];
-- 
2.43.0


From 82e1dde38596cc217259f7b33198918cef6ddd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:20 +0000
Subject: [PATCH 10/38] fix: make room for all blocks of BC7 and DXT3SM images
 whose size is not a multiple of 4

---
 src/property/png.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index 0745e76..ebb0d5d 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -216,11 +216,9 @@ impl WzPng {
             WzPngFormat::BGRA8888 | WzPngFormat::RGBA1010102 => {
                 Ok((self.width * self.height * 4) as usize)
             }
-            WzPngFormat::DXT3SM => Ok((self.width * self.height * 4) as usize),
-            WzPngFormat::DXT3 | WzPngFormat::DXT5 => {
+            WzPngFormat::DXT3 | WzPngFormat::DXT3SM | WzPngFormat::DXT5 | WzPngFormat::BC7 => {
                 Ok((self.width.div_ceil(4) * self.height.div_ceil(4) * 16) as usize)
             }
-            WzPngFormat::BC7 => Ok((self.width * (self.height & !3)) as usize),
             WzPngFormat::A8 => Ok((self.width * self.height) as usize),
             WzPngFormat::RGBA32Float => Ok((self.width * self.height * 16) as usize),
             WzPngFormat::RGB565_517 => {
-- 
2.43.0


From 07c1350797e51f79f21b7c9e2baba5da0e98948d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:50 +0000
Subject: [PATCH 11/38] fix: return an error instead of panicking when
 extracting truncated or malformed image data

---
 src/property/png.rs | 46 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index ebb0d5d..cf3b701 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -34,6 +34,9 @@ pub enum WzPngParseError {
     #[error("Unsupported header: {0}")]
     UnsupportedHeader(i32),
 
+    #[error("Invalid image size: {0}x{1}")]
+    InvalidSize(u32, u32),
+
     #[error("Error reading color: {0}")]
     ReadColorError(#[from] reader::Error),
 
@@ -170,7 +173,7 @@ impl WzPng {
     }
     #[inline]
     pub fn format(&self) -> WzPngFormat {
-        WzPngFormat::from(self.format1 + self.format2)
+        WzPngFormat::from(self.format1.wrapping_add(self.format2))
     }
     #[inline]
     fn has_zlib_header(&self) -> bool {
@@ -180,12 +183,18 @@ impl WzPng {
             || self.header == 0x5E78
     }
     pub fn extract_png(&self) -> Result<DynamicImage, WzPngParseError> {
-        let data = self
-            .reader
-            .get_slice(self.offset..(self.offset + self.block_size));
+        let data = self.get_data_slice(self.offset, self.block_size)?;
         /* decompress */
         let pixels = self.get_raw_data(data)?;
 
+        let expected_size = self.get_buff_size()?;
+        if pixels.len() < expected_size {
+            return Err(WzPngParseError::from(reader::Error::OutOfBounds(
+                pixels.len(),
+                expected_size,
+            )));
+        }
+
         match self.format() {
             WzPngFormat::BGRA4444 => get_image_from_bgra4444(pixels, self.width, self.height),
             WzPngFormat::BGRA8888 => get_image_from_bgra8888(pixels, self.width, self.height),
@@ -207,7 +216,20 @@ impl WzPng {
             _ => Err(WzPngParseError::UnknownFormat(self.format())),
         }
     }
+    fn get_data_slice(&self, offset: usize, len: usize) -> Result<&[u8], reader::Error> {
+        let end = offset
+            .checked_add(len)
+            .ok_or(reader::Error::OutOfBounds(self.reader.get_size(), offset))?;
+        self.reader.get_slice_or_error(offset..end)
+    }
     fn get_buff_size(&self) -> Result<usize, WzPngParseError> {
+        // up to 16 bytes are used for a pixel, make sure none of the sizes can overflow
+        self.width
+            .checked_add(3)
+            .zip(self.height.checked_add(3))
+            .and_then(|(width, height)| width.checked_mul(height)?.checked_mul(16))
+            .ok_or(WzPngParseError::InvalidSize(self.width, self.height))?;
+
         match self.format() {
             WzPngFormat::BGRA4444
             | WzPngFormat::ARGB1555
@@ -222,8 +244,8 @@ impl WzPng {
             WzPngFormat::A8 => Ok((self.width * self.height) as usize),
             WzPngFormat::RGBA32Float => Ok((self.width * self.height * 16) as usize),
             WzPngFormat::RGB565_517 => {
-                /* 128 = 16 * 16 / 2 */
-                Ok((self.width * self.height / 128) as usize)
+                /* one color for every 16x16 pixels */
+                Ok(((self.width / 16) * (self.height / 16) * 2) as usize)
             }
             _ => Err(WzPngParseError::UnknownFormat(self.format())),
         }
@@ -252,15 +274,16 @@ impl WzPng {
         let mut decrypted = Vec::with_capacity(self.block_size);
 
         while offset < total_end {
-            let block_size = self.reader.read_i32_at(offset).unwrap() as usize;
+            let block_size = self.reader.read_u32_at(offset)? as usize;
             offset += 4;
 
-            let data = self.reader.get_slice(offset..(offset + block_size));
+            let data = self.get_data_slice(offset, block_size)?;
             offset += block_size;
 
             decrypted.extend_from_slice(data);
 
-            keys.ensure_key_size(data.len()).unwrap();
+            keys.ensure_key_size(data.len())
+                .map_err(|_| reader::Error::DecryptError(data.len()))?;
 
             keys.decrypt_slice(&mut decrypted[end..(end + block_size)]);
 
@@ -268,7 +291,10 @@ impl WzPng {
         }
 
         /* the total chunk shoud start decryption at index 2 */
-        inflate(false, &decrypted[2..], capacity)
+        let deflated = decrypted
+            .get(2..)
+            .ok_or(reader::Error::OutOfBounds(decrypted.len(), 2))?;
+        inflate(false, deflated, capacity)
     }
 }
 
-- 
2.43.0


From c0ef442de7755c1fa165fed1012bae4ff0cbb202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 12/38] fix: direct image access reads past the list when an
 inner path component is missing

---
 src/util/parse_property.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 56b6994..1cdcf33 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -422,6 +422,7 @@ pub fn get_node(
     while let Some(current_name) = current_path {
         let entry_count = reader.read_wz_int()?;
         let next_path = pathes.next();
+        let mut entered = false;
         for _ in 0..entry_count {
             let name = reader.read_wz_string_block(origin_offset)?;
             let property_type = reader.read_u8()?;
@@ -479,6 +480,7 @@ pub fn get_node(
                         reader.skip(4);
                         reader.read_wz_string_block_meta(origin_offset)?;
                         reader.skip(2);
+                        entered = true;
                         break;
                     } else {
                         let block_size = reader.read_u32()?;
@@ -495,7 +497,8 @@ pub fn get_node(
             }
         }
 
-        if next_path.is_none() {
+        // nothing of this name to go into: the following bytes aren't a list of its children
+        if !entered {
             break;
         }
     }
-- 
2.43.0


From 0bd4ea1dc4b1dc2b36fcde8836a339f46be051f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 13/38] fix: direct image access into canvas, convex and raw
 data children

---
 src/util/parse_property.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 1cdcf33..18636e3 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -475,10 +475,28 @@ pub fn get_node(
                 }
                 9 => {
                     if name == current_name {
-                        current_path = next_path;
+                        let block_pos = reader.pos.get();
                         // skip block size
                         reader.skip(4);
-                        reader.read_wz_string_block_meta(origin_offset)?;
+                        if reader.read_wz_string_block(origin_offset)? != "Property" {
+                            // other containers store their children differently, just parse the whole block
+                            reader.seek(block_pos);
+                            let (mut name, mut node, _) = parse_property_node(
+                                name.into(),
+                                property_type,
+                                None,
+                                org_reader,
+                                reader,
+                                origin_offset,
+                            )?;
+                            for child_name in next_path.into_iter().chain(pathes) {
+                                let child = node.read().unwrap().at(child_name);
+                                node = child.ok_or(WzPropertyParseError::NodeNotFound)?;
+                                name = child_name.into();
+                            }
+                            return Ok((name, node));
+                        }
+                        current_path = next_path;
                         reader.skip(2);
                         entered = true;
                         break;
-- 
2.43.0


From 1d796d6dad3223edefe014f2fc0515a3c86e52c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 14/38] fix: malformed child counts of property lists abort the
 process

---
 src/util/parse_property.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 18636e3..e04b5f5 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -34,7 +34,9 @@ pub fn parse_property_list(
 ) -> Result<(WzNodeArcVec, Vec<WzNodeArc>), WzPropertyParseError> {
     let entry_count = reader.read_wz_int()?;
 
-    let mut childs: WzNodeArcVec = Vec::with_capacity(entry_count as usize);
+    // every entry takes at least one byte, don't trust the count beyond that
+    let capacity = usize::try_from(entry_count).unwrap_or(0);
+    let mut childs: WzNodeArcVec = Vec::with_capacity(capacity.min(reader.available()));
     let mut uol_nodes: Vec<WzNodeArc> = Vec::new();
 
     for _ in 0..entry_count {
@@ -274,7 +276,10 @@ pub fn parse_more(
 
             {
                 let mut node_write = node.write().unwrap();
-                node_write.children.reserve(entry_count as usize);
+                let capacity = usize::try_from(entry_count).unwrap_or(0);
+                node_write
+                    .children
+                    .reserve(capacity.min(reader.available()));
                 for i in 0..entry_count {
                     let name: WzNodeName = i.to_string().into();
                     let parsed_node = parse_extended_prop(
-- 
2.43.0


From 75cccfdae8cdb84005f572570dcb4c6458272949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 15/38] fix: malformed sound block panics instead of an error

---
 src/util/parse_property.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index e04b5f5..30ec90d 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -312,17 +312,17 @@ pub fn parse_more(
             let _sound_start_offset = reader.pos.get();
             let sound_size = reader.read_wz_int()? as u32;
             let sound_duration = reader.read_wz_int()? as u32;
-            let sound_offset = end_of_block - (sound_size as usize);
-
             let header_offset: usize = reader.pos.get();
 
-            let header_size = sound_offset - header_offset;
+            let sound_offset = end_of_block
+                .checked_sub(sound_size as usize)
+                .ok_or(reader::Error::OutOfBounds(end_of_block, reader.buf.len()))?;
+            // the sound data has to be there too
+            reader.get_slice_or_error(sound_offset..end_of_block)?;
+            let header = reader.get_slice_or_error(header_offset..sound_offset)?;
+            let header_size = header.len();
 
-            let sound_type = get_sound_type_from_header(
-                &reader.buf[header_offset..header_offset + header_size],
-                sound_size,
-                sound_duration,
-            );
+            let sound_type = get_sound_type_from_header(header, sound_size, sound_duration);
             let sound = WzSound::new(
                 org_reader,
                 sound_offset,
-- 
2.43.0


From 8cac7492700da0500b38e440d8f3879f2355ac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 16/38] fix: raw data and video beyond the end of the file
 panic when read

---
 src/util/parse_property.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 30ec90d..d7e4d05 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -383,6 +383,7 @@ pub fn parse_more(
 
             let raw_data_size = reader.read_wz_int()? as usize;
             let raw_data_offset = reader.pos.get();
+            check_data_size(reader, raw_data_size)?;
 
             node.write().unwrap().object_type =
                 WzRawData::new(org_reader, raw_data_offset, raw_data_size).into();
@@ -394,6 +395,7 @@ pub fn parse_more(
             reader.skip(3);
             let video_size = reader.read_wz_int()? as usize;
             let video_offset = reader.pos.get();
+            check_data_size(reader, video_size)?;
             // pos - size shoud same as end_of_block
             let node = WzNode::new(
                 &property_name,
@@ -410,6 +412,15 @@ pub fn parse_more(
     }
 }
 
+/// the data behind the current position have to be inside the file
+fn check_data_size(reader: &WzSliceReader, size: usize) -> Result<(), reader::Error> {
+    let available = reader.available();
+    if size > available {
+        return Err(reader::Error::OutOfBounds(size, available));
+    }
+    Ok(())
+}
+
 /// Direct get node from path with providing reader. see [`crate::WzImage::at_path`].
 pub fn get_node(
     path: &str,
-- 
2.43.0


From a7e06ef3454598d23dc4acb59d0c7e5755d9a864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 17/38] fix: canvas with the smallest data length panics

---
 src/util/parse_property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index d7e4d05..dfa7a20 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -247,7 +247,7 @@ pub fn parse_more(
             let _ = reader.read_wz_int()?;
             reader.skip(2);
             /* unknown end */
-            let canvas_slice_size = (reader.read_i32()? - 1) as usize;
+            let canvas_slice_size = reader.read_i32()?.wrapping_sub(1) as usize;
             reader.skip(1);
             let canvas_offset = reader.pos.get();
             let canvas_header = reader.read_u16()?;
-- 
2.43.0


From 1ac17fab02d2ff3f854f5cacbf6beea9c84a6082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 18/38] fix: malformed text, packed text and lua images panic

---
 src/wz_image.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/wz_image.rs b/src/wz_image.rs
index b04bdcd..94a747a 100644
--- a/src/wz_image.rs
+++ b/src/wz_image.rs
@@ -162,6 +162,9 @@ impl WzImage {
         if self.name.ends_with(".txt") {
             let name: WzNodeName = String::from("text.txt").into();
 
+            self.reader
+                .get_slice_or_error(self.offset..self.offset.saturating_add(self.block_size))?;
+
             let wz_raw_data = WzRawData::new(&self.reader, self.offset, self.block_size);
             let raw_data_node = WzNode::new(&name, wz_raw_data, parent);
 
@@ -173,6 +176,8 @@ impl WzImage {
                 if self.name.ends_with(".lua") {
                     let len = reader.read_wz_int()?;
                     let offset = reader.pos.get();
+                    self.reader
+                        .get_slice_or_error(offset..offset.saturating_add(len as usize))?;
 
                     let name: WzNodeName = String::from("Script").into();
 
@@ -190,13 +195,16 @@ impl WzImage {
             WzImageHeaderType::PackText => {
                 let property_string = String::from_iter(
                     reader
-                        .get_slice(self.offset..self.offset + 9)
+                        .get_slice_or_error(self.offset..self.offset + 9)?
                         .iter()
                         .map(|&b| b as char),
                 );
                 if property_string != "#Property" {
                     return Err(Error::UnknownImageHeader(header_byte, reader.pos.get()));
                 }
+                self.reader.get_slice_or_error(
+                    self.offset + 9..self.offset.saturating_add(self.block_size),
+                )?;
                 let name: WzNodeName = String::from("text.txt").into();
                 let wz_raw_data =
                     WzRawData::new(&self.reader, self.offset + 9, self.block_size - 9);
-- 
2.43.0


From 9d06e7433c0cd98eb5f1f5439aeb8abdc52e0ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 19/38] fix: accept every version for a PKG1 file without
 version header

---
 src/file.rs              | 3 +--
 src/util/version/pkg1.rs | 6 +++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 3f41763..2f037ba 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -1,4 +1,5 @@
 use crate::util::string_decryptor::pkg2_decryptor::{get_kmst1199_key, get_kmst1202_key};
+use crate::util::version::pkg1::WZ_VERSION_HEADER_64BIT_START;
 use crate::{
     directory, reader, util, util::profile, util::string_decryptor, util::version::PKGVersion,
     wz_image, SharedWzStringDecryptor, WzDirectory, WzNodeArc, WzNodeArcVec, WzNodeCast,
@@ -11,8 +12,6 @@ use std::sync::{Arc, RwLock};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-const WZ_VERSION_HEADER_64BIT_START: u16 = 770;
-
 #[derive(Debug, thiserror::Error)]
 pub enum Error {
     #[error(transparent)]
diff --git a/src/util/version/pkg1.rs b/src/util/version/pkg1.rs
index 196991a..9988c26 100644
--- a/src/util/version/pkg1.rs
+++ b/src/util/version/pkg1.rs
@@ -1,3 +1,6 @@
+/// Stands in for the version header of a (64-bit client) wz file that doesn't have one.
+pub(crate) const WZ_VERSION_HEADER_64BIT_START: u16 = 770;
+
 pub struct VersionGen {
     encver: i32,
 
@@ -32,7 +35,8 @@ impl VersionGen {
     pub fn check_and_get_version_hash(&self) -> u32 {
         let version_hash = Self::calculate_version_hash(self.current);
 
-        if self.encver == self.current {
+        // without version header there is nothing the version can be checked against
+        if self.encver == self.current || self.encver == WZ_VERSION_HEADER_64BIT_START as i32 {
             return version_hash;
         }
         let enc = 0xff
-- 
2.43.0


From 8858d3266dfbea027fb3be388bcec5e5a05fafcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 20/38] fix: reject directory entries whose size or name
 position is out of range instead of panicking

---
 src/directory.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index 2bb258a..cecd9dc 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -345,7 +345,7 @@ impl WzDirectoryEntry {
             WzDirectoryType::MetaAtOffset => {
                 let str_offset = reader.read_i32()?;
 
-                let offset = reader.header.fstart + str_offset as usize;
+                let offset = reader.header.fstart.wrapping_add(str_offset as usize);
 
                 entry.dir_type = reader.read_u8_at(offset)?.into();
                 entry.name = reader.read_wz_string_meta_at(offset + 1)?;
@@ -412,8 +412,9 @@ impl WzDirectoryEntry {
     }
 
     pub fn verify(&self, reader: &WzSliceReader) -> Result<(), Error> {
-        if !reader.is_valid_pos(self.offset + self.size) {
-            return Err(Error::InvalidWzVersion);
+        match self.offset.checked_add(self.size) {
+            Some(end) if reader.is_valid_pos(end) => {}
+            _ => return Err(Error::InvalidWzVersion),
         }
 
         if self.dir_type == WzDirectoryType::WzImage {
-- 
2.43.0


From ba0824b625cb2337c2f0dc65fd47a5ea459e5a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 21/38] fix: report an unreadable entry name as an error
 instead of panicking

---
 src/directory.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index cecd9dc..d28e7e4 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -125,9 +125,14 @@ impl WzDirectory {
             .entries
             .iter()
             .map(|entry| {
-                entry.into_wz_node_tuple(parent, self.hash, &self.profile, Arc::clone(&self.reader))
+                entry.try_into_wz_node_tuple(
+                    parent,
+                    self.hash,
+                    &self.profile,
+                    Arc::clone(&self.reader),
+                )
             })
-            .collect();
+            .collect::<Result<_, Error>>()?;
 
         // if there has any directory, parse it since it's probably cheep
         for (_, node) in nodes.iter() {
@@ -477,15 +482,4 @@ impl WzDirectoryEntry {
 
         Ok((name.clone(), node.into_lock()))
     }
-
-    pub fn into_wz_node_tuple(
-        &self,
-        parent: &WzNodeArc,
-        hash: u64,
-        profile: &WzProfile,
-        reader: Arc<WzReader>,
-    ) -> (WzNodeName, WzNodeArc) {
-        self.try_into_wz_node_tuple(parent, hash, profile, reader)
-            .unwrap()
-    }
 }
-- 
2.43.0


From 13b8188267759152992b39e4ba08058ed6120c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 22/38] fix: don't judge a PKG2 directory by the sign of its
 encrypted entry count

---
 src/directory.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index d28e7e4..2066b68 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -431,14 +431,15 @@ impl WzDirectoryEntry {
         } else if self.dir_type == WzDirectoryType::WzDirectory {
             reader.seek(self.offset);
 
-            let entry_count = if reader.header.is_pkg2_64() {
-                reader.read_wz_int64()?
+            if reader.header.is_pkg2_64() {
+                reader.read_wz_int64()?;
             } else {
-                reader.read_wz_int()? as i64
-            };
+                let entry_count = reader.read_wz_int()?;
 
-            if entry_count < 0 {
-                return Err(Error::InvalidWzVersion);
+                // the count is encrypted in pkg2, so it can be any value
+                if reader.header.ident == PKGVersion::V1 && entry_count < 0 {
+                    return Err(Error::InvalidWzVersion);
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 41eff85ecff82f66bb160f47bce43d027e2a44ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 23/38] fix: reject a directory that contains itself instead of
 recursing without end

---
 src/directory.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/directory.rs b/src/directory.rs
index 2066b68..0b77c4b 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -111,10 +111,23 @@ impl WzDirectory {
     }
 
     pub fn resolve_children(&mut self, parent: &WzNodeArc) -> Result<WzNodeArcVec, Error> {
+        self.resolve_children_within(parent, &mut Vec::new())
+    }
+
+    fn resolve_children_within(
+        &mut self,
+        parent: &WzNodeArc,
+        ancestors: &mut Vec<usize>,
+    ) -> Result<WzNodeArcVec, Error> {
         if self.block_size == 0 {
             return Ok(vec![]);
         }
 
+        // a directory can't be inside of itself
+        if ancestors.contains(&self.offset) {
+            return Err(Error::InvalidWzVersion);
+        }
+
         self.prepare_entries()?;
 
         if self.calculate_offset_and_verify().is_err() {
@@ -135,18 +148,20 @@ impl WzDirectory {
             .collect::<Result<_, Error>>()?;
 
         // if there has any directory, parse it since it's probably cheep
+        ancestors.push(self.offset);
         for (_, node) in nodes.iter() {
             let mut write = node.write().unwrap();
             if let WzObjectType::Directory(dir) = &mut write.object_type {
                 dir.profile = self.profile.clone();
                 dir.hash = self.hash;
-                let children = dir.resolve_children(node)?;
+                let children = dir.resolve_children_within(node, ancestors)?;
 
                 for (name, child) in children {
                     write.children.insert(name, child);
                 }
             }
         }
+        ancestors.pop();
 
         self.verify_status = WzDirectoryVerifyStatus::Verified;
         self.entries.clear();
-- 
2.43.0


From 34b547ec8098218c3b52015014d350f77684cae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 24/38] fix: find the image on the way to a node by whole path
 components

---
 src/util/node_util.rs | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 964a801..f6275f9 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -1,4 +1,4 @@
-use crate::{node::Error, WzNode, WzNodeArc, WzNodeCast};
+use crate::{node::Error, WzNode, WzNodeArc, WzNodeCast, WzObjectType};
 use std::sync::Arc;
 
 #[inline]
@@ -114,29 +114,18 @@ pub fn get_image_node_from_path<'a>(
         return None;
     }
 
-    if path.contains(".img") {
-        let mut pathes = path.split_inclusive(".img");
-        let img_path = pathes.next()?;
-        let rest_path = pathes.next()?.strip_prefix('/')?;
-
-        let image_node = node.read().unwrap().at_path(img_path)?;
-
-        return Some((image_node, rest_path));
-    }
-
     let mut node = node.clone();
-    let mut slash_index = 0;
-    for split_path in path.split('/') {
-        let target = node.read().unwrap().at(split_path);
-        if let Some(target) = target {
-            node = target;
-            slash_index += split_path.len() + 1;
-            if node.read().unwrap().try_as_image().is_some() {
-                let rest = path.split_at(slash_index).1;
-                return Some((node, rest));
-            }
-        } else {
-            return None;
+    let mut rest_path = path;
+    while let Some((name, rest)) = rest_path.split_once('/') {
+        let target = node.read().unwrap().at(name)?;
+        node = target;
+        rest_path = rest;
+        let is_image = matches!(
+            node.read().unwrap().object_type,
+            WzObjectType::Image(_) | WzObjectType::MsImage(_)
+        );
+        if is_image {
+            return Some((node, rest_path));
         }
     }
     None
-- 
2.43.0


From 62a35d0cdfdae9d50c633a32d0efcd2d483bc385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 25/38] fix: get_resolved_uol_path resolves "." as documented

---
 src/util/node_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index f6275f9..a3d5918 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -45,7 +45,7 @@ pub fn get_resolved_uol_path(path: &str, uol_path: &str) -> String {
     for p in uol_path.split('/') {
         if p == ".." && !pathes.is_empty() {
             pathes.pop();
-        } else {
+        } else if p != "." {
             pathes.push(p);
         }
     }
-- 
2.43.0


From 6e21920d1aa212ff5bf4b5b6b4835f3c15e330c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:18 +0000
Subject: [PATCH 26/38] fix: get_image gives an error for links that go in
 circles

---
 src/property/png.rs | 52 ++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index cf3b701..672737a 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -56,30 +56,42 @@ type ImageBufferRgbChunk = ImageBuffer<Rgb<u8>, Vec<u8>>;
 
 /// A helper get image from `WzNodeArc`, will also resolve `_inlink` or `_outlink`
 pub fn get_image(node: &WzNodeArc) -> Result<DynamicImage, WzPngParseError> {
-    let node_read = node.read().unwrap();
-    match &node_read.object_type {
-        WzObjectType::Property(WzSubProperty::PNG(png)) => {
-            let inlink_target = node_read
-                .at("_inlink")
-                .and_then(|node| resolve_string_from_node(&node).ok())
-                .and_then(|inlink| node_util::resolve_inlink(&inlink, node));
-
-            if let Some(target) = inlink_target {
-                return get_image(&target);
-            }
+    let mut node = Arc::clone(node);
+    let mut visited: Vec<WzNodeArc> = Vec::new();
+
+    loop {
+        /* the node must not stay locked while resolving the link, the link may lead through it */
+        let get_link = |name: &str| {
+            let link_node = node.read().unwrap().at(name)?;
+            resolve_string_from_node(&link_node).ok()
+        };
 
-            let outlink_target = node_read
-                .at("_outlink")
-                .and_then(|node| resolve_string_from_node(&node).ok())
-                .and_then(|outlink| node_util::resolve_outlink(&outlink, node, true));
+        if !matches!(
+            node.read().unwrap().object_type,
+            WzObjectType::Property(WzSubProperty::PNG(_))
+        ) {
+            return Err(WzPngParseError::NotPngProperty);
+        }
 
-            if let Some(target) = outlink_target {
-                return get_image(&target);
-            }
+        let target = get_link("_inlink")
+            .and_then(|inlink| node_util::resolve_inlink(&inlink, &node))
+            .or_else(|| {
+                get_link("_outlink")
+                    .and_then(|outlink| node_util::resolve_outlink(&outlink, &node, true))
+            });
+
+        let Some(target) = target else {
+            return match &node.read().unwrap().object_type {
+                WzObjectType::Property(WzSubProperty::PNG(png)) => png.extract_png(),
+                _ => Err(WzPngParseError::NotPngProperty),
+            };
+        };
 
-            png.extract_png()
+        visited.push(node);
+        if visited.iter().any(|node| Arc::ptr_eq(node, &target)) {
+            return Err(WzPngParseError::LinkError);
         }
-        _ => Err(WzPngParseError::NotPngProperty),
+        node = target;
     }
 }
 
-- 
2.43.0


From 247f4425e91affde5ecb8c1984b87bf21a2af7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 27/38] fix: unparsed directories and ms files can be parsed
 again

---
 src/node.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 680878a..ebc5f4a 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -234,10 +234,14 @@ impl WzNode {
         match &mut self.object_type {
             WzObjectType::Directory(directory) => {
                 directory.is_parsed = false;
+                directory.reset_entry_parse();
             }
             WzObjectType::File(file) => {
                 file.is_parsed = false;
             }
+            WzObjectType::MsFile(file) => {
+                file.is_parsed = false;
+            }
             WzObjectType::Image(image) => {
                 image.is_parsed = false;
             }
-- 
2.43.0


From 193f14268bf1a00e5f092b07bef9bf6fc5294fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 28/38] fix: guess the lua iv also when a character crosses the
 tested beginning

---
 src/property/lua.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/property/lua.rs b/src/property/lua.rs
index 6fa3ed9..c521a4b 100644
--- a/src/property/lua.rs
+++ b/src/property/lua.rs
@@ -75,7 +75,13 @@ impl WzLua {
                 write.decrypt_slice(&mut decoded);
             }
 
-            if String::from_utf8(decoded).is_ok() {
+            let is_text = match std::str::from_utf8(&decoded) {
+                Ok(_) => true,
+                // the last character can be cut off when only testing the beginning
+                Err(e) => len < self.length && e.error_len().is_none(),
+            };
+
+            if is_text {
                 return Some(keys);
             }
         }
-- 
2.43.0


From 02cdb1a523838105454256edce65efad0b8d7bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 29/38] fix: floats that are not finite are null in simple
 json, not a panic

---
 src/property/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/property/mod.rs b/src/property/mod.rs
index 2e2d368..6df6e45 100644
--- a/src/property/mod.rs
+++ b/src/property/mod.rs
@@ -92,8 +92,9 @@ impl From<WzValue> for Value {
             WzValue::Short(value) => value.into(),
             WzValue::Int(value) => value.into(),
             WzValue::Long(value) => value.into(),
-            WzValue::Float(value) => Value::Number(Number::from_f64(value.into()).unwrap()),
-            WzValue::Double(value) => Value::Number(Number::from_f64(value).unwrap()),
+            // NaN and infinity are null, JSON has no such numbers
+            WzValue::Float(value) => Number::from_f64(value.into()).map_or(Value::Null, Value::Number),
+            WzValue::Double(value) => Number::from_f64(value).map_or(Value::Null, Value::Number),
             WzValue::Vector(Vector2D(x, y)) => {
                 let mut vec = serde_json::Map::new();
                 vec.insert("x".to_string(), x.into());
-- 
2.43.0


From f2d934570bacb1e2c3370ca2d04b01681cb7e7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:09 +0000
Subject: [PATCH 30/38] fix: null values survive the way through full json

---
 src/property/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/property/mod.rs b/src/property/mod.rs
index 6df6e45..77cab66 100644
--- a/src/property/mod.rs
+++ b/src/property/mod.rs
@@ -49,7 +49,6 @@ pub enum WzSubProperty {
     Convex,
     Sound(Box<WzSound>),
     PNG(Box<WzPng>),
-    #[cfg_attr(feature = "serde", serde(other))]
     Property,
 }
 
-- 
2.43.0


From ef528c6744f0cd8c638413f4b791e61e8175f864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 31/38] fix: a damaged .ms header is an error, not a panic

---
 src/ms/header.rs | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/ms/header.rs b/src/ms/header.rs
index 4ee8cf2..915d1a6 100644
--- a/src/ms/header.rs
+++ b/src/ms/header.rs
@@ -25,6 +25,8 @@ pub enum Error {
     UnsupportedChacha20Version(u8),
     #[error("Hash mismatch, expected {0} but got {1}")]
     HashMismatch(i32, i32),
+    #[error("Invalid salt length: {0}")]
+    InvalidSaltLength(usize),
 }
 
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -58,7 +60,7 @@ impl MsHeader {
         // all the code is from https://github.com/Kagamia/WzComparerR2/pull/271/files#diff-d0d53b2411f7d680fb0c7c32bbf10138be0f7e662555cbc28d27353fbd2741d0
         // 1. random bytes
         let rand_byte_count = sum_str(&file_name) % 312 + 30;
-        let rand_bytes = reader.get_slice(offset..rand_byte_count);
+        let rand_bytes = reader.get_slice_or_error(offset..rand_byte_count)?;
         offset += rand_byte_count;
 
         // 2. encrypted snowKeySalt
@@ -66,12 +68,15 @@ impl MsHeader {
         let hashed_salt_len_i32 = reader.read_i32_at(offset)?;
         // plus 1 and skip 3 bytes
         offset += 4;
-        let salt_len = hashed_salt_len ^ rand_bytes[0];
-        let salt_byte_len = (salt_len * 2) as usize;
-        let salt_bytes = reader.get_slice(offset..offset + salt_byte_len);
+        let salt_len = (hashed_salt_len ^ rand_bytes[0]) as usize;
+        if salt_len > rand_byte_count {
+            return Err(Error::InvalidSaltLength(salt_len));
+        }
+        let salt_byte_len = salt_len * 2;
+        let salt_bytes = reader.get_slice_or_error(offset..offset + salt_byte_len)?;
         offset += salt_byte_len;
 
-        let salt_string = (0..salt_len as usize)
+        let salt_string = (0..salt_len)
             .map(|i| {
                 let byte = rand_bytes[i];
                 let byte2 = salt_bytes[i * 2];
@@ -84,13 +89,13 @@ impl MsHeader {
 
         let file_name_with_salt_bytes = file_name_with_salt.as_bytes();
         let snow_key: [u8; MS_SNOW2_KEY_SIZE] = core::array::from_fn(|i| {
-            file_name_with_salt_bytes[i % file_name_with_salt.len()] + i as u8
+            file_name_with_salt_bytes[i % file_name_with_salt.len()].wrapping_add(i as u8)
         });
         let mut snow_decryptor = Snow2Decryptor::new(snow_key);
 
         let hstart = offset;
         // the snow decryptor is decrypting 4 bytes at a time, so we need to decrypt 12 bytes for only 9 bytes of data
-        let header_bytes = reader.get_slice(offset..offset + 12);
+        let header_bytes = reader.get_slice_or_error(offset..offset + 12)?;
 
         let mut decrypt_data = [0_u8; 12];
         decrypt_data.copy_from_slice(header_bytes);
@@ -111,7 +116,10 @@ impl MsHeader {
             .map(|s| u16::from_le_bytes([s[0], s[1]]))
             .fold(0, |acc: i32, x| acc.wrapping_add(x as i32));
 
-        let actual_hash = hashed_salt_len_i32 + version as i32 + entry_count + sum_of_salt_byte;
+        let actual_hash = hashed_salt_len_i32
+            .wrapping_add(version as i32)
+            .wrapping_add(entry_count)
+            .wrapping_add(sum_of_salt_byte);
         if hash != actual_hash {
             return Err(Error::HashMismatch(hash, actual_hash));
         }
@@ -143,7 +151,7 @@ impl MsHeader {
         // 1. random bytes
         let rand_byte_count = sum_str(&file_name) % 312 + 30;
         let rand_bytes: Vec<u8> = reader
-            .get_slice(offset..rand_byte_count)
+            .get_slice_or_error(offset..rand_byte_count)?
             .iter()
             .map(|b| ((*b as i8) >> 1) as u8)
             .collect();
@@ -162,14 +170,20 @@ impl MsHeader {
         let _hashed_salt_len_i32 = reader.read_i32_at(offset)?;
         offset += 4;
         let salt_len = (hashed_salt_len ^ rand_bytes[0]) as usize;
-        let salt_byte_len = (salt_len * 2) as usize;
-        let salt_bytes = reader.get_slice(offset..offset + salt_byte_len).to_vec();
+        if salt_len > rand_byte_count {
+            return Err(Error::InvalidSaltLength(salt_len));
+        }
+        let salt_byte_len = salt_len * 2;
+        let salt_bytes = reader
+            .get_slice_or_error(offset..offset + salt_byte_len)?
+            .to_vec();
         offset += salt_byte_len;
 
         let salt_string = (0..salt_len as usize)
             .map(|i| {
                 let a = rand_bytes[i] ^ salt_bytes[i * 2];
-                let b = ((a | 0x4B) << 1) - a - 75;
+                // same as ((a | 0x4B) << 1) - a - 75
+                let b = a ^ 0x4B;
                 b as char
             })
             .collect::<String>();
@@ -181,13 +195,13 @@ impl MsHeader {
         let file_name_with_salt = format!("{}{}", file_name, &salt_string);
         let file_name_with_salt_bytes = file_name_with_salt.as_bytes();
         let chacha20_key: [u8; MS_CHACHA20_KEY_SIZE] = core::array::from_fn(|i| {
-            (file_name_with_salt_bytes[i % file_name_with_salt.len()] + i as u8)
+            file_name_with_salt_bytes[i % file_name_with_salt.len()].wrapping_add(i as u8)
                 ^ MS_CHACHA20_KEY_BASE[i]
         });
         let empty_nonce = [0; MS_CHACHA20_NONCE_SIZE];
 
         let mut chacha20_reader = ChaCha20Reader::new(
-            reader.get_slice(offset..offset + 128),
+            reader.get_slice_or_error(offset..offset + 64)?,
             &chacha20_key,
             &empty_nonce,
         );
-- 
2.43.0


From c89a9bb897d5ba223791678be2029eaf20ad3cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 32/38] fix: reading past the end of .ms data is an error, not
 a panic

---
 src/ms/chacha20_reader.rs | 36 ++++++++++++++++++++++++------------
 src/ms/snow2_reader.rs    |  6 ++++++
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/ms/chacha20_reader.rs b/src/ms/chacha20_reader.rs
index 1cc4141..085df93 100644
--- a/src/ms/chacha20_reader.rs
+++ b/src/ms/chacha20_reader.rs
@@ -39,15 +39,13 @@ impl<'a> ChaCha20Reader<'a> {
     }
     pub fn read_u32(&mut self) -> Result<u32, Error> {
         let mut buffer = [0_u8; 4];
-        buffer.copy_from_slice(&self.data[self.offset..self.offset + 4]);
-        self.apply_keystream(&mut buffer);
+        self.apply_keystream(&mut buffer)?;
 
         buffer.pread_with::<u32>(0, LE).map_err(Error::from)
     }
     pub fn read_i32(&mut self) -> Result<i32, Error> {
         let mut buffer = [0_u8; 4];
-        buffer.copy_from_slice(&self.data[self.offset..self.offset + 4]);
-        self.apply_keystream(&mut buffer);
+        self.apply_keystream(&mut buffer)?;
 
         buffer.pread_with::<i32>(0, LE).map_err(Error::from)
     }
@@ -61,8 +59,9 @@ impl<'a> ChaCha20Reader<'a> {
         String::from_utf16(&utf16_vec).map_err(Error::from)
     }
     pub fn read_bytes(&mut self, len: usize) -> Result<Vec<u8>, Error> {
-        let mut buffer = self.data[self.offset..self.offset + len].to_vec();
-        self.apply_keystream(&mut buffer);
+        self.check_remaining(len)?;
+        let mut buffer = vec![0_u8; len];
+        self.apply_keystream(&mut buffer)?;
         Ok(buffer)
     }
     pub fn write_bytes_to(&mut self, dest_buffer: &mut [u8], len: usize) -> Result<(), Error> {
@@ -70,18 +69,29 @@ impl<'a> ChaCha20Reader<'a> {
             return Err(Error::DecryptError(len));
         }
 
-        dest_buffer.copy_from_slice(&self.data[self.offset..self.offset + len]);
-        self.apply_keystream(dest_buffer);
-
+        self.apply_keystream(&mut dest_buffer[..len])
+    }
+    /// Make sure there still are `len` bytes, either already decrypted or in the data.
+    fn check_remaining(&self, len: usize) -> Result<(), Error> {
+        let decrypted = READER_CHUNK_SIZE - self.buffer_offset;
+        let end = self.offset.saturating_add(len.saturating_sub(decrypted));
+        if end > self.data.len() {
+            return Err(Error::OutOfBounds(end, self.data.len()));
+        }
         Ok(())
     }
-    pub fn apply_keystream(&mut self, data: &mut [u8]) {
+    /// Write the next decrypted bytes into `data`.
+    pub fn apply_keystream(&mut self, data: &mut [u8]) -> Result<(), Error> {
+        self.check_remaining(data.len())?;
+
         let mut remain = data.len();
         let mut start = 0;
         while remain > 0 {
             if self.buffer_offset >= READER_CHUNK_SIZE {
-                self.buffer
-                    .copy_from_slice(&self.data[self.offset..self.offset + READER_CHUNK_SIZE]);
+                // the last chunk can be shorter
+                let chunk_size = READER_CHUNK_SIZE.min(self.data.len() - self.offset);
+                self.buffer[..chunk_size]
+                    .copy_from_slice(&self.data[self.offset..self.offset + chunk_size]);
                 self.decryptor.apply_keystream(&mut self.buffer);
                 self.offset += READER_CHUNK_SIZE;
                 self.buffer_offset = 0;
@@ -100,5 +110,7 @@ impl<'a> ChaCha20Reader<'a> {
         if self.buffer_offset >= READER_CHUNK_SIZE {
             self.decryptor.state.state.set_stream_param(0, 0);
         }
+
+        Ok(())
     }
 }
diff --git a/src/ms/snow2_reader.rs b/src/ms/snow2_reader.rs
index dc67c5f..8b501a3 100644
--- a/src/ms/snow2_reader.rs
+++ b/src/ms/snow2_reader.rs
@@ -76,6 +76,12 @@ impl<'a> Snow2Reader<'a> {
         String::from_utf16(&utf16_vec).map_err(Error::from)
     }
     pub fn read_bytes(&mut self, len: usize) -> Result<Vec<u8>, Error> {
+        let decrypted = self.buffer_len;
+        let end = self.offset.saturating_add(len.saturating_sub(decrypted));
+        if end > self.data.len() {
+            return Err(Error::OutOfBounds(end, self.data.len()));
+        }
+
         let mut vec = vec![0_u8; len];
 
         self.write_bytes_to(&mut vec, len)?;
-- 
2.43.0


From 1e8307aee61d9ed2456d14d3c1039f80a2657b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 33/38] fix: the key of a .ms file's entries can be derived
 from every name

---
 src/ms/file.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ms/file.rs b/src/ms/file.rs
index 2abc5da..e0b3880 100644
--- a/src/ms/file.rs
+++ b/src/ms/file.rs
@@ -85,7 +85,7 @@ impl MsFile {
         for i in 0_u8..16_u8 {
             let byte = file_name_with_salt_bytes
                 [file_name_with_salt_len - 1 - i as usize % file_name_with_salt_len];
-            snow_key[i as usize] = i + (i % 3 + 2).wrapping_mul(byte);
+            snow_key[i as usize] = i.wrapping_add((i % 3 + 2).wrapping_mul(byte));
         }
 
         let data = self.reader.get_slice(0..self.block_size);
@@ -161,7 +161,7 @@ impl MsFile {
         let chacha20_key2: [u8; MS_CHACHA20_KEY_SIZE] = core::array::from_fn(|i| {
             let byte = file_name_with_salt_bytes
                 [file_name_with_salt_len - 1 - i % file_name_with_salt_len];
-            MS_CHACHA20_KEY_BASE[i] ^ ((i as u8) + (((i as u8) % 3 + 2).wrapping_mul(byte)))
+            MS_CHACHA20_KEY_BASE[i] ^ (i as u8).wrapping_add(((i as u8) % 3 + 2).wrapping_mul(byte))
         });
         let empty_nonce = [0; MS_CHACHA20_NONCE_SIZE];
 
-- 
2.43.0


From f6952a638a391bbbe61412fa8f924cfcc7903bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 34/38] fix: .ms images whose names are not ASCII can be
 decrypted

---
 src/ms/ms_image.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/ms/ms_image.rs b/src/ms/ms_image.rs
index 017e0da..a0d4160 100644
--- a/src/ms/ms_image.rs
+++ b/src/ms/ms_image.rs
@@ -127,15 +127,12 @@ impl MsImage {
          // extract each  digit from key_hash, like 1234 -> [1,2,3,4]
          let key_hash_digits: Vec<u8> = key_hash.to_string().chars().map(|c| c as u8 - 48).collect();
 
+        let entry_name_units: Vec<u16> = self.meta.entry_name.encode_utf16().collect();
+
         // key
         let mut img_key = [0_u8; MS_CHACHA20_KEY_SIZE];
         for i in 0..MS_CHACHA20_KEY_SIZE {
-            let char = self
-                .meta
-                .entry_name
-                .chars()
-                .nth(i % self.meta.entry_name.len())
-                .unwrap() as u8;
+            let char = entry_name_units[i % entry_name_units.len()] as u8;
             let digit = key_hash_digits[i % key_hash_digits.len()] % 2;
 
             let ekey_idx = ((key_hash_digits[(i + 2) % key_hash_digits.len()] + i as u8)
-- 
2.43.0


From 92f782e7058cae646de226b038de557dca62a3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 35/38] fix: damaged entries of .ms files are an error, not a
 panic

---
 src/ms/file.rs     | 32 ++++++++++++++++++++++++--------
 src/ms/ms_image.rs | 28 ++++++++++++++++------------
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/ms/file.rs b/src/ms/file.rs
index e0b3880..283e184 100644
--- a/src/ms/file.rs
+++ b/src/ms/file.rs
@@ -42,6 +42,14 @@ pub struct MsFile {
     pub header: MsHeader,
 }
 
+/// Every entry has a name, it's also a part of the key of the entry.
+fn read_name_len(len: i32) -> Result<usize, Error> {
+    match usize::try_from(len) {
+        Ok(len) if len > 0 => Ok(len),
+        _ => Err(Error::InvalidMsFile),
+    }
+}
+
 impl MsFile {
     pub fn from_file<P>(path: P) -> Result<MsFile, Error>
     where
@@ -77,6 +85,14 @@ impl MsFile {
         }
     }
 
+    /// The entry count is stored in the file, never trust it beyond what the file can hold.
+    fn entry_capacity(&self) -> Result<usize, Error> {
+        const MIN_ENTRY_SIZE: usize = 48;
+
+        let count = usize::try_from(self.header.entry_count).map_err(|_| Error::InvalidMsFile)?;
+        Ok(count.min(self.block_size / MIN_ENTRY_SIZE))
+    }
+
     fn parse_v1(&mut self, parent: &WzNodeArc) -> Result<WzNodeArcVec, Error> {
         // decrypt with another snow key
         let file_name_with_salt_bytes = self.header.name_with_salt.as_bytes();
@@ -93,11 +109,11 @@ impl MsFile {
 
         snow_reader.offset = self.header.estart;
 
-        let mut ms_images = Vec::with_capacity(self.header.entry_count as usize);
+        let mut ms_images = Vec::with_capacity(self.entry_capacity()?);
 
         for _ in 0..self.header.entry_count {
-            let entry_name_len = snow_reader.read_i32()?;
-            let entry_name = snow_reader.read_utf16_string(entry_name_len as usize * 2)?;
+            let entry_name_len = read_name_len(snow_reader.read_i32()?)?;
+            let entry_name = snow_reader.read_utf16_string(entry_name_len * 2)?;
             let check_sum = snow_reader.read_i32()?;
             let flags = snow_reader.read_i32()?;
             let start_pos = snow_reader.read_i32()?;
@@ -135,7 +151,7 @@ impl MsFile {
         }
 
         for image in ms_images.iter_mut() {
-            let actual_start = data_start + image.offset * 1024;
+            let actual_start = image.offset.saturating_mul(1024).saturating_add(data_start);
             image.offset = actual_start;
             image.meta.start_pos = actual_start as i32;
         }
@@ -172,11 +188,11 @@ impl MsFile {
         );
         chacha20_reader.offset = self.header.estart;
 
-        let mut ms_images = Vec::<MsImage>::with_capacity(self.header.entry_count as usize);
+        let mut ms_images = Vec::<MsImage>::with_capacity(self.entry_capacity()?);
 
         for _ in 0..self.header.entry_count {
-            let entry_name_len = chacha20_reader.read_i32()?;
-            let entry_name = chacha20_reader.read_utf16_string(entry_name_len as usize * 2)?;
+            let entry_name_len = read_name_len(chacha20_reader.read_i32()?)?;
+            let entry_name = chacha20_reader.read_utf16_string(entry_name_len * 2)?;
             let check_sum = chacha20_reader.read_i32()?;
             let flags = chacha20_reader.read_i32()?;
             let start_pos = chacha20_reader.read_i32()?;
@@ -217,7 +233,7 @@ impl MsFile {
         }
 
         for image in ms_images.iter_mut() {
-            let actual_start = data_start + image.offset * 1024;
+            let actual_start = image.offset.saturating_mul(1024).saturating_add(data_start);
             image.offset = actual_start;
             image.meta.start_pos = actual_start as i32;
         }
diff --git a/src/ms/ms_image.rs b/src/ms/ms_image.rs
index a0d4160..60a49ad 100644
--- a/src/ms/ms_image.rs
+++ b/src/ms/ms_image.rs
@@ -59,6 +59,14 @@ impl MsImage {
         }
     }
 
+    /// The stored data of the image, as much as is really in the file.
+    fn stored_data(&self) -> &[u8] {
+        let data = self.reader.get_ref_slice();
+        let start = self.offset.min(data.len());
+        let end = self.offset.saturating_add(self.block_size).min(data.len());
+        &data[start..end]
+    }
+
     fn to_wz_image_v1(&self) -> WzImage {
         // calc snow key for entry
         let mut key_hash = 0x811C9DC5;
@@ -86,10 +94,7 @@ impl MsImage {
                 .wrapping_add(char.wrapping_mul(digit.wrapping_add(ekey).wrapping_add(digit2)));
         }
 
-        let mut image_buffer = self
-            .reader
-            .get_slice(self.offset..self.offset + self.block_size)
-            .to_owned();
+        let mut image_buffer = self.stored_data().to_owned();
 
         // decrypt initial 1024 bytes twice
         {
@@ -103,13 +108,14 @@ impl MsImage {
         snow_decryptor.decrypt_slice(&mut image_buffer[..]);
 
         // create a new allocate reader,but only grab the size of the image, not size_aligned
-        let image_reader = WzReader::from_buff(&image_buffer[..self.meta.size as usize]);
+        let size = (self.meta.size as usize).min(image_buffer.len());
+        let image_reader = WzReader::from_buff(&image_buffer[..size]);
 
         WzImage {
             reader: Arc::new(image_reader),
             name: self.meta.entry_name.clone().into(),
             offset: 0,
-            block_size: self.meta.size as usize,
+            block_size: size,
             is_parsed: false,
         }
     }
@@ -165,10 +171,7 @@ impl MsImage {
         nonce[4..].copy_from_slice(&key_hash_data[0..8]);
         let counter = u32::from_le_bytes(key_hash_data[8..12].try_into().unwrap());
 
-        let mut image_buffer = self
-            .reader
-            .get_slice(self.offset..self.offset + self.block_size)
-            .to_owned();
+        let mut image_buffer = self.stored_data().to_owned();
 
         // only decrypt initial 1024 bytes
         {
@@ -182,13 +185,14 @@ impl MsImage {
         }
 
         // create a new allocate reader,but only grab the size of the image, not size_aligned
-        let image_reader = WzReader::from_buff(&image_buffer[..self.meta.size as usize]);
+        let size = (self.meta.size as usize).min(image_buffer.len());
+        let image_reader = WzReader::from_buff(&image_buffer[..size]);
 
         WzImage {
             reader: Arc::new(image_reader),
             name: self.meta.entry_name.clone().into(),
             offset: 0,
-            block_size: self.meta.size as usize,
+            block_size: size,
             is_parsed: false,
         }
     }
-- 
2.43.0


From b4763a097e1c82a37e1b646f92981db506503828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 36/38] fix: guessing the key of an empty image or of a name
 stored elsewhere

---
 src/util/string_decryptor/mod.rs | 4 +++-
 src/util/version/mod.rs          | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index 44ffd2d..ed4236e 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -80,7 +80,9 @@ pub(crate) fn try_get_first_wz_name_meta(buf: &[u8]) -> Result<WzStringMeta, rea
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.data_start + str_offset as usize;
+            let offset = reader.header.fstart.wrapping_add(str_offset as usize);
+            // the real type of the entry is in front of the name
+            reader.read_u8_at(offset)?;
             reader.read_wz_string_meta_at(offset + 1)?
         }
         WzDirectoryType::WzDirectory | WzDirectoryType::WzImage => reader.read_wz_string_meta()?,
diff --git a/src/util/version/mod.rs b/src/util/version/mod.rs
index efe8418..e03b257 100644
--- a/src/util/version/mod.rs
+++ b/src/util/version/mod.rs
@@ -81,7 +81,7 @@ pub fn verify_iv_from_wz_img(buf: &[u8], iv: &[u8; 4]) -> bool {
 /// Try to guess IV from wz image use fixed value. Currently will try GMS, EMS, BMS.
 pub fn guess_iv_from_wz_img(buf: &[u8]) -> Option<[u8; 4]> {
     // not support other then WzImageHeaderType::WithoutOffset
-    if buf[0] != 0x73 {
+    if buf.first() != Some(&0x73) {
         return None;
     }
 
@@ -139,7 +139,9 @@ pub fn verify_iv_from_wz_file(buf: &[u8], iv: &[u8; 4]) -> Result<(), reader::Er
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.data_start + str_offset as usize;
+            let offset = reader.header.fstart.wrapping_add(str_offset as usize);
+            // the real type of the entry is in front of the name
+            reader.read_u8_at(offset)?;
             // just check string can be valid string(instead of parse string lossy), so can prove the iv is valid
             let meta = reader.read_wz_string_meta_at(offset + 1)?;
             reader.try_resolve_wz_string_meta(
-- 
2.43.0


From 30232cf1a677a544dda514601ec7e05335c760cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 37/38] fix: pkg2 first names mistaken for names in the other
 form

---
 src/util/string_decryptor/mod.rs | 33 ++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index ed4236e..c694d1c 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -51,6 +51,7 @@ pub(crate) fn try_get_first_wz_name_meta(buf: &[u8]) -> Result<WzStringMeta, rea
     reader.seek(reader.header.data_start);
 
     let mut entry_count = reader.read_wz_int()?;
+    let encrypted_entry_count = entry_count;
 
     if reader.header.ident == PKGVersion::V1 {
         // invalid wz file
@@ -89,9 +90,41 @@ pub(crate) fn try_get_first_wz_name_meta(buf: &[u8]) -> Result<WzStringMeta, rea
         _ => return Err(reader::Error::DecryptError(reader.pos.get())),
     };
 
+    if reader.header.ident == PKGVersion::V2 {
+        skip_pkg2_entries(&reader, encrypted_entry_count)?;
+    }
+
     Ok(wz_name_meta)
 }
 
+/// Read to the end of the pkg2 entries, starting from behind the first name. Newer pkg2 directories store the first name
+/// in another form, which could look like a name in this form by accident, but the rest won't make sense.
+fn skip_pkg2_entries(
+    reader: &WzSliceReader,
+    encrypted_entry_count: i32,
+) -> Result<(), reader::Error> {
+    loop {
+        // size and checksum
+        reader.read_wz_int()?;
+        reader.read_wz_int()?;
+
+        let pos = reader.pos.get();
+
+        match WzDirectoryType::from(reader.read_u8()?) {
+            WzDirectoryType::WzDirectory | WzDirectoryType::WzImage => {
+                reader.read_wz_string_meta()?;
+            }
+            _ => {
+                reader.pos.set(pos);
+                if reader.read_wz_int()? == encrypted_entry_count {
+                    return Ok(());
+                }
+                return Err(reader::Error::DecryptError(pos));
+            }
+        }
+    }
+}
+
 pub(crate) fn try_get_first_wz_name_pkg2_meta_from_wz_file(
     buf: &[u8],
 ) -> Result<WzStringMeta, reader::Error> {
-- 
2.43.0


From 7304118145b5a27b9df2fd1b61fd4f542719f24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 38/38] fix: resolve_base panics on missing, damaged or
 unrelated files

---
 src/util/resolver.rs | 59 +++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index 9fb57ac..e8dacf0 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -1,17 +1,29 @@
-use crate::{util::version::WzMapleVersion, SharedWzStringDecryptor, WzNode, WzNodeArc, WzNodeCast};
+use crate::{node, util::version::WzMapleVersion, SharedWzStringDecryptor, WzNode, WzNodeArc, WzNodeCast};
 use std::fs::DirEntry;
 use std::io;
 use std::path::Path;
 
+fn invalid_data(error: node::Error) -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, error)
+}
+
+/// The directory a file is in, also when the path is just the name of the file.
+fn parent_dir(path: &Path) -> &Path {
+    match path.parent() {
+        Some(parent) if !parent.as_os_str().is_empty() => parent,
+        _ => Path::new("."),
+    }
+}
+
 /// Get a wz file path by directory, like `Map` -> `Map/Map.wz`.
 pub fn get_root_wz_file_path(dir: &DirEntry) -> Option<String> {
     let dir_name = dir.file_name();
-    let mut inner_wz_name = dir_name.to_str().unwrap().to_string();
+    let mut inner_wz_name = dir_name.to_str()?.to_string();
     inner_wz_name.push_str(".wz");
     let inner_wz_path = dir.path().join(inner_wz_name);
 
-    if inner_wz_path.try_exists().is_ok() {
-        return Some(inner_wz_path.to_str().unwrap().to_string());
+    if inner_wz_path.try_exists().unwrap_or(false) {
+        return Some(inner_wz_path.to_str()?.to_string());
     }
 
     None
@@ -27,21 +39,25 @@ pub fn resolve_root_wz_file_dir_full(
 ) -> Result<WzNodeArc, io::Error> {
     let root_node: WzNodeArc =
         WzNode::from_wz_file_full(&dir, version, patch_version, parent, default_keys)
-            .unwrap()
+            .map_err(invalid_data)?
             .into();
-    let wz_dir = dir.as_ref().parent().unwrap();
+    let wz_dir = parent_dir(dir.as_ref());
 
     {
         let mut root_node_write = root_node.write().unwrap();
 
-        root_node_write.parse(&root_node).unwrap();
+        root_node_write.parse(&root_node).map_err(invalid_data)?;
 
         for entry in wz_dir.read_dir()? {
             let entry = entry?;
             let file_type = entry.file_type()?;
             let name = entry.file_name();
+            // names of wz directories are always valid unicode
+            let Some(name) = name.to_str() else {
+                continue;
+            };
 
-            if file_type.is_dir() && root_node_write.at(name.to_str().unwrap()).is_some() {
+            if file_type.is_dir() && root_node_write.at(name).is_some() {
                 if let Some(file_path) = get_root_wz_file_path(&entry) {
                     let dir_node = resolve_root_wz_file_dir_full(
                         &file_path,
@@ -54,12 +70,13 @@ pub fn resolve_root_wz_file_dir_full(
                     /* replace the original one */
                     root_node_write
                         .children
-                        .insert(name.to_str().unwrap().into(), dir_node);
+                        .insert(name.into(), dir_node);
                 }
             } else if file_type.is_file() {
                 //  check is XXX_nnn.wz
-                let file_path = entry.path();
-                let file_name = file_path.file_stem().unwrap().to_str().unwrap();
+                let Some(file_name) = name.strip_suffix(".wz") else {
+                    continue;
+                };
 
                 let splited = file_name.split('_').collect::<Vec<&str>>();
 
@@ -72,13 +89,13 @@ pub fn resolve_root_wz_file_dir_full(
                 }
 
                 let node = WzNode::from_wz_file_full(
-                    file_path.to_str().unwrap(),
+                    entry.path(),
                     version,
                     patch_version,
                     None,
                     default_keys,
                 )
-                .unwrap()
+                .map_err(invalid_data)?
                 .into_lock();
 
                 let mut node_write = node.write().unwrap();
@@ -130,12 +147,12 @@ pub fn resolve_base(
     {
         let mut base_write = base_node.write().unwrap();
 
-        let first_parent = path.as_ref().parent().unwrap();
+        let first_parent = parent_dir(path.as_ref());
 
         // if a Base.wz in under Base folder, then should up to parent to find Map, Item and other stuff
         // if not, the other stuff just at same folder as Base.wz
-        let wz_root_path = if first_parent.file_stem().unwrap() == "Base" {
-            first_parent.parent().unwrap()
+        let wz_root_path = if first_parent.file_stem().is_some_and(|name| name == "Base") {
+            parent_dir(first_parent)
         } else {
             first_parent
         };
@@ -143,18 +160,20 @@ pub fn resolve_base(
         for item in wz_root_path.read_dir()? {
             let dir = item?;
             let path = dir.path();
-            let file_name = path.file_stem().unwrap();
+            let Some(file_name) = path.file_stem().and_then(|name| name.to_str()) else {
+                continue;
+            };
 
             let is_valid = path.extension().unwrap_or_default() == "wz" || path.is_dir();
 
             // we only allow the thing is listed in Base.wz
-            let has_dir = base_write.at(file_name.to_str().unwrap()).is_some();
+            let has_dir = base_write.at(file_name).is_some();
 
             if has_dir && is_valid {
                 let wz_path = if dir.file_type()?.is_dir() {
                     get_root_wz_file_path(&dir)
                 } else {
-                    Some(path.to_str().unwrap().to_string())
+                    path.to_str().map(|path| path.to_string())
                 };
 
                 if let Some(file_path) = wz_path {
@@ -170,7 +189,7 @@ pub fn resolve_base(
                     /* replace the original one */
                     base_write
                         .children
-                        .insert(file_name.to_str().unwrap().into(), dir_node);
+                        .insert(file_name.into(), dir_node);
                 }
             }
         }
-- 
2.43.0

