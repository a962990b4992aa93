From 6ac8b50bfd6c7949921d7dc3bd6cbc66c237594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 01/19] fix: report a module outside of the image as an error
 instead of panicking

---
 src/extract/qr/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index 30fda7f..88e4029 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -57,7 +57,11 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
             for _ in 0..size {
                 let x = line.x.round() as u32;
                 let y = line.y.round() as u32;
-                let pixel = prepared.get_pixel(x, y)[0];
+                let pixel = prepared
+                    .get_pixel_checked(x, y)
+                    .ok_or_else(|| QRError {
+                        msg: format!("Module at ({}, {}) is outside of the image", x, y),
+                    })?[0];
 
                 #[cfg(feature = "debug-images")]
                 {
-- 
2.43.0


From 894f68fafcc3d891b7843f905196f924455a32e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 02/19] fix: check all corners of the alignment pattern against
 the image bounds

---
 src/extract/qr/mod.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index 88e4029..d278a3c 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -321,16 +321,19 @@ fn is_alignment(prepared: &GrayImage, p: Point, dx: Delta, dy: Delta, scale: f64
         }
     }
 
-    let top_left = p - 2.0 * dx - 2.0 * dy;
-    if top_left.x < 0.0 || top_left.y < 0.0 {
-        return false;
-    }
-
-    let bottom_right = p + 2.0 * dx + 2.0 * dy;
+    // The QR code can be rotated so each of the corners could be outside of the image
     let dims = prepared.dimensions();
 
-    if bottom_right.x.round() >= f64::from(dims.0) || bottom_right.y.round() >= f64::from(dims.1) {
-        return false;
+    for (i, j) in &[(-2.0, -2.0), (2.0, -2.0), (-2.0, 2.0), (2.0, 2.0)] {
+        let corner = p + *i * dx + *j * dy;
+
+        if corner.x < 0.0
+            || corner.y < 0.0
+            || corner.x.round() >= f64::from(dims.0)
+            || corner.y.round() >= f64::from(dims.1)
+        {
+            return false;
+        }
     }
 
     for x in -2..2 {
-- 
2.43.0


From 61cc4d5d4a0ab81e418fee237e5703db8866a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 03/19] fix: average over at least one block, also in images
 smaller than a block

---
 src/prepare/blockedmean.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/prepare/blockedmean.rs b/src/prepare/blockedmean.rs
index 8100593..43cdd61 100644
--- a/src/prepare/blockedmean.rs
+++ b/src/prepare/blockedmean.rs
@@ -86,7 +86,7 @@ impl BlockedMean {
         width: ImageCoord,
         height: ImageCoord,
     ) -> Vec<Stats> {
-        let block_stride = BlockCoord((self.block_mean_size.0 - 1) / 2);
+        let block_stride = BlockCoord(self.block_mean_size.0.saturating_sub(1) / 2);
         let (block_width, block_height) = as_block_coords(width, height, self.block_size);
 
         let mut block_means = vec![
@@ -102,9 +102,15 @@ impl BlockedMean {
         for block_x in range_inc(BlockCoord(0), block_width) {
             for block_y in range_inc(BlockCoord(0), block_height) {
                 let x_start = max(BlockCoord(0), block_x.saturating_sub(block_stride));
-                let x_end = min(block_width, block_x + block_stride);
+                let x_end = max(
+                    x_start + BlockCoord(1),
+                    min(block_width, block_x + block_stride),
+                );
                 let y_start = max(BlockCoord(0), block_y.saturating_sub(block_stride));
-                let y_end = min(block_height, block_y + block_stride);
+                let y_end = max(
+                    y_start + BlockCoord(1),
+                    min(block_height, block_y + block_stride),
+                );
 
                 let mut total = 0;
                 let mut count = 0;
-- 
2.43.0


From 1beb632d339ec5040b1d65f970338324ce6d0ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 04/19] fix: count the bits nibbled off a byte as consumed

---
 src/util/chomp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/chomp.rs b/src/util/chomp.rs
index e31e9cf..8db0984 100644
--- a/src/util/chomp.rs
+++ b/src/util/chomp.rs
@@ -124,6 +124,7 @@ impl Chomp {
             let result = *byte >> (8 - nr_bits.0);
             *byte <<= nr_bits.0;
 
+            self.bits_left -= nr_bits;
             self.bits_left_in_byte -= nr_bits;
 
             Some(result)
-- 
2.43.0


From 72687c397b8ebd8d12e6c880f370b38cb509bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 05/19] fix: refuse more than 16 bits, and do not consume bits
 for a refused request

---
 src/util/chomp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/chomp.rs b/src/util/chomp.rs
index 8db0984..57a0a87 100644
--- a/src/util/chomp.rs
+++ b/src/util/chomp.rs
@@ -59,6 +59,10 @@ impl Chomp {
     /// Try to chomp `nr_bits` bits. If not enough bits are left, or requesting more than 16 bits the provided `err` will be returned
     /// If requesting fewer than 16 bits, the result will be in the least significant bits of the u16
     pub fn chomp_or_u16<E: Clone>(&mut self, nr_bits: u8, err: E) -> Result<u16, E> {
+        if nr_bits > 16 || BitCount(nr_bits as usize) > self.bits_left {
+            return Err(err);
+        }
+
         let mut bits = nr_bits;
 
         let mut result: u16 = 0;
-- 
2.43.0


From 3f113fe87da56185d985f992769b2b2e0c07c8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 06/19] fix: dividing zero in a Galois field results in zero

---
 src/decode/qr/galois.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/decode/qr/galois.rs b/src/decode/qr/galois.rs
index 208881e..b8a765a 100644
--- a/src/decode/qr/galois.rs
+++ b/src/decode/qr/galois.rs
@@ -46,6 +46,10 @@ impl Div<GF8> for GF8 {
 
     #[allow(clippy::suspicious_arithmetic_impl)]
     fn div(self, other: GF8) -> GF8 {
+        if self.0 == 0 {
+            return GF8(0);
+        }
+
         let log_self = LOG8[self.0 as usize];
         let log_other = LOG8[other.0 as usize];
         let mut diff = i16::from(log_self) - i16::from(log_other);
@@ -98,6 +102,10 @@ impl Div<GF4> for GF4 {
 
     #[allow(clippy::suspicious_arithmetic_impl)]
     fn div(self, other: GF4) -> GF4 {
+        if self.0 == 0 {
+            return GF4(0);
+        }
+
         let log_self = LOG4[self.0 as usize];
         let log_other = LOG4[other.0 as usize];
         let mut diff = i16::from(log_self) - i16::from(log_other);
-- 
2.43.0


From e5adfdb206c5f69e83df2461f735b7d17a98142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 07/19] fix: swap equations if needed when solving, the first
 coefficient could be zero

---
 src/decode/qr/correct.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decode/qr/correct.rs b/src/decode/qr/correct.rs
index 6d02755..dc41db4 100644
--- a/src/decode/qr/correct.rs
+++ b/src/decode/qr/correct.rs
@@ -141,6 +141,11 @@ where
     }
 
     for i in 0..num_eq {
+        // make sure the first coefficient is nonzero, if there is an equation left for which it is
+        if let Some(pivot) = (i..num_eq).find(|j| eq[*j][i] != zero) {
+            eq.swap(i, pivot);
+        }
+
         // normalise equation
         for j in (i..num_coeff).rev() {
             // divide all coefficients by the first nonzero
-- 
2.43.0


From 39fcd84fbb502a78c6478ce14d3684160362c5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 08/19] fix: verify all syndromes after error correction

---
 src/decode/qr/correct.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/decode/qr/correct.rs b/src/decode/qr/correct.rs
index dc41db4..4d342fc 100644
--- a/src/decode/qr/correct.rs
+++ b/src/decode/qr/correct.rs
@@ -42,7 +42,9 @@ pub fn correct_with_error_count(
         block[block_info.total_per as usize - 1 - locs[i] as usize] ^= distance[i].0;
     }
 
-    if syndrome(&block, EXP8[0]) != GF8(0) {
+    let (all_fine, _) = calculate_syndromes(&block, block_info);
+
+    if !all_fine {
         return Err(QRError {
             msg: String::from("Error correcting did not fix corrupted data"),
         });
@@ -52,10 +54,13 @@ pub fn correct_with_error_count(
 }
 
 fn calculate_syndromes(block: &[u8], block_info: &BlockInfo) -> (bool, Vec<GF8>) {
-    let mut syndromes = vec![GF8(0); (block_info.ec_cap * 2) as usize];
+    // There is a syndrome for every error correction codeword.
+    // Not all of them are needed to find the errors, but all of them need to be zero if there are none
+    let ec_per = block_info.total_per - block_info.data_per;
+    let mut syndromes = vec![GF8(0); ec_per as usize];
 
     let mut all_fine = true;
-    for i in 0..block_info.ec_cap * 2 {
+    for i in 0..ec_per {
         syndromes[i as usize] = syndrome(block, EXP8[i as usize]);
         if syndromes[i as usize] != GF8(0) {
             all_fine = false;
-- 
2.43.0


From 0ca0cbc5059e8142d11fe6328cc6284f8108cb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 09/19] fix: check all syndromes of the format information

---
 src/decode/qr/format.rs | 42 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/decode/qr/format.rs b/src/decode/qr/format.rs
index 4350edb..906a492 100644
--- a/src/decode/qr/format.rs
+++ b/src/decode/qr/format.rs
@@ -65,28 +65,16 @@ fn format2(data: &QRData) -> Result<Vec<u8>, QRError> {
 }
 
 fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
-    let mut s1 = GF4(0);
-
-    for i in 0..format.len() {
-        s1 = s1 + GF4(format[format.len() - i - 1]) * EXP4[i % 15];
-    }
+    let (s1, s3, s5) = syndromes(&format);
 
-    if s1 == GF4(0) {
-        // syndrome == 0, no error detected
+    if s1 == GF4(0) && s3 == GF4(0) && s5 == GF4(0) {
+        // all syndromes == 0, no error detected
         return Ok(format);
     }
 
     let s2 = s1 * s1;
     let s4 = s2 * s2;
 
-    let mut s3 = GF4(0);
-    let mut s5 = GF4(0);
-
-    for i in 0..format.len() {
-        s3 = s3 + GF4(format[format.len() - i - 1]) * EXP4[(3 * i) % 15];
-        s5 = s5 + GF4(format[format.len() - i - 1]) * EXP4[(5 * i) % 15];
-    }
-
     let sigma1 = s1;
     let sigma2 = ((s5 + s4 * sigma1) - s2 * (s3 + s2 * sigma1)) / (s3 - s1 * s2);
     let sigma3 = s3 + s2 * sigma1 + s1 * sigma2;
@@ -108,14 +96,10 @@ fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
         format[len - error as usize - 1] ^= 1;
     }
 
-    s1 = GF4(0);
+    let (s1, s3, s5) = syndromes(&format);
 
-    for i in 0..format.len() {
-        s1 = s1 + GF4(format[format.len() - i - 1]) * EXP4[i % 15];
-    }
-
-    if s1 == GF4(0) {
-        // syndrome == 0, no error detected
+    if s1 == GF4(0) && s3 == GF4(0) && s5 == GF4(0) {
+        // all syndromes == 0, no error left
         return Ok(format);
     }
 
@@ -124,6 +108,20 @@ fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
     })
 }
 
+fn syndromes(format: &[u8]) -> (GF4, GF4, GF4) {
+    let mut s1 = GF4(0);
+    let mut s3 = GF4(0);
+    let mut s5 = GF4(0);
+
+    for i in 0..format.len() {
+        s1 = s1 + GF4(format[format.len() - i - 1]) * EXP4[i % 15];
+        s3 = s3 + GF4(format[format.len() - i - 1]) * EXP4[(3 * i) % 15];
+        s5 = s5 + GF4(format[format.len() - i - 1]) * EXP4[(5 * i) % 15];
+    }
+
+    (s1, s3, s5)
+}
+
 fn error_correction(bytes: u8) -> Option<ECLevel> {
     match bytes {
         0b01 => Some(ECLevel::LOW),
-- 
2.43.0


From c91f98bd8ba0370ec72066e665b952103c03402a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 10/19] fix: correct an error in the last bit of the format
 information

---
 src/decode/qr/format.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/decode/qr/format.rs b/src/decode/qr/format.rs
index 906a492..b4fa9db 100644
--- a/src/decode/qr/format.rs
+++ b/src/decode/qr/format.rs
@@ -81,13 +81,10 @@ fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
 
     let mut error_pos = vec![];
 
-    for i in 0..16 {
+    for i in 1..16 {
         let x = GF4(i);
         if sigma3 + sigma2 * x + sigma1 * x * x + x * x * x == GF4(0) {
-            let log = LOG4[i as usize];
-            if log != 0 {
-                error_pos.push(log);
-            }
+            error_pos.push(LOG4[i as usize]);
         }
     }
 
-- 
2.43.0


From 5adc7c68539a20d636d6be234720423c8e172604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 11/19] fix: refuse an invalid last character in alphanumeric
 data

---
 src/decode/qr/data.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/decode/qr/data.rs b/src/decode/qr/data.rs
index 5643416..c0f77a0 100644
--- a/src/decode/qr/data.rs
+++ b/src/decode/qr/data.rs
@@ -123,7 +123,15 @@ fn alphanumeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
 
         if length == 1 {
             let chars = read_bits_u16(chomp, 6)?;
-            result.push(ALPHANUMERIC[chars as usize]);
+            let char1 = chars as usize;
+
+            if char1 > 44 {
+                return Err(QRError {
+                    msg: format!("Invalid character in alphanumeric data {}", char1),
+                });
+            }
+
+            result.push(ALPHANUMERIC[char1]);
 
             break;
         }
-- 
2.43.0


From 497d6b189e3b327916724f250e6d66129686e116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 12/19] fix: refuse invalid digits in numeric data

---
 src/decode/qr/data.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/decode/qr/data.rs b/src/decode/qr/data.rs
index c0f77a0..5c1158e 100644
--- a/src/decode/qr/data.rs
+++ b/src/decode/qr/data.rs
@@ -45,7 +45,7 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
 
     while length > 0 {
         if length >= 3 {
-            let digits = read_bits_u16(chomp, 10)?;
+            let digits = read_digits(chomp, 10, 999)?;
             result.push_str(&format!("{:03}", digits));
 
             length -= 3;
@@ -53,14 +53,14 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
         }
 
         if length == 2 {
-            let digits = read_bits_u16(chomp, 7)?;
+            let digits = read_digits(chomp, 7, 99)?;
             result.push_str(&format!("{:02}", digits));
 
             break;
         }
 
         if length == 1 {
-            let digits = read_bits_u16(chomp, 4)?;
+            let digits = read_digits(chomp, 4, 9)?;
             result.push_str(&format!("{:01}", digits));
 
             break;
@@ -206,6 +206,18 @@ fn read_bits(chomp: &mut Chomp, bits: u8) -> Result<u8, QRError> {
     )
 }
 
+fn read_digits(chomp: &mut Chomp, bits: u8, max: u16) -> Result<u16, QRError> {
+    let digits = read_bits_u16(chomp, bits)?;
+
+    if digits > max {
+        return Err(QRError {
+            msg: format!("Invalid digits in numeric data {}", digits),
+        });
+    }
+
+    Ok(digits)
+}
+
 fn read_bits_u16(chomp: &mut Chomp, bits: u8) -> Result<u16, QRError> {
     chomp.chomp_or_u16(
         bits,
-- 
2.43.0


From 57327bab37880bf0dcacebaeec5d7dac92f67a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 13/19] fix: do not report locations that are larger than the
 largest QR code

---
 src/detect/linescan.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index 3c26e3b..3d60044 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -507,8 +507,8 @@ fn find_qr_internal(
 
     trace!("ESTIMATED ACTUAL DIST {}", dist);
 
-    // QR codes are at least 21 modules wide so discard any that are smaller
-    if dist < 20 {
+    // QR codes are at least 21 and at most 177 modules wide so discard any that are smaller or larger
+    if !(20..=177).contains(&dist) {
         return None;
     }
 
-- 
2.43.0


From 51533c53cfb862b73ff677cc72e6595274f00283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 14/19] fix: do not mistake a finder pattern for a candidate
 found next to it

---
 src/detect/linescan.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index 3d60044..750408b 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -80,8 +80,9 @@ impl Detect<GrayImage> for LineScan {
             };
 
             for candidate in &candidates {
-                if dist(&finder, &candidate.location) < 7.0 * module_size {
+                if dist(&finder, &candidate.location) < 5.0 * module_size {
                     // The candidate location we have found was already detected and stored on a previous line.
+                    // Refinement stays within 5 modules, so anything further away is a different pattern.
                     last_pixel = p.channels()[0];
                     pattern.slide();
 
-- 
2.43.0


From 4a56d0db002aa39feba29baacef5a507c50454c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:30 +0000
Subject: [PATCH 15/19] fix: keep debug images within the bounds of the source
 image

---
 src/detect/linescan.rs | 4 ++--
 src/extract/qr/mod.rs  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index 750408b..4ec4adf 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -136,11 +136,11 @@ impl Detect<GrayImage> for LineScan {
                 let x_start = (loc.x - 3.5 * c.module_size).max(0.0_f64) as u32;
                 let x_end = min(img.dimensions().0, (loc.x + 3.5 * c.module_size) as u32);
                 let y_start = (loc.y - 3.5 * c.module_size).max(0.0_f64) as u32;
-                let y_end = min(img.dimensions().0, (loc.y + 3.5 * c.module_size) as u32);
+                let y_end = min(img.dimensions().1, (loc.y + 3.5 * c.module_size) as u32);
 
                 for x in x_start..x_end {
                     for y in y_start..y_end {
-                        if x > x_start + 3 && x < x_end - 3 && y > y_start + 3 && y < y_end - 3 {
+                        if x > x_start + 3 && x + 3 < x_end && y > y_start + 3 && y + 3 < y_end {
                             continue;
                         }
 
diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index d278a3c..18def29 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -67,7 +67,7 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
                 {
                     if pixel == 0 {
                         for i in max(0, x.saturating_sub(2))..min(img.dimensions().0, x + 2) {
-                            for j in max(0, y.saturating_sub(2))..min(img.dimensions().0, y + 2) {
+                            for j in max(0, y.saturating_sub(2))..min(img.dimensions().1, y + 2) {
                                 img.put_pixel(i, j, Rgb([255, 0, 0]));
                             }
                         }
@@ -240,13 +240,13 @@ fn determine_perspective(
         );
         let y_start = max(0, (est_alignment.y - 2.5 * loc.module_size) as u32);
         let y_end = min(
-            img.dimensions().0,
+            img.dimensions().1,
             (est_alignment.y + 2.5 * loc.module_size) as u32,
         );
 
         for x in x_start..x_end {
             for y in y_start..y_end {
-                if x > x_start + 2 && x < x_end - 2 && y > y_start + 2 && y < y_end - 2 {
+                if x > x_start + 2 && x + 2 < x_end && y > y_start + 2 && y + 2 < y_end {
                     continue;
                 }
 
-- 
2.43.0


From 953b2872726c6638d5b5cba336d40f7edaef61ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 16/19] fix: look for finder patterns with and without noise, a
 module next to a large quiet zone is not noise

---
 src/detect/linescan.rs | 119 +++++++++++++++++++++--------------------
 1 file changed, 61 insertions(+), 58 deletions(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index 4ec4adf..26af512 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -45,82 +45,81 @@ impl Detect<GrayImage> for LineScan {
         let mut candidates: Vec<QRFinderPosition> = vec![];
 
         let mut last_pixel = 127;
-        let mut pattern = QRFinderPattern::new();
+        // Short runs could be noise, but they could also be the modules next to a large quiet zone,
+        // so look for patterns both with and without the noise
+        let mut patterns = [QRFinderPattern::new(), QRFinderPattern::new()];
         'pixels: for (x, y, p) in prepared.enumerate_pixels() {
             // Step 1
-            // A new line, construct a new QRFinderPattern
+            // A new line, construct new QRFinderPatterns
             if x == 0 {
                 last_pixel = 127;
-                pattern = QRFinderPattern::new();
+                patterns = [QRFinderPattern::new(), QRFinderPattern::new()];
             }
 
             // A pixel of the same color, add to the count in the last position
             if p.channels()[0] == last_pixel {
-                pattern.6 += 1;
+                for pattern in &mut patterns {
+                    pattern.6 += 1;
+                }
 
                 if x != prepared.dimensions().0 - 1 {
                     continue 'pixels;
                 }
             }
 
-            // A pixel color switch, but the current pattern does not look like a finder
-            // Slide the pattern and continue searching
-            if !pattern.looks_like_finder() {
-                last_pixel = p.channels()[0];
-                pattern.slide();
-                continue 'pixels;
-            }
-
-            let mut module_size = pattern.est_mod_size();
+            'patterns: for pattern in &patterns {
+                // A pixel color switch, but the current pattern does not look like a finder
+                if !pattern.looks_like_finder() {
+                    continue 'patterns;
+                }
 
-            // A finder pattern is 1-1-3-1-1 modules wide, so subtract 3.5 modules to get the x coordinate in the center
-            let mut finder = Point {
-                x: f64::from(x) - module_size * 3.5,
-                y: f64::from(y),
-            };
+                let mut module_size = pattern.est_mod_size();
 
-            for candidate in &candidates {
-                if dist(&finder, &candidate.location) < 5.0 * module_size {
-                    // The candidate location we have found was already detected and stored on a previous line.
-                    // Refinement stays within 5 modules, so anything further away is a different pattern.
-                    last_pixel = p.channels()[0];
-                    pattern.slide();
+                // A finder pattern is 1-1-3-1-1 modules wide, so subtract 3.5 modules to get the x coordinate in the center
+                let mut finder = Point {
+                    x: f64::from(x) - module_size * 3.5,
+                    y: f64::from(y),
+                };
 
-                    continue 'pixels;
+                for candidate in &candidates {
+                    if dist(&finder, &candidate.location) < 5.0 * module_size {
+                        // The candidate location we have found was already detected and stored on a previous line.
+                        // Refinement stays within 5 modules, so anything further away is a different pattern.
+                        continue 'patterns;
+                    }
                 }
-            }
 
-            // Step 2
-            // Run the refinement functions on the candidate location
-            for (refine_func, dx, dy, is_diagonal) in &refine_func {
-                let vert = refine_func(self, prepared, &finder, module_size);
+                // Step 2
+                // Run the refinement functions on the candidate location
+                for (refine_func, dx, dy, is_diagonal) in &refine_func {
+                    let vert = refine_func(self, prepared, &finder, module_size);
 
-                if vert.is_none() {
-                    last_pixel = p.channels()[0];
-                    pattern.slide();
+                    if vert.is_none() {
+                        continue 'patterns;
+                    }
 
-                    continue 'pixels;
+                    if !is_diagonal {
+                        // Adjust the candidate location with the refined candidate and module size,
+                        // exchept when refining the diagonal because that is unreliable on lower resolutions
+                        let vert = vert.unwrap();
+                        let half_finder = 3.5 * vert.last_module_size;
+                        finder.x = vert.location.x - dx * half_finder;
+                        finder.y = vert.location.y - dy * half_finder;
+                        module_size = vert.module_size;
+                    }
                 }
 
-                if !is_diagonal {
-                    // Adjust the candidate location with the refined candidate and module size,
-                    // exchept when refining the diagonal because that is unreliable on lower resolutions
-                    let vert = vert.unwrap();
-                    let half_finder = 3.5 * vert.last_module_size;
-                    finder.x = vert.location.x - dx * half_finder;
-                    finder.y = vert.location.y - dy * half_finder;
-                    module_size = vert.module_size;
-                }
+                candidates.push(QRFinderPosition {
+                    location: finder,
+                    module_size,
+                    last_module_size: 0.0,
+                });
             }
 
-            candidates.push(QRFinderPosition {
-                location: finder,
-                module_size,
-                last_module_size: 0.0,
-            });
-
+            // Slide the patterns and continue searching
             last_pixel = p.channels()[0];
-            pattern.slide();
+            patterns[0].slide();
+            patterns[1].slide_with_noise();
         }
 
         debug!("Candidate QR Locators {:#?}", candidates);
@@ -384,17 +383,21 @@ impl QRFinderPattern {
             self.1 = self.0;
             self.0 = 0;
         } else {
-            // the pixels inverted so slide the pattern down and start a new count in the last position
-            self.0 = self.1;
-            self.1 = self.2;
-            self.2 = self.3;
-            self.3 = self.4;
-            self.4 = self.5;
-            self.5 = self.6;
-            self.6 = 1;
+            self.slide_with_noise();
         }
     }
 
+    fn slide_with_noise(&mut self) {
+        // the pixels inverted so slide the pattern down and start a new count in the last position
+        self.0 = self.1;
+        self.1 = self.2;
+        self.2 = self.3;
+        self.3 = self.4;
+        self.4 = self.5;
+        self.5 = self.6;
+        self.6 = 1;
+    }
+
     fn est_mod_size(&self) -> f64 {
         f64::from(self.2 + self.3 + self.4 + self.5 + self.6) / 7.0
     }
-- 
2.43.0


From 8390ac33e095ab8dee16019aa17417a64cb5a975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 17/19] fix: report a module left of or above the image as an
 error as well

---
 src/extract/qr/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index 18def29..2e983d5 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -55,13 +55,18 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
             let mut line = start - 3.0 * dx;
 
             for _ in 0..size {
+                let outside = || QRError {
+                    msg: format!("Module at ({}, {}) is outside of the image", line.x, line.y),
+                };
+
+                // Negative coordinates would be converted to 0
+                if line.x.round() < 0.0 || line.y.round() < 0.0 {
+                    return Err(outside());
+                }
+
                 let x = line.x.round() as u32;
                 let y = line.y.round() as u32;
-                let pixel = prepared
-                    .get_pixel_checked(x, y)
-                    .ok_or_else(|| QRError {
-                        msg: format!("Module at ({}, {}) is outside of the image", x, y),
-                    })?[0];
+                let pixel = prepared.get_pixel_checked(x, y).ok_or_else(outside)?[0];
 
                 #[cfg(feature = "debug-images")]
                 {
-- 
2.43.0


From 71b6f17f069daa36409c56fa8b938ed96b196a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:43 +0000
Subject: [PATCH 18/19] fix: do not try to prepare an image without pixels

---
 src/prepare/blockedmean.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/prepare/blockedmean.rs b/src/prepare/blockedmean.rs
index 43cdd61..042ab6d 100644
--- a/src/prepare/blockedmean.rs
+++ b/src/prepare/blockedmean.rs
@@ -34,6 +34,11 @@ impl BlockedMean {
 
 impl <D> Prepare<D, GrayImage> for BlockedMean where D: GenericImageView<Pixel = Rgba<u8>> {
     fn prepare(&self, input: &D) -> GrayImage {
+        // Nothing to prepare in an image without pixels
+        if input.width() == 0 || input.height() == 0 {
+            return GrayImage::new(input.width(), input.height());
+        }
+
         let grayscale = grayscale(input);
 
         let dimensions = grayscale.dimensions();
-- 
2.43.0


From 1d8912f09c1b1f0b2ccf1cc17d0c06e852fabd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 19/19] fix: finder patterns start and end with a dark module

---
 src/detect/linescan.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index 26af512..db1bf2e 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -68,8 +68,9 @@ impl Detect<GrayImage> for LineScan {
             }
 
             'patterns: for pattern in &patterns {
-                // A pixel color switch, but the current pattern does not look like a finder
-                if !pattern.looks_like_finder() {
+                // A pixel color switch, but the current pattern does not look like a finder,
+                // which starts and ends with a dark module
+                if last_pixel != 0 || !pattern.looks_like_finder() {
                     continue 'patterns;
                 }
 
@@ -312,10 +313,11 @@ impl LineScan {
             if p == last_pixel {
                 pattern.6 += 1;
             } else {
-                // The current pattern needs to look like a finder (1-1-3-1-1)
+                // The current pattern needs to look like a finder (1-1-3-1-1), ending with a dark module
                 // Also the module size needs to be similar to the candidate we are refining,
                 // except when checking the diagonal because that is unreliable on lower resolutions
-                if pattern.looks_like_finder()
+                if last_pixel == 0
+                    && pattern.looks_like_finder()
                     && (diff(module_size, pattern.est_mod_size()) < 0.2 || is_diagonal)
                 {
                     let new_est_mod_size = (module_size + pattern.est_mod_size()) / 2.0;
@@ -337,10 +339,11 @@ impl LineScan {
             last_y = y;
         }
 
-        // The current pattern needs to look like a finder (1-1-3-1-1)
+        // The current pattern needs to look like a finder (1-1-3-1-1), ending with a dark module
         // Also the module size needs to be similar to the candidate we are refining,
         // except when checking the diagonal because that is unreliable on lower resolutions
-        if pattern.looks_like_finder()
+        if last_pixel == 0
+            && pattern.looks_like_finder()
             && (diff(module_size, pattern.est_mod_size()) < 0.2 || is_diagonal)
         {
             let new_est_mod_size = (module_size + pattern.est_mod_size()) / 2.0;
-- 
2.43.0

