From 39157d9737627d0e076768b68f1eb479ca29a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 01/13] fix: BC2 and BC3 color blocks always have four colors

The color part of a BC2/BC3 block is decoded as if color0 > color1; it was
decoded with the BC1 endpoint order rule, giving wrong colors when
color0 <= color1.
---
 src/bcn/bc1.rs | 14 ++++++++++----
 src/bcn/bc2.rs |  4 ++--
 src/bcn/bc3.rs |  4 ++--
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/bcn/bc1.rs b/src/bcn/bc1.rs
index 55450ec..2286ffa 100644
--- a/src/bcn/bc1.rs
+++ b/src/bcn/bc1.rs
@@ -1,7 +1,7 @@
 use crate::color::{color, rgb565_le};
 
 #[inline]
-fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
+fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool, four_colors: bool) {
     let q0 = u16::from_le_bytes([data[0], data[1]]);
     let q1 = u16::from_le_bytes([data[2], data[3]]);
     let (r0, g0, b0) = rgb565_le(q0);
@@ -17,7 +17,7 @@ fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
     let g1 = g1 as u16;
     let b1 = b1 as u16;
 
-    if q0 > q1 {
+    if four_colors || q0 > q1 {
         c[2] = color(
             ((r0 * 2 + r1) / 3) as u8,
             ((g0 * 2 + g1) / 3) as u8,
@@ -48,10 +48,16 @@ fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
 
 #[inline]
 pub fn decode_bc1_block(data: &[u8], outbuf: &mut [u32]) {
-    _decode_bc1_block(data, outbuf, false)
+    _decode_bc1_block(data, outbuf, false, false)
 }
 
 #[inline]
 pub fn decode_bc1a_block(data: &[u8], outbuf: &mut [u32]) {
-    _decode_bc1_block(data, outbuf, true);
+    _decode_bc1_block(data, outbuf, true, false);
+}
+
+/// The color part of BC2 and BC3, which has four colors whatever the endpoint order is.
+#[inline]
+pub(crate) fn decode_bc1_four_color_block(data: &[u8], outbuf: &mut [u32]) {
+    _decode_bc1_block(data, outbuf, false, true);
 }
diff --git a/src/bcn/bc2.rs b/src/bcn/bc2.rs
index 5126cb4..0c17213 100644
--- a/src/bcn/bc2.rs
+++ b/src/bcn/bc2.rs
@@ -1,4 +1,4 @@
-use crate::bcn::bc1::decode_bc1_block;
+use crate::bcn::bc1::decode_bc1_four_color_block;
 
 #[inline]
 pub fn decode_bc2_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
@@ -18,6 +18,6 @@ pub fn decode_bc2_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
 #[inline]
 pub fn decode_bc2_block(data: &[u8], outbuf: &mut [u32]) {
-    decode_bc1_block(&data[8..], outbuf);
+    decode_bc1_four_color_block(&data[8..], outbuf);
     decode_bc2_alpha(data, outbuf, 3);
 }
diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index 70a0407..5e78978 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -1,4 +1,4 @@
-use crate::bcn::bc1::decode_bc1_block;
+use crate::bcn::bc1::decode_bc1_four_color_block;
 
 #[inline]
 pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
@@ -32,6 +32,6 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
 #[inline]
 pub fn decode_bc3_block(data: &[u8], outbuf: &mut [u32]) {
-    decode_bc1_block(&data[8..], outbuf);
+    decode_bc1_four_color_block(&data[8..], outbuf);
     decode_bc3_alpha(data, outbuf, 3);
 }
-- 
2.43.0


From cb163c2c734b0528f47f4d81475c521bb0302674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 02/13] fix: read the EAC R11/RG11 texel indices in big-endian
 order

The indices are the low 48 bits of the big-endian block; they were taken
from the low bits of a little-endian read, i.e. from the base codeword and
the multiplier.
---
 src/etc/eac.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/etc/eac.rs b/src/etc/eac.rs
index b647084..b10a5f7 100644
--- a/src/etc/eac.rs
+++ b/src/etc/eac.rs
@@ -8,7 +8,7 @@ pub fn decode_eac_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_le_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
         let val: i32 = data[0] as i32 * 8 + multiplier * table[l & 7] as i32 + 4;
@@ -32,7 +32,7 @@ pub fn decode_eac_signed_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_le_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
         let val: i32 = base * 8 + multiplier * table[l & 7] as i32 + 1023;
-- 
2.43.0


From 96d6897097f2f015de3f0215bf45550aa7a79db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 03/13] fix: ATC alternate mode subtracts a quarter of the
 second color

The second palette entry of the alternate mode is max(0, c0 - c1 / 4); it
was computed as (c0 - c1) / 4 with wrap-around.
---
 src/atc.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/atc.rs b/src/atc.rs
index 4d3daaf..3f3ac4f 100644
--- a/src/atc.rs
+++ b/src/atc.rs
@@ -2,7 +2,6 @@
 use crate::bcn::bc3::decode_bc3_alpha;
 use crate::color::color;
 use crate::macros::block_decoder;
-use core::cmp::max;
 use core::result::Result;
 
 #[inline]
@@ -58,18 +57,9 @@ pub fn decode_atc_rgb4_block(data: &[u8], outbuf: &mut [u32]) {
         colors[13] = expand_quantized(((c1 >> 5) & 0x3f) as u8, 6);
         colors[14] = expand_quantized(((c1 >> 11) & 0x1f) as u8, 5);
 
-        colors[4] = max(
-            0,
-            ((colors[8] as u16).overflowing_sub(colors[12] as u16).0 / 4) as u8,
-        );
-        colors[5] = max(
-            0,
-            ((colors[9] as u16).overflowing_sub(colors[13] as u16).0 / 4) as u8,
-        );
-        colors[6] = max(
-            0,
-            ((colors[10] as u16).overflowing_sub(colors[14] as u16).0 / 4) as u8,
-        );
+        colors[4] = colors[8].saturating_sub(colors[12] / 4);
+        colors[5] = colors[9].saturating_sub(colors[13] / 4);
+        colors[6] = colors[10].saturating_sub(colors[14] / 4);
     }
 
     let mut next = 8 * 4;
-- 
2.43.0


From 7dc84a66993d148d1005bff75d41e891eaeb6e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:49 +0000
Subject: [PATCH 04/13] fix: BC6H blocks of a reserved mode decode to opaque
 black

---
 src/bcn/bc6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index e01beb4..0888375 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -350,7 +350,7 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
         mode |= (bit.read(3) << 2) as u8;
 
         if 0 == S_BC6H_MODE_INFO[mode as usize].endpoint_bits {
-            outbuf[0..16].fill(0);
+            outbuf[0..16].fill(color(0, 0, 0, 255));
             return;
         }
 
-- 
2.43.0


From 71d89a1b34ef6e9d94fd488b43bc029173c3df54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:49 +0000
Subject: [PATCH 05/13] fix: BC6H end point mask overflows in the 16-bit mode

---
 src/bcn/bc6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index 0888375..25b54bd 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -675,7 +675,7 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
         }
 
         if mi.transformed {
-            let mask = (1 << mi.endpoint_bits) - 1;
+            let mask = ((1u32 << mi.endpoint_bits) - 1) as u16;
 
             ep_r[ii] = ep_r[ii].overflowing_add(ep_r[0]).0 & mask;
             ep_g[ii] = ep_g[ii].overflowing_add(ep_g[0]).0 & mask;
-- 
2.43.0


From e33ce172245753b3f0c27c83a1dac2c892e53730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:49 +0000
Subject: [PATCH 06/13] fix: the largest unsigned BC6H end point unquantizes to
 0xffff

---
 src/bcn/bc6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index 25b54bd..76afe8e 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -304,7 +304,7 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
         return 0;
     }
 
-    if _value == max_value {
+    if _value == ((1u32 << _endpoint_bits) - 1) as u16 {
         return u16::MAX;
     }
 
-- 
2.43.0


From eadb8ef289499ddc3eebc6a2f25b389c600dfe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:09 +0000
Subject: [PATCH 07/13] fix: signed BC6H end points and interpolation use two's
 complement arithmetic

---
 src/bcn/bc6.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index 76afe8e..24df1e8 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -281,7 +281,8 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
         }
 
         let sign: bool = _value & 0x8000 != 0;
-        let _value = _value & 0x7fff;
+        // the value is sign extended two's complement: work on its magnitude
+        let _value = if sign { _value.wrapping_neg() } else { _value };
 
         let unq: u16;
 
@@ -293,7 +294,7 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
             unq = ((((_value as u32) << 15) + 0x4000) >> (_endpoint_bits - 1)) as u16;
         }
 
-        return if sign { u16::MAX - unq + 1 } else { unq };
+        return if sign { unq.wrapping_neg() } else { unq };
     }
 
     if _endpoint_bits >= 15 {
@@ -311,12 +312,12 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
     ((((_value as u32) << 15) + 0x4000) >> (_endpoint_bits - 1)) as u16
 }
 
-fn finish_unquantize(_value: u16, _signed: bool) -> u16 {
+fn finish_unquantize(_value: i32, _signed: bool) -> u16 {
     if _signed {
-        let sign: u16 = _value & 0x8000;
-        (((_value & 0x7fff) as u32 * 31) >> 5) as u16 | sign
+        let sign: u16 = if _value < 0 { 0x8000 } else { 0 };
+        ((_value.abs() * 31) >> 5) as u16 | sign
     } else {
-        ((_value as u32 * 31) >> 6) as u16
+        ((_value * 31) >> 6) as u16
     }
 }
 
@@ -723,24 +724,27 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
             let num = index_bits - anchor as usize;
             let index = bit.read(num) as usize;
 
-            let fc = factors[index] as u32;
-            let fca = 64 - fc;
-            let fcb = fc;
+            let fc = factors[index] as i32;
+            let interpolate = |a: u16, b: u16| -> i32 {
+                let (a, b) = if signed {
+                    (a as i16 as i32, b as i16 as i32)
+                } else {
+                    (a as i32, b as i32)
+                };
+                (a * (64 - fc) + b * fc + 32) >> 6
+            };
 
             subset_index *= 2;
             let rr = finish_unquantize(
-                ((ep_r[subset_index] as u32 * fca + ep_r[subset_index + 1] as u32 * fcb + 32) >> 6)
-                    as u16,
+                interpolate(ep_r[subset_index], ep_r[subset_index + 1]),
                 signed,
             );
             let gg = finish_unquantize(
-                ((ep_g[subset_index] as u32 * fca + ep_g[subset_index + 1] as u32 * fcb + 32) >> 6)
-                    as u16,
+                interpolate(ep_g[subset_index], ep_g[subset_index + 1]),
                 signed,
             );
             let bb = finish_unquantize(
-                ((ep_b[subset_index] as u32 * fca + ep_b[subset_index + 1] as u32 * fcb + 32) >> 6)
-                    as u16,
+                interpolate(ep_b[subset_index], ep_b[subset_index + 1]),
                 signed,
             );
 
-- 
2.43.0


From 5063c636e2374e4a2bbc135b88e917e72b0c791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:43 +0000
Subject: [PATCH 08/13] fix: size products overflow in the image decoders

The amount of data and the image size were computed with wrapping products,
so absurd sizes passed the checks and panicked later.  decode_astc divided by
a zero block size.
---
 src/astc.rs   | 10 +++++++---
 src/macros.rs |  4 ++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 3a15e8c..20654a0 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -1779,21 +1779,25 @@ pub fn decode_astc(
     block_height: usize,
     image: &mut [u32],
 ) -> Result<(), &'static str> {
+    if block_width == 0 || block_height == 0 {
+        return Err("Block size is zero!");
+    }
+
     let num_blocks_x = width.div_ceil(block_width);
     let num_blocks_y = height.div_ceil(block_height);
     let mut buffer: [u32; 144] = [0; 144];
     let mut data_offset = 0;
 
-    if data.len() < num_blocks_x * num_blocks_y * 16 {
+    if data.len() < num_blocks_x.saturating_mul(num_blocks_y).saturating_mul(16) {
         return Err("Not enough data to decode image!");
     }
 
-    let expected_image_size = width * height;
+    let expected_image_size = width.saturating_mul(height);
     if image.len() < expected_image_size {
         return Err("Image buffer is too small!");
     }
 
-    if block_width * block_height > 144 {
+    if block_width.saturating_mul(block_height) > 144 {
         return Err("Block size is too big!");
     }
 
diff --git a/src/macros.rs b/src/macros.rs
index ab6ab4b..d93c0c8 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -11,11 +11,11 @@ macro_rules! block_decoder{
                 let num_blocks_y: usize = height.div_ceil(BLOCK_HEIGHT);
                 let mut buffer: [u32; BLOCK_SIZE] = [crate::color::color(0,0,0,255); BLOCK_SIZE];
 
-                if data.len() < num_blocks_x * num_blocks_y * $raw_block_size {
+                if data.len() < num_blocks_x.saturating_mul(num_blocks_y).saturating_mul($raw_block_size) {
                     return Err("Not enough data to decode image!");
                 }
 
-                if image.len() < width * height {
+                if image.len() < width.saturating_mul(height) {
                     return Err("Image buffer is too small!");
                 }
 
-- 
2.43.0


From e9784e6acaf72c4dbdc5484aa070ce5d83de332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:43 +0000
Subject: [PATCH 09/13] fix: ASTC HDR end point offsets are sign extended to 32
 bits

---
 src/astc.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 20654a0..e80ed6b 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -844,31 +844,31 @@ fn decode_endpoints_hdr11(endpoints: &mut [i32], v: &[i32], alpha1: i32, alpha2:
         0 | 2 => {
             vd0 = v[4] & 0x7f;
             if vd0 & 0x40 != 0 {
-                vd0 |= 0xff80;
+                vd0 |= !0x7f;
             }
             vd1 = v[5] & 0x7f;
             if vd1 & 0x40 != 0 {
-                vd1 |= 0xff80;
+                vd1 |= !0x7f;
             }
         }
         1 | 3 | 5 | 7 => {
             vd0 = v[4] & 0x3f;
             if vd0 & 0x20 != 0 {
-                vd0 |= 0xffc0;
+                vd0 |= !0x3f;
             }
             vd1 = v[5] & 0x3f;
             if vd1 & 0x20 != 0 {
-                vd1 |= 0xffc0;
+                vd1 |= !0x3f;
             }
         }
         _ => {
             vd0 = v[4] & 0x1f;
             if vd0 & 0x10 != 0 {
-                vd0 |= 0xffe0;
+                vd0 |= !0x1f;
             }
             vd1 = v[5] & 0x1f;
             if vd1 & 0x10 != 0 {
-                vd1 |= 0xffe0;
+                vd1 |= !0x1f;
             }
         }
     }
-- 
2.43.0


From 1314a48c08284c7dde7da020539fc0f0bf6e9542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:43 +0000
Subject: [PATCH 10/13] fix: illegal ASTC blocks decode to the error color
 instead of panicking

---
 src/astc.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index e80ed6b..32e36fd 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -533,7 +533,8 @@ fn decode_intseq(
     }
 }
 
-fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
+/// Returns false for an illegal encoding.
+fn decode_block_params(buf: &[u8], block_data: &mut BlockData) -> bool {
     block_data.dual_plane = (buf[1] & 4) != 0;
     block_data.weight_range = ((buf[0] >> 4 & 1) | (buf[1] << 2 & 8)) as usize;
 
@@ -610,6 +611,16 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         _ => block_data.weight_num as i32 * WEIGHT_PREC_TABLE_B[block_data.weight_range],
     };
 
+    if block_data.bw * block_data.bh > 144
+        || block_data.width > block_data.bw
+        || block_data.height > block_data.bh
+        || block_data.weight_num > 64
+        || !(24..=96).contains(&weight_bits)
+        || (block_data.dual_plane && block_data.part_num == 4)
+    {
+        return false;
+    }
+
     if block_data.part_num == 1 {
         block_data.cem[0] = (u8ptr_to_u16(&buf[1..]) >> 5 & 0xf) as usize;
         config_bits = 17;
@@ -659,15 +670,20 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         ) as usize;
     }
 
-    let remain_bits = 128 - config_bits - weight_bits as usize;
+    let remain_bits = 128usize.saturating_sub(config_bits + weight_bits as usize);
 
     block_data.endpoint_value_num = 0;
 
     (0..block_data.part_num)
         .for_each(|i| block_data.endpoint_value_num += (block_data.cem[i] >> 1 & 6) + 2);
 
+    if block_data.endpoint_value_num > 18 {
+        return false;
+    }
+
     let mut endpoint_bits: usize;
-    for i in 0..CEM_TABLE_A.len() {
+    // the end points need at least six levels, the last two ranges are illegal
+    for i in 0..CEM_TABLE_A.len() - 2 {
         match CEM_TABLE_A[i] {
             3 => {
                 endpoint_bits = block_data.endpoint_value_num * CEM_TABLE_B[i]
@@ -683,9 +699,10 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         }
         if endpoint_bits <= remain_bits {
             block_data.cem_range = i;
-            break;
+            return true;
         }
     }
+    false
 }
 
 fn decode_endpoints_hdr7(endpoints: &mut [i32], v: &[i32]) {
@@ -1761,7 +1778,10 @@ pub fn decode_astc_block(buf: &[u8], block_width: usize, block_height: usize, ou
         let mut block_data = BlockData::default();
         block_data.bw = block_width;
         block_data.bh = block_height;
-        decode_block_params(buf, &mut block_data);
+        if !decode_block_params(buf, &mut block_data) {
+            outbuf[0..(block_width * block_height)].fill(color(255, 0, 255, 255));
+            return;
+        }
         decode_endpoints(buf, &mut block_data);
         decode_weights(buf, &mut block_data);
         if block_data.part_num > 1 {
-- 
2.43.0


From 01f10b281b5a62ce4f07b1f01fc8b98ef1dacd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:51 +0000
Subject: [PATCH 11/13] fix: ASTC void-extent blocks with an illegal extent
 decode to the error color

---
 src/astc.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/astc.rs b/src/astc.rs
index 32e36fd..a8b87c7 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -1757,10 +1757,21 @@ fn applicate_color(data: &mut BlockData, outbuf: &mut [u32]) {
     }
 }
 
+/// The reserved bits are set, and the extent is either absent (all ones) or not empty.
+#[inline]
+fn is_legal_void_extent(buf: &[u8]) -> bool {
+    let extent = u64::from_le_bytes(buf[..8].try_into().unwrap()) >> 12;
+    let coord = |i: u32| extent >> (13 * i) & 0x1fff;
+    (buf[1] & 0xc) == 0xc
+        && (extent == (1 << 52) - 1 || (coord(0) < coord(1) && coord(2) < coord(3)))
+}
+
 #[inline]
 pub fn decode_astc_block(buf: &[u8], block_width: usize, block_height: usize, outbuf: &mut [u32]) {
     if buf[0] == 0xfc && (buf[1] & 1) == 1 {
-        let c: u32 = if buf[1] & 2 != 0 {
+        let c: u32 = if !is_legal_void_extent(buf) {
+            color(255, 0, 255, 255)
+        } else if buf[1] & 2 != 0 {
             color(
                 f16ptr_to_u8(&buf[8..]),
                 f16ptr_to_u8(&buf[10..]),
-- 
2.43.0


From d2b4ddff7b3f7b4b82ab6e3244e2d46d0c3a2d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:59 +0000
Subject: [PATCH 12/13] fix: PVRTC size checks panic, or accept too little data

---
 src/pvrtc.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index 03bc2d1..e2b42bb 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -382,16 +382,16 @@ pub fn decode_pvrtc(
     let block_width: usize = if is2bpp { 8 } else { 4 };
     let num_blocks_x: usize = width.div_ceil(block_width);
     let num_blocks_y: usize = height.div_ceil(4);
-    let num_blocks: usize = num_blocks_x * num_blocks_y;
+    let num_blocks: usize = num_blocks_x.saturating_mul(num_blocks_y);
     let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks * block_width {
+    if data.len() < num_blocks.saturating_mul(8) {
         return Err("The data buffer is too small!");
     }
-    if image.len() < width * height {
+    if image.len() < width.saturating_mul(height) {
         return Err("The image buffer is too small!");
     }
-    if ((num_blocks_x & (num_blocks_x - 1)) != 0) || ((num_blocks_y & (num_blocks_y - 1)) != 0) {
+    if !num_blocks_x.is_power_of_two() || !num_blocks_y.is_power_of_two() {
         return Err("The number of blocks of each side must be a power of 2!");
     }
 
-- 
2.43.0


From 9614de985c9c7c52007c525ce24407e28c55e0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:11 +0000
Subject: [PATCH 13/13] fix: the crate does not build without the alloc feature

---
 src/lib.rs   |  4 ++++
 src/pvrtc.rs | 27 ++++++++++++---------------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2b59550..258dbc8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -88,6 +88,7 @@ mod macros;
 mod astc;
 mod atc;
 mod bcn;
+#[cfg(feature = "alloc")]
 mod crnlib;
 #[cfg(feature = "alloc")]
 mod crunch;
@@ -100,8 +101,11 @@ mod unitycrunch;
 pub use astc::*;
 pub use atc::*;
 pub use bcn::*;
+#[cfg(feature = "alloc")]
 pub use crnlib::CrnTextureInfo;
+#[cfg(feature = "alloc")]
 pub use crunch::decode_crunch;
 pub use etc::*;
 pub use pvrtc::*;
+#[cfg(feature = "alloc")]
 pub use unitycrunch::decode_unity_crunch;
diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index e2b42bb..314577f 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -453,28 +453,24 @@ pub fn decode_pvrtc(
 #[cfg(not(feature = "alloc"))]
 pub fn decode_pvrtc(
     data: &[u8],
-    w: usize,
-    h: usize,
+    width: usize,
+    height: usize,
     image: &mut [u32],
     is2bpp: bool,
 ) -> Result<(), &'static str> {
-    let bw: usize = if is2bpp { 8 } else { 4 };
-    let num_blocks_x: usize = if is2bpp { (w + 7) / 8 } else { (w + 3) / 4 };
-    let num_blocks_y: usize = (h + 3) / 4;
-    let num_blocks: usize = num_blocks_x * num_blocks_y;
-    let min_num_blocks: usize = if num_blocks_x <= num_blocks_y {
-        num_blocks_x
-    } else {
-        num_blocks_y
-    };
+    let block_width: usize = if is2bpp { 8 } else { 4 };
+    let num_blocks_x: usize = width.div_ceil(block_width);
+    let num_blocks_y: usize = height.div_ceil(4);
+    let num_blocks: usize = num_blocks_x.saturating_mul(num_blocks_y);
+    let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks * block_width {
+    if data.len() < num_blocks.saturating_mul(8) {
         return Err("The data buffer is too small!");
     }
-    if image.len() < width * height {
+    if image.len() < width.saturating_mul(height) {
         return Err("The image buffer is too small!");
     }
-    if ((num_blocks_x & (num_blocks_x - 1)) != 0) || ((num_blocks_y & (num_blocks_y - 1)) != 0) {
+    if !num_blocks_x.is_power_of_two() || !num_blocks_y.is_power_of_two() {
         return Err("The number of blocks of each side must be a power of 2!");
     }
 
@@ -520,9 +516,10 @@ pub fn decode_pvrtc(
                 &mut local_info,
                 &mut buffer,
             );
-            copy_block_buffer(bx, by, w, h, bw, 4, &buffer, image);
+            copy_block_buffer(bx, by, width, height, block_width, 4, &buffer, image);
         }
     }
+    Ok(())
 }
 
 pub fn decode_pvrtc_2bpp(
-- 
2.43.0

