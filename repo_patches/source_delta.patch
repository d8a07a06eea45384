From a89ebbcf2006c0b9e625d2ea6a13e54039d21e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 01/29] fix: brightness: process the trailing bytes and leave
 the alpha channel unchanged in the vector path

---
 src/simd.rs | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index c4ab1ca..a3f93cf 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -16,19 +16,27 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
     let num_bytes = input.info().full_size();
     let mut data: Vec<u8> = vec![0; num_bytes as usize];
 
-    // Load val into 256-bit SIMD register
-    let mut val_256 = _mm256_set1_epi8(val.abs() as i8);
+    let channels = input.info().channels as usize;
+    let alpha = input.info().alpha;
 
-    // Mask the alpha bit if present
-    if input.info().alpha {
-        let zeroes_256 = _mm256_setzero_si256();
-        let alpha_mask = _mm256_set1_epi32(-2 * 2_i32.pow(30));
-        val_256 = _mm256_blendv_epi8(val_256, zeroes_256, alpha_mask);
+    // Add zero to the alpha channel if present
+    let mut vals = [val.abs() as u8; 32];
+    if alpha {
+        for j in ((channels - 1)..32).step_by(channels) {
+            vals[j] = 0;
+        }
     }
 
-    // Process 32 bytes at a time
+    // Load vals into 256-bit SIMD register
+    let val_256 = _mm256_loadu_si256(vals.as_ptr() as *const _);
+
+    // In order to reuse vals for every chunk if there is an alpha channel, we can only process
+    // chunks that consist of whole pixels
+    let step = if alpha { (32 / channels * channels) as u32 } else { 32 };
+
+    // Process up to 32 bytes at a time
     let mut i = 0;
-    while (i + 32) <= num_bytes {
+    while step > 0 && (i + 32) <= num_bytes {
         // Load 32-byte chunk into 256-bit SIMD register
         let chunk = _mm256_loadu_si256(input.data().as_ptr().
             offset(i as isize) as *const _);
@@ -43,14 +51,16 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
         // Store 32 bytes in output vector
         _mm256_storeu_si256(data.as_mut_ptr().offset(i as isize) as *mut _, res);
 
-        i += 32;
+        i += step;
     }
 
     // Process the remaining bytes normally
-    if i > num_bytes {
-        for j in (i - 32)..num_bytes {
-            data[j as usize] = (input.data()[j as usize] as i16 + val).clamp(0, 255) as u8;
-        }
+    for j in (i as usize)..(num_bytes as usize) {
+        data[j] = if alpha && j % channels == channels - 1 {
+            input.data()[j]
+        } else {
+            (input.data()[j] as i16 + val).clamp(0, 255) as u8
+        };
     }
 
     Image::from_vec(input.info().width, input.info().height, input.info().channels,
-- 
2.43.0


From ae90d1bb3c6705c0bc0f228dc9d80eec64fa50a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 02/29] fix: saturation: process the trailing bytes, keep the
 other channels and stay inside the buffers in the vector path

---
 src/simd.rs | 59 +++++++++++++++++++----------------------------------
 1 file changed, 21 insertions(+), 38 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index a3f93cf..83278bf 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -75,43 +75,24 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
     let num_bytes = input.info().full_size();
     let mut data: Vec<u8> = vec![0; num_bytes as usize];
 
-    let mut val_256 = _mm256_set1_epi8(val.abs() as i8);
-    let zeroes_256 = _mm256_setzero_si256();
-
-    // Create masks for the channels we want to ignore
-    let mask = if input.info().alpha {
-        match n {
-            0 => _mm256_set1_epi32(0x80),
-            1 => _mm256_set1_epi32(0x8000),
-            2 => _mm256_set1_epi32(0x800000),
-            3 => _mm256_set1_epi32(-0x80000000),
-            _ => _mm256_setzero_si256()
-        }
-    } else {
-        match n {
-            0 => _mm256_set_epi64x(0x80000080, 0x800000800000,
-                                   -0x7FFFFF7FFFFF8000, 0x80000080000080),
-            1 => _mm256_set_epi64x(0x8000008000, 0x80000080000080,
-                                   0x800000800000, -0x7FFFFF7FFFFF8000),
-            2 => _mm256_set_epi64x(0x800000800000, -0x7FFFFF7FFFFF8000,
-                                   0x80000080000080, 0x800000800000),
-            _ => _mm256_setzero_si256()
-        }
-    };
-    val_256 = _mm256_blendv_epi8(zeroes_256, val_256, mask);
-
-    // In order to reuse the mask for every chunk in a 3-channel pixel, we can only process chunks
-    // that are multiples of 8 * 3 = 24 bits. The largest such chunk that fits in 256 bits is
-    // 24 * 10 = 240 bits = 30 bytes.
-    let mut step = 30;
+    let channels = input.info().channels as usize;
+    let all = n as usize >= channels;
 
-    // 4-channel pixels fit evenly within 32-byte chunks
-    if input.info().alpha {
-        step = 32;
+    // Add zero to the channels we want to ignore
+    let mut vals = [0u8; 32];
+    for j in 0..32 {
+        if all || j % channels == n as usize {
+            vals[j] = val.abs() as u8;
+        }
     }
+    let val_256 = _mm256_loadu_si256(vals.as_ptr() as *const _);
+
+    // In order to reuse vals for every chunk, we can only process chunks that consist of whole
+    // pixels
+    let step = (32 / channels * channels) as u32;
 
     let mut i = 0;
-    while (i + step) <= num_bytes {
+    while step > 0 && (i + 32) <= num_bytes {
         let chunk = _mm256_loadu_si256(input.data().as_ptr().
             offset(i as isize) as *const _);
 
@@ -126,11 +107,13 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
         i += step;
     }
 
-    if i > num_bytes {
-        for j in ((i - step)..num_bytes).step_by(input.info().channels as usize) {
-            let index = j as usize + n as usize;
-            data[index] = (input.data()[index] as i16 + val).clamp(0, 255) as u8;
-        }
+    // Process the remaining bytes normally
+    for j in (i as usize)..(num_bytes as usize) {
+        data[j] = if all || j % channels == n as usize {
+            (input.data()[j] as i16 + val).clamp(0, 255) as u8
+        } else {
+            input.data()[j]
+        };
     }
 
     Image::from_vec(input.info().width, input.info().height, input.info().channels,
-- 
2.43.0


From 35add073a9f1bece122ce45eed3c60b128d6b03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 03/29] fix: grayscale: compute exact averages of every pixel
 in the vector path and use it for three colour channels only

---
 src/colorspace.rs |  4 +++-
 src/simd.rs       | 48 ++++++++++++++++++++++++++++++-----------------
 2 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/colorspace.rs b/src/colorspace.rs
index e58c3e3..31604b2 100644
--- a/src/colorspace.rs
+++ b/src/colorspace.rs
@@ -4,6 +4,8 @@ use std::cmp;
 
 use crate::enums::White;
 use crate::image::Image;
+#[cfg(feature = "simd")]
+use crate::image::BaseImage;
 use crate::util;
 use crate::util::constants::{GAMMA, SRGB_TO_XYZ_MAT, XYZ_TO_SRGB_MAT};
 
@@ -14,7 +16,7 @@ use crate::simd;
 pub fn rgb_to_grayscale(input: &Image<u8>) -> Image<u8> {
     #[cfg(feature = "simd")]
     {
-        if is_x86_feature_detected!("avx2") {
+        if is_x86_feature_detected!("avx2") && input.info().channels_non_alpha() == 3 {
             simd::avg_checked_256_u8(input)
         } else {
             rgb_to_grayscale_norm(input)
diff --git a/src/simd.rs b/src/simd.rs
index 83278bf..732bedf 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -173,6 +173,26 @@ pub unsafe fn deinterleave_4_256_u8(input: &Image<u8>, offset: usize) -> (__m256
     (r_256, g_256, b_256, a_256)
 }
 
+/// Computes the averages (rounded down) of the 8-bit integers of `r`, `g`, and `b`
+#[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
+#[target_feature(enable = "avx2")]
+unsafe fn avg_3_256_u8(r: __m256i, g: __m256i, b: __m256i) -> __m256i {
+    let zeroes_256 = _mm256_setzero_si256();
+    let third_256 = _mm256_set1_epi16(0xAAAB_u16 as i16);
+
+    // Compute the sums using 16-bit integers
+    let sum_lo = _mm256_add_epi16(_mm256_add_epi16(_mm256_unpacklo_epi8(r, zeroes_256),
+                                                   _mm256_unpacklo_epi8(g, zeroes_256)),
+                                  _mm256_unpacklo_epi8(b, zeroes_256));
+    let sum_hi = _mm256_add_epi16(_mm256_add_epi16(_mm256_unpackhi_epi8(r, zeroes_256),
+                                                   _mm256_unpackhi_epi8(g, zeroes_256)),
+                                  _mm256_unpackhi_epi8(b, zeroes_256));
+
+    // Divide by 3: 0xAAAB / 2^17 is close enough to 1 / 3 for all 16-bit integers
+    _mm256_packus_epi16(_mm256_srli_epi16(_mm256_mulhi_epu16(sum_lo, third_256), 1),
+                        _mm256_srli_epi16(_mm256_mulhi_epu16(sum_hi, third_256), 1))
+}
+
 /// Computes the average of each 3-channel pixel of `input` and returns a grayscale image
 #[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
 #[target_feature(enable = "avx2")]
@@ -186,9 +206,7 @@ pub unsafe fn avg_256_u8(input: &Image<u8>) -> Image<u8> {
     while (i + chunk_size) <= num_bytes {
         let (r, g, b) = deinterleave_3_256_u8(input, i);
 
-        // Approximate average
-        let avg_rg = _mm256_avg_epu8(r, g);
-        let avg_rgb = _mm256_avg_epu8(avg_rg, b);
+        let avg_rgb = avg_3_256_u8(r, g, b);
 
         _mm256_storeu_si256(data.as_mut_ptr().offset((i / channels) as isize)
                                 as *mut _, avg_rgb);
@@ -196,11 +214,10 @@ pub unsafe fn avg_256_u8(input: &Image<u8>) -> Image<u8> {
         i += chunk_size;
     }
 
-    if i > num_bytes {
-        for j in ((i - chunk_size)..num_bytes).step_by(3) {
-            let sum = (input.data()[i] + input.data()[i + 1] + input.data()[i + 2]) as f32;
-            data[j / channels] = (sum / 3.0).round() as u8;
-        }
+    // Process the remaining pixels normally
+    for j in (i..num_bytes).step_by(channels) {
+        let sum = input.data()[j] as u16 + input.data()[j + 1] as u16 + input.data()[j + 2] as u16;
+        data[j / channels] = (sum / 3) as u8;
     }
 
     Image::from_vec(input.info().width, input.info().height, 1,
@@ -221,9 +238,7 @@ pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
     while (i + chunk_size) <= num_bytes {
         let (r, g, b, a) = deinterleave_4_256_u8(input, i);
 
-        // Approximate average
-        let avg_rg = _mm256_avg_epu8(r, g);
-        let avg_rgb = _mm256_avg_epu8(avg_rg, b);
+        let avg_rgb = avg_3_256_u8(r, g, b);
 
         // Interleave the alpha and grayscale channels
         let unpacked_lo = _mm256_unpacklo_epi8(avg_rgb, a);
@@ -240,12 +255,11 @@ pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
         i += chunk_size;
     }
 
-    if i > num_bytes {
-        for j in ((i - chunk_size)..num_bytes).step_by(channels) {
-            let sum = (input.data()[i] + input.data()[i + 1] + input.data()[i + 2]) as f32;
-            data[j / 2] = (sum / 3.0).round() as u8;
-            data[j / 2 + 1] = input.data()[i + 3];
-        }
+    // Process the remaining pixels normally
+    for j in (i..num_bytes).step_by(channels) {
+        let sum = input.data()[j] as u16 + input.data()[j + 1] as u16 + input.data()[j + 2] as u16;
+        data[j / 2] = (sum / 3) as u8;
+        data[j / 2 + 1] = input.data()[j + 3];
     }
 
     Image::from_vec(input.info().width, input.info().height, 2,
-- 
2.43.0


From 9444347d10e8406de5a071522219176b7940a5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 04/29] fix: get_subimage: store pixels row by row as SubImage
 indexes them

---
 src/image/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index aa14c82..03ae501 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -293,8 +293,8 @@ impl<T: Number> Image<T> {
 
         let mut data = Vec::new();
 
-        for i in x..(x + width) {
-            for j in y..(y + height) {
+        for j in y..(y + height) {
+            for i in x..(x + width) {
                 data.push(self.get_pixel(i, j));
             }
         }
-- 
2.43.0


From c627299154f251d474acf65346fda4928acd67c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 05/29] fix: get_neighborhood: clamp out-of-range coordinates
 to the nearest edge pixel

---
 src/image/mod.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index 03ae501..ca05f54 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -318,8 +318,7 @@ impl<T: Number> Image<T> {
             let start_y = (y as i32) - (size as i32) / 2;
 
             for i in 0..size {
-                let mut curr_y = start_y + (i as i32);
-                if curr_y < 0 || curr_y >= self.info.height as i32 { curr_y = y as i32 };
+                let curr_y = (start_y + (i as i32)).clamp(0, self.info.height as i32 - 1);
 
                 data.push(self.get_pixel(x, curr_y as u32));
             }
@@ -329,8 +328,7 @@ impl<T: Number> Image<T> {
             let start_x = (x as i32) - (size as i32) / 2;
 
             for i in 0..size {
-                let mut curr_x = start_x + (i as i32);
-                if curr_x < 0 || curr_x >= self.info.width as i32 { curr_x = x as i32 };
+                let curr_x = (start_x + (i as i32)).clamp(0, self.info.width as i32 - 1);
 
                 data.push(self.get_pixel(curr_x as u32, y));
             }
@@ -354,11 +352,8 @@ impl<T: Number> Image<T> {
         let mut data = Vec::new();
         for i in 0..size {
             for j in 0..size {
-                let mut curr_x = start_x + (j as i32);
-                let mut curr_y = start_y + (i as i32);
-
-                if curr_x < 0 || curr_x >= self.info.width as i32 { curr_x = x as i32 };
-                if curr_y < 0 || curr_y >= self.info.height as i32 { curr_y = y as i32 };
+                let curr_x = (start_x + (j as i32)).clamp(0, self.info.width as i32 - 1);
+                let curr_y = (start_y + (i as i32)).clamp(0, self.info.height as i32 - 1);
 
                 data.push(self.get_pixel(curr_x as u32, curr_y as u32));
             }
-- 
2.43.0


From 980ced7457bc25a69f6fe542450526b3773f678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 06/29] fix: box_filter: average the size x size window

---
 src/filter/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index c07eb92..85e1976 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -132,8 +132,7 @@ pub fn linear_filter(input: &Image<f32>, kernel: &[f32]) -> ImgProcResult<Image<
 pub fn box_filter(input: &Image<f32>, size: u32) -> ImgProcResult<Image<f32>> {
     error::check_odd(size, "size")?;
 
-    let len = (size * size) as usize;
-    let kernel = vec![1.0 / ((size * size) as f32); len];
+    let kernel = vec![1.0 / (size as f32); size as usize];
 
     Ok(separable_filter(input, &kernel, &kernel)?)
 }
-- 
2.43.0


From 5099d3babc3fe2062f5441db38ba6f64491ceb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 07/29] fix: derivative_mask: accept grayscale images with
 alpha

---
 src/filter/edge.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/filter/edge.rs b/src/filter/edge.rs
index 07d83e0..ea6029b 100644
--- a/src/filter/edge.rs
+++ b/src/filter/edge.rs
@@ -16,8 +16,13 @@ pub fn derivative_mask(input: &Image<f32>, vert_kernel: &[f32], horz_kernel: &[f
 
     let mut output = Image::blank(input.info());
 
-    for i in 0..(output.info().full_size() as usize) {
-        output.set_pixel_indexed(i, &[(img_x[i][0].powf(2.0) + img_y[i][0].powf(2.0)).sqrt()]);
+    for i in 0..(output.info().size() as usize) {
+        output[i][0] = (img_x[i][0].powf(2.0) + img_y[i][0].powf(2.0)).sqrt();
+
+        // Keep the alpha channel if present
+        if input.info().alpha {
+            output[i][1] = input[i][1];
+        }
     }
 
     Ok(output)
-- 
2.43.0


From 3f78f93ff2f5f1fb28e95c16df5ba7980cbd6fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 08/29] fix: brightness: check the range of the bias without
 overflowing

---
 src/tone.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tone.rs b/src/tone.rs
index 72b3968..0757da8 100644
--- a/src/tone.rs
+++ b/src/tone.rs
@@ -16,7 +16,7 @@ use std::collections::HashMap;
 ///
 /// * `bias` - Must be between -255 and 255 (inclusive)
 pub fn brightness(input: &Image<u8>, bias: i16) -> ImgProcResult<Image<u8>> {
-    error::check_in_range(bias.abs(), -255, 255, "bias")?;
+    error::check_in_range(bias, -255, 255, "bias")?;
 
     #[cfg(feature = "simd")]
     {
@@ -43,7 +43,7 @@ fn brightness_rgb_norm(input: &Image<u8>, bias: i16) -> Image<u8> {
 ///
 /// * `bias` - Must be between -255 and 255 (inclusive)
 pub fn brightness_lab(input: &Image<u8>, bias: i16) -> ImgProcResult<Image<u8>> {
-    error::check_in_range(bias.abs(), -255, 255, "bias")?;
+    error::check_in_range(bias, -255, 255, "bias")?;
 
     let mut lab = colorspace::srgb_to_lab_f32(input, &White::D50);
     let bias_lab = (bias as f32) / 255.0 * 100.0;
-- 
2.43.0


From fa4f5aa0a6fc6dd43215b4086cd119e58536740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 09/29] fix: generate_histogram_percentiles: count every pixel
 exactly once

---
 src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index f2edec9..c09ffdb 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -41,7 +41,7 @@ pub fn generate_histogram_percentiles(input: &Image<f32>, percentiles: &mut Hash
     for y in 0..(input.info().height) {
         for x in 0..(input.info().width) {
             let p = (input.get_pixel(x, y)[0] * precision).round() as i32;
-            let count = histogram.entry(p).or_insert(1);
+            let count = histogram.entry(p).or_insert(0);
             *count += 1;
         }
     }
-- 
2.43.0


From 5ad6b3ef1ff593c37828104ddeace6ea39aa9350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 10/29] fix: generate_spatial_mat: give the centre its weight
 and reject even sizes instead of panicking

---
 src/filter/bilateral.rs | 12 ++++++++++--
 src/util/mod.rs         |  4 +++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/filter/bilateral.rs b/src/filter/bilateral.rs
index 9e1639a..a4011b3 100644
--- a/src/filter/bilateral.rs
+++ b/src/filter/bilateral.rs
@@ -14,7 +14,11 @@ pub fn bilateral_filter(input: &Image<u8>, range: f32, spatial: f32, algorithm:
     error::check_non_neg(spatial, "spatial")?;
 
     let (width, height, channels) = input.info().whc();
-    let size = ((spatial * 4.0) + 1.0) as u32;
+    let mut size = ((spatial * 4.0) + 1.0) as u32;
+    if size % 2 == 0 {
+        size += 1;
+    }
+
     let spatial_mat = util::generate_spatial_mat(size, spatial)?;
 
     let lab = colorspace::srgb_to_lab_f32(&input, &White::D65);
@@ -43,7 +47,11 @@ pub fn bilateral_filter(input: &Image<u8>, range: f32, spatial: f32, algorithm:
     error::check_non_neg(spatial, "spatial")?;
 
     let (width, height, channels, alpha) = input.info().whca();
-    let size = ((spatial * 4.0) + 1.0) as u32;
+    let mut size = ((spatial * 4.0) + 1.0) as u32;
+    if size % 2 == 0 {
+        size += 1;
+    }
+
     let spatial_mat = util::generate_spatial_mat(size, spatial)?;
 
     let lab = colorspace::srgb_to_lab_f32(&input, &White::D65);
diff --git a/src/util/mod.rs b/src/util/mod.rs
index c09ffdb..d5e533c 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -112,12 +112,14 @@ pub fn generate_log_kernel(size: u32, sigma: f32) -> ImgProcResult<Vec<f32>> {
 
 /// Generates a matrix of distances relative to the center of the matrix
 pub fn generate_spatial_mat(size: u32, spatial: f32) -> ImgProcResult<Vec<f32>> {
+    error::check_odd(size, "size")?;
+
     let center = size / 2;
     let mut mat = vec![0.0; (size * size) as usize];
 
     for y in 0..(center + 1) {
         for x in 0..(center + 1) {
-            if mat[(y * size + x) as usize] == 0.0 && !(x == center && y == center) {
+            if mat[(y * size + x) as usize] == 0.0 {
                 let dist = math::distance(center, center, x, y);
                 let g = math::gaussian_fn(dist, spatial)?;
                 mat[(y * size + x) as usize] = g;
-- 
2.43.0


From 09f5ad95f362db9c25b6c1095b3493389dcf09cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 11/29] fix: morphology: clip windows at the borders, sum
 exactly, keep alpha, and make majority the majority

---
 src/morphology.rs | 129 ++++++++++++++--------------------------------
 src/util/mod.rs   |   8 +--
 2 files changed, 43 insertions(+), 94 deletions(-)

diff --git a/src/morphology.rs b/src/morphology.rs
index 6026868..15020dc 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -4,39 +4,39 @@ use crate::{error, util};
 use crate::error::ImgProcResult;
 use crate::image::{Image, BaseImage};
 
+/// Returns the sum of the pixel intensities of the window with radius `radius` around `(x, y)`
+/// (clipped to the image), and the sum if all of the pixels in the window were white
+fn window_sums(table: &Image<i64>, radius: u32, x: u32, y: u32) -> (i64, i64) {
+    let (width, height) = table.info().wh();
+    let x_top = x.saturating_sub(radius);
+    let x_bot = std::cmp::min(x.saturating_add(radius), width - 1);
+    let y_top = y.saturating_sub(radius);
+    let y_bot = std::cmp::min(y.saturating_add(radius), height - 1);
+    let size = (x_bot - x_top + 1) as i64 * (y_bot - y_top + 1) as i64;
+
+    (util::rectangular_intensity_sum(table, x_top, y_top, x_bot, y_bot)[0], size * 255)
+}
+
+/// Returns a black image with the dimensions and the alpha channel (if present) of `input`
+fn blank_with_alpha(input: &Image<u8>) -> Image<u8> {
+    input.map_channels_if_alpha(|_| 0, |a| a)
+}
+
 /// Erodes a binary image (grayscale image with pixel values of 0 or 255) using a kernel of size
 /// `(2 * radius + 1) x (2 * radius + 1)`
 pub fn erode(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
     let (width, height) =  input.info().wh();
-    let size = 2 * radius + 1;
-    let max_sum = (size * size * 255) as f32;
-    let table = util::generate_summed_area_table(&input.clone().into());
-    let mut output = Image::blank(input.info());
+    let table = util::generate_summed_area_table(&input.map_channels(|channel| channel as i64));
+    let mut output = blank_with_alpha(input);
 
     for y in 0..height {
         for x in 0..width {
-            let mut x_top = x;
-            let mut x_bot = x;
-            let mut y_top = y;
-            let mut y_bot = y;
-
-            if x >= radius {
-                x_top -= radius;
-            }
-            if x < width - radius {
-                x_bot += radius;
-            }
-            if y >= radius {
-                y_top -= radius;
-            }
-            if y < height - radius {
-                y_bot += radius;
-            }
+            let (sum, max_sum) = window_sums(&table, radius, x, y);
 
-            if (util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] - max_sum).abs() < f32::EPSILON {
-                output.set_pixel(x, y, &[255]);
+            if sum == max_sum {
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
@@ -50,31 +50,15 @@ pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
     let (width, height) =  input.info().wh();
-    let table = util::generate_summed_area_table(&input.clone().into());
-    let mut output = Image::blank(input.info());
+    let table = util::generate_summed_area_table(&input.map_channels(|channel| channel as i64));
+    let mut output = blank_with_alpha(input);
 
     for y in 0..height {
         for x in 0..width {
-            let mut x_top = x;
-            let mut x_bot = x;
-            let mut y_top = y;
-            let mut y_bot = y;
-
-            if x >= radius {
-                x_top -= radius;
-            }
-            if x < width - radius {
-                x_bot += radius;
-            }
-            if y >= radius {
-                y_top -= radius;
-            }
-            if y < height - radius {
-                y_bot += radius;
-            }
+            let (sum, _) = window_sums(&table, radius, x, y);
 
-            if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255.0 {
-                output.set_pixel(x, y, &[255]);
+            if sum >= 255 {
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
@@ -88,31 +72,15 @@ pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
     let (width, height) =  input.info().wh();
-    let table = util::generate_summed_area_table(&input.clone().into());
-    let mut output = Image::blank(input.info());
+    let table = util::generate_summed_area_table(&input.map_channels(|channel| channel as i64));
+    let mut output = blank_with_alpha(input);
 
     for y in 0..height {
         for x in 0..width {
-            let mut x_top = x;
-            let mut x_bot = x;
-            let mut y_top = y;
-            let mut y_bot = y;
-
-            if x >= radius {
-                x_top -= radius;
-            }
-            if x < width - radius {
-                x_bot += radius;
-            }
-            if y >= radius {
-                y_top -= radius;
-            }
-            if y < height - radius {
-                y_bot += radius;
-            }
+            let (sum, max_sum) = window_sums(&table, radius, x, y);
 
-            if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255.0 {
-                output.set_pixel(x, y, &[255]);
+            if 2 * sum > max_sum {
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
@@ -136,37 +104,18 @@ pub fn gradient(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
     let (width, height) =  input.info().wh();
-    let size = 2 * radius + 1;
-    let max_sum = (size * size * 255) as f32;
-    let table = util::generate_summed_area_table(&input.clone().into());
-    let mut output = Image::blank(input.info());
+    let table = util::generate_summed_area_table(&input.map_channels(|channel| channel as i64));
+    let mut output = blank_with_alpha(input);
 
     for y in 0..height {
         for x in 0..width {
-            let mut x_top = x;
-            let mut x_bot = x;
-            let mut y_top = y;
-            let mut y_bot = y;
-
-            if x >= radius {
-                x_top -= radius;
-            }
-            if x < width - radius {
-                x_bot += radius;
-            }
-            if y >= radius {
-                y_top -= radius;
-            }
-            if y < height - radius {
-                y_bot += radius;
-            }
+            let (sum, max_sum) = window_sums(&table, radius, x, y);
 
-            let sum = util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0];
-            let erode = ((sum - max_sum).abs() < f32::EPSILON);
-            let dilate = (sum >= 255.0);
+            let erode = (sum == max_sum);
+            let dilate = (sum >= 255);
 
             if erode ^ dilate {
-                output.set_pixel(x, y, &[255]);
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
diff --git a/src/util/mod.rs b/src/util/mod.rs
index d5e533c..2731c56 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -162,10 +162,10 @@ pub fn generate_spatial_mat(size: u32, spatial: f32) -> ImgProcResult<Vec<f32>>
 
 /// Generates a summed-area table in the format of another `Image` of the same type and dimensions
 /// as `input`
-pub fn generate_summed_area_table(input: &Image<f32>) -> Image<f32> {
+pub fn generate_summed_area_table<T: Number>(input: &Image<T>) -> Image<T> {
     let mut output = Image::blank(input.info());
     let (width, height, channels) = input.info().whc();
-    let zeroes = vec![0.0; channels as usize];
+    let zeroes: Vec<T> = vec![0.into(); channels as usize];
 
     for y in 0..height {
         for x in 0..width {
@@ -199,11 +199,11 @@ pub fn generate_summed_area_table(input: &Image<f32>) -> Image<f32> {
 
 /// Computes the sum of pixel intensities over a rectangular region with top left corner located
 /// at `(x_0, y_0)` and bottom right corner located at `(x_1, y_1)`
-pub fn rectangular_intensity_sum(summed_area_table: &Image<f32>, x_0: u32, y_0: u32, x_1: u32, y_1: u32) -> Vec<f32> {
+pub fn rectangular_intensity_sum<T: Number>(summed_area_table: &Image<T>, x_0: u32, y_0: u32, x_1: u32, y_1: u32) -> Vec<T> {
     let channels = summed_area_table.info().channels as usize;
     let mut sum = Vec::new();
 
-    let zeroes = vec![0.0; channels];
+    let zeroes: Vec<T> = vec![0.into(); channels];
     let mut top_left = zeroes.as_slice();
     let mut top_right = zeroes.as_slice();
     let mut bot_left = zeroes.as_slice();
-- 
2.43.0


From 23f4d7d58154edd2bc30452b9e42e51f44606870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 12/29] fix: crop: accept rectangles touching the right and
 bottom edges and do not overflow

---
 src/transform.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 3947459..0409b8a 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -13,12 +13,12 @@ use crate::util;
 /// and height `height`
 #[cfg(not(feature = "rayon"))]
 pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32) -> ImgProcResult<Image<T>> {
-    if (x + width) >= input.info().width {
+    if (x as u64 + width as u64) > input.info().width as u64 {
         return Err(ImgProcError::InvalidArgError(format!("invalid width: input width is {} \
-            but x + width is {}", input.info().width, (x + width))));
-    } else if (y + height) >= input.info().height {
+            but x + width is {}", input.info().width, (x as u64 + width as u64))));
+    } else if (y as u64 + height as u64) > input.info().height as u64 {
         return Err(ImgProcError::InvalidArgError(format!("invalid height: input height is {} \
-            but y + height is {}", input.info().height, (y + height))));
+            but y + height is {}", input.info().height, (y as u64 + height as u64))));
     }
 
     let mut output = Image::blank(ImageInfo::new(width, height,
@@ -37,12 +37,12 @@ pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32
 /// and height `height`
 #[cfg(feature = "rayon")]
 pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32) -> ImgProcResult<Image<T>> {
-    if (x + width) >= input.info().width {
+    if (x as u64 + width as u64) > input.info().width as u64 {
         return Err(ImgProcError::InvalidArgError(format!("invalid width: input width is {} \
-            but x + width is {}", input.info().width, (x + width))));
-    } else if (y + height) >= input.info().height {
+            but x + width is {}", input.info().width, (x as u64 + width as u64))));
+    } else if (y as u64 + height as u64) > input.info().height as u64 {
         return Err(ImgProcError::InvalidArgError(format!("invalid height: input height is {} \
-            but y + height is {}", input.info().height, (y + height))));
+            but y + height is {}", input.info().height, (y as u64 + height as u64))));
     }
 
     let size = width * height;
-- 
2.43.0


From 9afa76e44da59886dee261525c9f939effee15f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 13/29] fix: superimpose: check that the weight is between 0
 and 1

---
 src/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index 0409b8a..5571d79 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -62,7 +62,7 @@ pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32
 /// pixel values of `front`
 pub fn superimpose(back: &Image<f32>, front: &Image<f32>, x: u32, y: u32, alpha: f32) -> ImgProcResult<Image<f32>> {
     error::check_equal(back.info().channels, front.info().channels, "image channels")?;
-    error::check_in_range(0.0, 1.0, alpha, "alpha")?;
+    error::check_in_range(alpha, 0.0, 1.0, "alpha")?;
 
     let mut output = back.clone();
     let width = std::cmp::min(x + front.info().width, back.info().width);
-- 
2.43.0


From 390950a2b0f2fa459d9952ccc63e31027ea58c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:23 +0000
Subject: [PATCH 14/29] fix: overlay, superimpose: do not overflow for
 positions far outside the back image

---
 src/transform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 5571d79..acf5218 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -65,8 +65,8 @@ pub fn superimpose(back: &Image<f32>, front: &Image<f32>, x: u32, y: u32, alpha:
     error::check_in_range(alpha, 0.0, 1.0, "alpha")?;
 
     let mut output = back.clone();
-    let width = std::cmp::min(x + front.info().width, back.info().width);
-    let height = std::cmp::min(y + front.info().height, back.info().height);
+    let width = std::cmp::min(x.saturating_add(front.info().width), back.info().width);
+    let height = std::cmp::min(y.saturating_add(front.info().height), back.info().height);
 
     for j in y..height {
         for i in x..width {
@@ -90,8 +90,8 @@ pub fn overlay<T: Number>(back: &Image<T>, front: &Image<T>, x: u32, y: u32) ->
     error::check_equal(back.info().channels, front.info().channels, "image channels")?;
 
     let mut output = back.clone();
-    let width = std::cmp::min(x + front.info().width, back.info().width);
-    let height = std::cmp::min(y + front.info().height, back.info().height);
+    let width = std::cmp::min(x.saturating_add(front.info().width), back.info().width);
+    let height = std::cmp::min(y.saturating_add(front.info().height), back.info().height);
 
     for j in y..height {
         for i in x..width {
-- 
2.43.0


From 2f5b1aa85f799bb6622bd9a3f5918a75cfa6a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 15/29] fix: scale: keep nearest-neighbour coordinates inside
 the image

---
 src/transform.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index acf5218..12cd8ea 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -430,7 +430,8 @@ fn interpolate_nearest_neighbor(input: &Image<f32>, x_factor: f32, y_factor: f32
     let x_in = (((x + 1) as f32 / x_factor).ceil() - 1.0) as u32;
     let y_in = (((y + 1) as f32 / y_factor).ceil() - 1.0) as u32;
 
-    input.get_pixel(x_in, y_in)
+    input.get_pixel(std::cmp::min(x_in, input.info().width - 1),
+                    std::cmp::min(y_in, input.info().height - 1))
 }
 
 fn interpolate_bilinear(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32, y: u32) -> Vec<f32> {
-- 
2.43.0


From 8a2f505d90e0af69cea31254577442c7d1cde134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 16/29] fix: scale: weight the four bilinear neighbours by
 their proximity

---
 src/transform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 12cd8ea..8473f0b 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -451,10 +451,10 @@ fn interpolate_bilinear(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32
 
     let mut p_out = Vec::with_capacity(input.info().channels as usize);
     for c in 0..(input.info().channels as usize) {
-        p_out.push(p1[c] * x_weight * y_weight
-            + p2[c] * (1.0 - x_weight) * y_weight
-            + p3[c] * x_weight * (1.0 - y_weight)
-            + p4[c] * (1.0 - x_weight) * (1.0 - y_weight));
+        p_out.push(p1[c] * (1.0 - x_weight) * (1.0 - y_weight)
+            + p2[c] * x_weight * (1.0 - y_weight)
+            + p3[c] * (1.0 - x_weight) * y_weight
+            + p4[c] * x_weight * y_weight);
     }
 
     p_out
-- 
2.43.0


From 9b51272af2eea93497f5556e6b4e0b90300dc5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 17/29] fix: shear: keep rounded coordinates inside the image

---
 src/transform.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index 8473f0b..612147a 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -310,7 +310,9 @@ pub fn shear(input: &Image<f32>, shear_x: f32, shear_y: f32) -> ImgProcResult<Im
                 coords[1] += offset_y;
             }
 
-            output.set_pixel(coords[0] as u32, coords[1] as u32, input.get_pixel(x, y));
+            // Rounding errors can place the last pixel just outside of the image
+            output.set_pixel(std::cmp::min(coords[0] as u32, w_out - 1),
+                             std::cmp::min(coords[1] as u32, h_out - 1), input.get_pixel(x, y));
         }
     }
 
-- 
2.43.0


From 352eb481b981d3237413ddbebe226a402ce6f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 18/29] fix: rotate: map output pixels back to input pixels so
 that no pixel is shifted, lost or out of bounds

---
 src/transform.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 612147a..158729d 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -228,29 +228,27 @@ pub fn rotate(input: &Image<f32>, degrees: f32) -> ImgProcResult<Image<f32>> {
     let y_max = util::max_4(coords1[1], coords2[1], coords3[1], coords4[1]);
     let y_min = util::min_4(coords1[1], coords2[1], coords3[1], coords4[1]);
 
-    let w_out = (x_max - x_min) as u32;
-    let h_out = (y_max - y_min) as u32;
+    let w_out = (x_max - x_min).round() as u32;
+    let h_out = (y_max - y_min).round() as u32;
 
     let mut output = Image::blank(ImageInfo::new(w_out, h_out,
                                                  input.info().channels, input.info().alpha));
-    let mut coords = Vec::with_capacity(input.info().channels as usize);
-
-    for j in 0..h_in {
-        for i in 0..w_in {
-            let x1 = (i as f32) - (x as f32);
-            let y1 = (y as f32) - (j as f32);
+    let mat_inv = [cos, sin, -sin, cos];
+    let mut coords = Vec::with_capacity(2);
 
-            util::vector_mul_mut(&mat, &[x1, y1], &mut coords)?;
+    // Map the center of each output pixel back to the input pixel that contains it
+    for j in 0..h_out {
+        for i in 0..w_out {
+            let x1 = x_min + (i as f32) + 0.5;
+            let y1 = y_max - (j as f32) - 0.5;
 
-            coords[0] += x_max - 1.0;
-            coords[1] = y_max - coords[1] - 1.0;
+            util::vector_mul_mut(&mat_inv, &[x1, y1], &mut coords)?;
 
-            output.set_pixel(coords[0] as u32, coords[1] as u32,
-                             input.get_pixel(i, j));
+            let x_in = ((x as f32) + coords[0]).floor();
+            let y_in = ((y as f32) - coords[1]).floor();
 
-            // Cover up "holes" left by rotation algorithm
-            if coords[0] >= 1.0 {
-                output.set_pixel(coords[0] as u32 - 1, coords[1] as u32, input.get_pixel(i, j));
+            if x_in >= 0.0 && x_in < (w_in as f32) && y_in >= 0.0 && y_in < (h_in as f32) {
+                output.set_pixel(i, j, input.get_pixel(x_in as u32, y_in as u32));
             }
         }
     }
-- 
2.43.0


From 8743bc80e45fcdf8b01dafc0e6ca6bbf614f488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 19/29] fix: PixelIter: report the number of remaining pixels
 in size_hint

---
 src/image/pixel_iter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/image/pixel_iter.rs b/src/image/pixel_iter.rs
index 798e9af..600706d 100644
--- a/src/image/pixel_iter.rs
+++ b/src/image/pixel_iter.rs
@@ -67,7 +67,9 @@ impl<'a, T: Number> Iterator for PixelIter<'a, T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = ((self.x_max + 1) * (self.y_max + 1)) as usize;
+        let width = self.x_max as usize + 1;
+        let visited = self.y as usize * width + self.x as usize;
+        let size = width * (self.y_max as usize + 1) - visited;
         (size, Some(size))
     }
 }
-- 
2.43.0


From bf187ff0b1b9225bf78cd25c4842d57697fb0eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 20/29] fix: vector_mul: reject matrices that are not square

---
 src/util/math.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/util/math.rs b/src/util/math.rs
index b4ee90b..322c8ce 100644
--- a/src/util/math.rs
+++ b/src/util/math.rs
@@ -8,9 +8,8 @@ use rulinalg::matrix::{Matrix, BaseMatrix};
 /// Returns the result of the multiplication of a square matrix by a vector
 pub fn vector_mul<T: Number>(mat: &[T], input: &[T]) -> ImgProcResult<Vec<T>> {
     let rows = input.len();
-    let mat_cols = mat.len() / rows;
 
-    error::check_equal(mat_cols, rows, "mat and vec dimensions")?;
+    error::check_equal(mat.len(), rows * rows, "mat and vec dimensions")?;
 
     let mut output = vec![0.into(); rows];
 
@@ -26,9 +25,8 @@ pub fn vector_mul<T: Number>(mat: &[T], input: &[T]) -> ImgProcResult<Vec<T>> {
 /// Returns the result of the multiplication of a square matrix by a vector in `output`
 pub fn vector_mul_mut<T: Number>(mat: &[T], input: &[T], output: &mut Vec<T>) -> ImgProcResult<()> {
     let rows = input.len();
-    let mat_cols = mat.len() / rows;
 
-    error::check_equal(mat_cols, rows, "mat and vec dimensions")?;
+    error::check_equal(mat.len(), rows * rows, "mat and vec dimensions")?;
 
     output.clear();
     for _ in 0..rows {
-- 
2.43.0


From dfd16b11ecfb68ccbbec8647e867d31055423585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:29 +0000
Subject: [PATCH 21/29] fix: median_filter: scan downwards when exactly half of
 the window is below the previous median

---
 src/filter/median.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 2054ab4..fb6d762 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -304,11 +304,8 @@ fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_o
                                                         // the previous median
 
             match sum.cmp(&center) {
-                Ordering::Equal => { // The current median is equal to the previous median
-                    p_out.push(pivot);
-                },
-                Ordering::Less => { // The current median is greater than the previous median,
-                                    // so the histogram should be scanned upwards
+                Ordering::Less => { // The current median is greater than or equal to the previous
+                                    // median, so the histogram should be scanned upwards
                     for key in pivot..=255 {
                         let add = hist.data().get_count(key as usize, i);
 
@@ -321,7 +318,7 @@ fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_o
                         sum += add;
                     }
                 },
-                Ordering::Greater => { // The current median is less than the previous median, so the histogram
+                Ordering::Equal | Ordering::Greater => { // The current median is less than the previous median, so the histogram
                                        // should be scanned downwards
                     for key in (0..pivot).rev() {
                         sum -= hist.data().get_count(key as usize, i);
-- 
2.43.0


From 7216d0536673542d882099c0d031b4994648a0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 22/29] fix: median_filter, alpha_trimmed_mean_filter: do not
 overwrite the last column with windows beyond the right edge

---
 src/filter/median.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index fb6d762..2dd58f1 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -271,6 +271,11 @@ fn init_cols_med(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Vec
 
     // Compute first median values
     for i in 0..n_cols {
+        // Ignore columns beyond the right edge of the image
+        if x + i as u32 >= output.info().width {
+            break;
+        }
+
         p_out.clear();
         for hist in histograms.iter_mut() {
             let mut sum = 0;
@@ -288,8 +293,7 @@ fn init_cols_med(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Vec
             }
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, 0, &p_out);
+        output.set_pixel(x + i as u32, 0, &p_out);
 
         set_pivots_med(histograms, &p_out, i);
     }
@@ -297,6 +301,11 @@ fn init_cols_med(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Vec
 
 fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_out: &mut Vec<u8>, center: i32, n_cols: usize, x: u32, y: u32) {
     for i in 0..n_cols {
+        // Ignore columns beyond the right edge of the image
+        if x + i as u32 >= output.info().width {
+            break;
+        }
+
         p_out.clear();
         for hist in histograms.iter_mut() {
             let pivot = hist.pivots()[i]; // Get the previous median
@@ -333,8 +342,7 @@ fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_o
             }
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, y, &p_out);
+        output.set_pixel(x + i as u32, y, &p_out);
 
         set_pivots_med(histograms, &p_out, i);
     }
@@ -616,6 +624,11 @@ fn init_cols_mean(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Ve
     let trim = (alpha as usize) / 2;
     let upper_trim = (size * size) as usize - trim;
     for i in 0..n_cols {
+        // Ignore columns beyond the right edge of the image
+        if x + i as u32 >= output.info().width {
+            break;
+        }
+
         p_out.clear();
         for hist in histograms.iter_mut() {
             let mut count = 0;
@@ -648,20 +661,23 @@ fn init_cols_mean(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Ve
             p_out.push(hist.get_mean(i));
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, 0, &p_out);
+        output.set_pixel(x + i as u32, 0, &p_out);
     }
 }
 
 fn process_row_mean(output: &mut Image<u8>, histograms: &mut Vec<MeanHist>, p_out: &mut Vec<u8>, n_cols: usize, x: u32, y: u32) {
     for i in 0..n_cols {
+        // Ignore columns beyond the right edge of the image
+        if x + i as u32 >= output.info().width {
+            break;
+        }
+
         p_out.clear();
         for hist in histograms.iter_mut() {
             p_out.push(hist.get_mean(i));
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, y, &p_out);
+        output.set_pixel(x + i as u32, y, &p_out);
     }
 }
 
-- 
2.43.0


From f35e2abd78fcdd8f220fb9e33cdc1b51d0528901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 23/29] fix: alpha_trimmed_mean_filter: compute the trimmed
 mean from the histogram of each window

---
 src/filter/median.rs | 245 +++++--------------------------------------
 1 file changed, 24 insertions(+), 221 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 2dd58f1..0d4ddd8 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -2,7 +2,7 @@ use crate::error;
 use crate::error::{ImgProcResult, ImgProcError};
 use crate::image::{Image, BaseImage};
 
-use std::cmp::{Ordering, Reverse};
+use std::cmp::{min, Ordering};
 
 /// Applies a median filter, where each output pixel is the median of the pixels in a
 /// `(2 * radius + 1) x (2 * radius + 1)` kernel in the input image. Based on Ben Weiss' partial
@@ -373,197 +373,46 @@ fn set_pivots_med(histograms: &mut Vec<MedianHist>, pivots: &[u8], index: usize)
 #[derive(Debug, Clone)]
 struct MeanHist {
     data: PartialHistograms,
-    sums: Vec<i32>, // The sum of all the participating pixel values in the kernel for each pixel
-    lower: Vec<Vec<u8>>, // Vectors of all the lowest discarded pixel values in the kernel
-                         // for each pixel
-    upper: Vec<Vec<u8>>, // Vectors of all the highest discarded pixel values in the kernel for
-                         // each pixel
     trim: usize, // The number of pixel values discarded at the low and high ends of each kernel
                  // (equal to half of alpha)
-    len: f32, // The number of participating pixel values in each kernel
+    len: usize, // The number of participating pixel values in each kernel
 }
 
 impl MeanHist {
     fn new(radius: usize, n_cols: usize, alpha: u32) -> Self {
         let size = 2 * radius + 1;
-        let len = ((size * size) - alpha as usize) as f32;
+        let len = (size * size) - alpha as usize;
 
         MeanHist {
             data: PartialHistograms::new(radius, n_cols),
-            sums: Vec::with_capacity(n_cols),
-            lower: Vec::with_capacity(n_cols),
-            upper: Vec::with_capacity(n_cols),
             trim: (alpha as usize) / 2,
             len,
         }
     }
 
-    fn data(&self) -> &PartialHistograms {
-        &self.data
-    }
-
-    fn init(&mut self) {
-        self.sums = vec![0; self.data.n_cols];
-        self.lower = vec![Vec::with_capacity(self.trim); self.data.n_cols];
-        self.upper = vec![Vec::with_capacity(self.trim); self.data.n_cols];
-    }
-
-    // By some miracle, this seems to work!
     fn update(&mut self, p_in: &[&[u8]], channel_index: usize, add: bool) {
-        if !self.sums.is_empty() {
-            if add {
-                for n in 0..self.data.n_cols {
-                    for i in n..(n + self.data.size) {
-                        let val = p_in[i][channel_index];
-                        let lower = self.lower(n);
-                        let upper = self.upper(n);
-
-                        if val < lower {
-                            self.lower[n].remove(self.trim -  1);
-                            self.sums[n] += lower as i32;
-
-                            let pos = self.lower[n].binary_search(&val).unwrap_or_else(|e| e);
-                            self.lower[n].insert(pos, val);
-                        } else if val > upper {
-                            self.upper[n].remove(self.trim - 1);
-                            self.sums[n] += upper as i32;
-
-                            let pos = self.lower[n].binary_search_by_key(&Reverse(&val), Reverse).unwrap_or_else(|e| e);
-                            self.upper[n].insert(pos, val);
-                        } else {
-                            self.sums[n] += val as i32;
-                        }
-                    }
-                }
-                self.data.update(p_in, channel_index, add);
-            } else {
-                self.data.update(p_in, channel_index, add);
-                for n in 0..self.data.n_cols {
-                    for i in n..(n + self.data.size) {
-                        let val = p_in[i][channel_index];
-                        let lower = self.lower(n);
-                        let upper = self.upper(n);
-
-                        let mut lower_count = self.data.get_count(lower as usize, n);
-                        let mut upper_count = self.data.get_count(upper as usize, n);
-
-                        for j in i..(n + self.data.size) {
-                            if p_in[j][channel_index] == lower {
-                                lower_count += 1;
-                            } else if p_in[j][channel_index] == upper {
-                                upper_count += 1;
-                            }
-                        }
-
-                        for j in self.lower[n].iter().rev() {
-                            if *j == lower {
-                                lower_count -= 1;
-                            } else {
-                                break;
-                            }
-                        }
-
-                        for j in self.upper[n].iter().rev() {
-                            if *j == upper {
-                                upper_count -= 1;
-                            } else {
-                                break;
-                            }
-                        }
-
-                        if val == lower && lower_count == 0 {
-                            self.lower[n].remove(self.trim - 1);
-                            self.get_next_lower(n, lower_count, lower);
-                        } else if val < lower {
-                            let res = self.lower[n].binary_search(&val);
-
-                            match res {
-                                Ok(pos) => {
-                                    self.lower[n].remove(pos);
-                                    self.get_next_lower(n, lower_count, lower);
-                                },
-                                Err(_) => {
-                                    self.sums[n] -= val as i32;
-                                }
-                            }
-                        } else if val == upper && upper_count == 0 {
-                            self.upper[n].remove(self.trim - 1);
-                            self.get_next_upper(n, upper_count, upper);
-                        } else if val > upper {
-                            let res = self.lower[n].binary_search_by_key(&Reverse(&val), Reverse);
-
-                            match res {
-                                Ok(pos) => {
-                                    self.upper[n].remove(pos);
-                                    self.get_next_upper(n, upper_count, upper);
-                                },
-                                Err(_) => {
-                                    self.sums[n] -= val as i32;
-                                }
-                            }
-                        } else {
-                            self.sums[n] -= val as i32;
-                        }
-                    }
-                }
-            }
-        } else {
-            self.data.update(p_in, channel_index, add);
-        }
-    }
-
-    fn set_sum(&mut self, sum: i32, index: usize) {
-        self.sums[index] = sum;
-    }
-
-    fn set_upper(&mut self, vals: Vec<u8>, index: usize) {
-        self.upper[index] = vals;
-    }
-
-    fn set_lower(&mut self, vals: Vec<u8>, index: usize) {
-        self.lower[index] = vals;
-    }
-
-    fn upper(&self, index: usize) -> u8 {
-        self.upper[index][self.trim-1]
-    }
-
-    fn lower(&self, index: usize) -> u8 {
-        self.lower[index][self.trim-1]
+        self.data.update(p_in, channel_index, add);
     }
 
+    // Returns the mean of the participating pixel values in the kernel for the pixel at the given
+    // index, rounded to the nearest integer
     fn get_mean(&self, index: usize) -> u8 {
-        ((self.sums[index] as f32) / self.len).round() as u8
-    }
-
-    fn get_next_lower(&mut self, n: usize, lower_count: i32, lower: u8) {
-        if lower_count > 0 {
-            self.lower[n].push(lower);
-            self.sums[n] -= lower as i32;
-        } else {
-            for key in (lower + 1)..=255 {
-                if self.data.get_count(key as usize, n) > 0 {
-                    self.lower[n].push(key);
-                    self.sums[n] -= key as i32;
-                    break;
-                }
-            }
+        let mut sum = 0;
+        let mut skip = self.trim;
+        let mut take = self.len;
+
+        for key in 0..256 {
+            let mut count = self.data.get_count(key, index) as usize;
+            let skipped = min(count, skip);
+            skip -= skipped;
+            count -= skipped;
+
+            let taken = min(count, take);
+            take -= taken;
+            sum += taken * key;
         }
-    }
 
-    fn get_next_upper(&mut self, n: usize, upper_count: i32, upper: u8) {
-        if upper_count > 0 {
-            self.upper[n].push(upper);
-            self.sums[n] -= upper as i32;
-        } else {
-            for key in (0..upper).rev() {
-                if self.data.get_count(key as usize, n) > 0 {
-                    self.upper[n].push(key);
-                    self.sums[n] -= key as i32;
-                    break;
-                }
-            }
-        }
+        ((sum + self.len / 2) / self.len) as u8
     }
 }
 
@@ -573,7 +422,7 @@ fn process_cols_mean(input: &Image<u8>, output: &mut Image<u8>, radius: u32, alp
     let mut p_out = Vec::with_capacity(channels as usize);
 
     // Initialize histogram and process first row
-    init_cols_mean(input, output, &mut histograms, &mut p_out, radius, alpha, n_cols, x);
+    init_cols_mean(input, output, &mut histograms, &mut p_out, radius, n_cols, x);
 
     // Update histogram and process remaining rows
     let mut row_in = Vec::with_capacity(n_cols);
@@ -600,9 +449,8 @@ fn process_cols_mean(input: &Image<u8>, output: &mut Image<u8>, radius: u32, alp
 }
 
 fn init_cols_mean(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Vec<MeanHist>,
-                  p_out: &mut Vec<u8>, radius: u32, alpha: u32, n_cols: usize, x: u32) {
+                  p_out: &mut Vec<u8>, radius: u32, n_cols: usize, x: u32) {
     let (width, height) = input.info().wh();
-    let size = 2 * radius + 1;
 
     // Initialize histograms
     let mut row_in = Vec::with_capacity(n_cols);
@@ -613,56 +461,11 @@ fn init_cols_mean(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Ve
         }
 
         add_row_mean(histograms, &row_in);
-    }
-
-    // Initialize histograms
-    for hist in histograms.iter_mut() {
-        hist.init();
+        row_in.clear();
     }
 
     // Compute first mean values
-    let trim = (alpha as usize) / 2;
-    let upper_trim = (size * size) as usize - trim;
-    for i in 0..n_cols {
-        // Ignore columns beyond the right edge of the image
-        if x + i as u32 >= output.info().width {
-            break;
-        }
-
-        p_out.clear();
-        for hist in histograms.iter_mut() {
-            let mut count = 0;
-            let mut sum = 0;
-            let mut upper = Vec::with_capacity(trim);
-            let mut lower = Vec::with_capacity(trim);
-
-            for key in 0u8..=255 {
-                let mut add = hist.data().get_count(key as usize, i);
-                count += add;
-                sum += add * key as i32;
-
-                while lower.len() < trim && add > 0 {
-                    lower.push(key);
-                    sum -= key as i32;
-                    add -= 1;
-                }
-
-                while (count as usize) > upper_trim && upper.len() < trim && add > 0 {
-                    upper.insert(0, key);
-                    sum -= key as i32;
-                    add -= 1;
-                }
-            }
-
-            hist.set_sum(sum, i);
-            hist.set_upper(upper, i);
-            hist.set_lower(lower, i);
-
-            p_out.push(hist.get_mean(i));
-        }
-
-        output.set_pixel(x + i as u32, 0, &p_out);
-    }
+    process_row_mean(output, histograms, p_out, n_cols, x, 0);
 }
 
 fn process_row_mean(output: &mut Image<u8>, histograms: &mut Vec<MeanHist>, p_out: &mut Vec<u8>, n_cols: usize, x: u32, y: u32) {
-- 
2.43.0


From c1da0e057e4c10c1369c4b89614eeb250629cbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 24/29] fix: PixelIter: iterate over empty images without
 panicking

---
 src/image/pixel_iter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/image/pixel_iter.rs b/src/image/pixel_iter.rs
index 600706d..8c23141 100644
--- a/src/image/pixel_iter.rs
+++ b/src/image/pixel_iter.rs
@@ -36,6 +36,11 @@ pub struct PixelIter<'a, T: Number> {
 
 impl<'a, T: Number> PixelIter<'a, T> {
     pub fn new(image: &'a Image<T>) -> Self {
+        // An iterator over an empty image starts exhausted
+        if image.info().width == 0 || image.info().height == 0 {
+            return PixelIter { image, x: 1, y: 0, x_max: 0, y_max: 0 };
+        }
+
         PixelIter {
             image,
             x: 0,
-- 
2.43.0


From 0cebeb37d4ac003908c503ecf536d0a32a1ebe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 25/29] fix: map_pixels, map_pixels_if_alpha: do not divide by
 zero for empty images

---
 src/image/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index ca05f54..b27242d 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -399,7 +399,9 @@ impl<T: Number> Image<T> {
             data.append(&mut p_out);
         }
 
-        let channels = (data.len() as u32 / self.info.size()) as u8;
+        // An empty image has no pixels to tell the number of channels
+        let channels = (data.len() as u32).checked_div(self.info.size())
+            .map_or(self.info.channels, |channels| channels as u8);
 
         Image {
             info: ImageInfo {
@@ -431,7 +433,9 @@ impl<T: Number> Image<T> {
             data.append(&mut p_out);
         }
 
-        let channels = (data.len() as u32 / self.info.size()) as u8;
+        // An empty image has no pixels to tell the number of channels
+        let channels = (data.len() as u32).checked_div(self.info.size())
+            .map_or(self.info.channels, |channels| channels as u8);
 
         Image {
             info: ImageInfo {
-- 
2.43.0


From c502ff9d9547741c9c2f82d92662a53d2fff5c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:12 +0000
Subject: [PATCH 26/29] fix: generate_log_kernel: use the Laplacian of Gaussian
 formula, whose centre and ring have opposite signs

---
 src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index 2731c56..4ef05a1 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -97,7 +97,7 @@ pub fn generate_log_kernel(size: u32, sigma: f32) -> ImgProcResult<Vec<f32>> {
         for j in 0..(size as i32) {
             if i <= j {
                 let exp = -(((i - k) * (i - k) + (j - k) * (j - k)) as f32) / (2.0 * sigma * sigma);
-                let num = (-1.0 / (PI * sigma.powf(4.0))) * (1.0 - exp) * (E.powf(exp));
+                let num = (-1.0 / (PI * sigma.powf(4.0))) * (1.0 + exp) * (E.powf(exp));
                 filter[(i * size as i32 + j) as usize] = num;
 
                 if i != j {
-- 
2.43.0


From 7a49993064d4b6ee8e82bc5f28aebb6bbe535224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 27/29] fix: separate_kernel: treat kernels that cannot be
 decomposed as unseparable instead of panicking

---
 src/util/math.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util/math.rs b/src/util/math.rs
index 322c8ce..7b33a46 100644
--- a/src/util/math.rs
+++ b/src/util/math.rs
@@ -45,9 +45,17 @@ pub fn vector_mul_mut<T: Number>(mat: &[T], input: &[T], output: &mut Vec<T>) ->
 /// If `kernel` is separable, returns the (vertical kernel, horizontal kernel); otherwise returns None
 pub fn separate_kernel(kernel: &[f32]) -> Option<(Vec<f32>, Vec<f32>)> {
     let size = (kernel.len() as f32).sqrt() as usize;
+
+    // A single value cannot be decomposed
+    if size < 2 {
+        return None;
+    }
+
     let kernel_mat = Matrix::new(size, size, kernel);
     let size = kernel_mat.cols();
-    let (s, u, v) = kernel_mat.svd().unwrap();
+
+    // The decomposition fails for kernels with an all-zero column or row
+    let (s, u, v) = kernel_mat.svd().ok()?;
 
     // Check if kernel is separable
     if s.data()[0] != 0.0 {
-- 
2.43.0


From 9a6a3bbb84edc691f7b50052bf692bb0c107f1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 28/29] fix: reject NaN where a range or non-negative argument
 is required

---
 src/error/messages.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/error/messages.rs b/src/error/messages.rs
index 6c52244..6f73ce3 100644
--- a/src/error/messages.rs
+++ b/src/error/messages.rs
@@ -34,7 +34,8 @@ pub(crate) fn check_even<T: Number>(val: T, name: &str) -> ImgProcResult<()> {
 }
 
 pub(crate) fn check_non_neg<T: Number>(val: T, name: &str) -> ImgProcResult<()> {
-    if val < 0.into() {
+    // Written so that NaN is rejected as well
+    if !(val >= 0.into()) {
         return Err(ImgProcError::InvalidArgError(format!("{} must be non-negative", name)));
     }
 
@@ -58,7 +59,8 @@ pub(crate) fn check_square(val: f32, name: &str) -> ImgProcResult<()> {
 }
 
 pub(crate) fn check_in_range<T: Number>(val: T, min: T, max: T, name: &str) -> ImgProcResult<()> {
-    if val < min || val > max {
+    // Written so that NaN is rejected as well
+    if !(val >= min && val <= max) {
         return Err(ImgProcError::InvalidArgError(format!("{} must be between {} and {} (inclusive)", name, min, max)));
     }
 
-- 
2.43.0


From 86acdb69eef3a5b680ec86c1ad82366d9aabb71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 29/29] fix: summed-area tables of unsigned types do not
 underflow or overflow in between

---
 src/util/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index 4ef05a1..a47ed7b 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -187,7 +187,8 @@ pub fn generate_summed_area_table<T: Number>(input: &Image<T>) -> Image<T> {
             }
 
             for c in 0..(channels as usize) {
-                p_out.push(p_in[c] + p_top[c] + p_left[c] - p_diag[c]);
+                // No intermediate value exceeds the result
+                p_out.push(p_in[c] + (p_top[c] - p_diag[c]) + p_left[c]);
             }
 
             output.set_pixel(x, y, &p_out);
@@ -221,7 +222,8 @@ pub fn rectangular_intensity_sum<T: Number>(summed_area_table: &Image<T>, x_0: u
     }
 
     for i in 0..channels {
-        sum.push(bot_right[i] - top_right[i] - bot_left[i] + top_left[i]);
+        // Both differences are sums of pixels, so unsigned types do not underflow
+        sum.push((bot_right[i] - top_right[i]) - (bot_left[i] - top_left[i]));
     }
 
     sum
-- 
2.43.0

