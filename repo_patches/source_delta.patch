From df051baa158b07302e6caa57f0316790cc896c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 01/27] fix: PSNR counts only the visible samples of a plane

Stride and padding samples were part of the squared error, so the score
depended on the memory layout and on whatever the padding held.
---
 av_metrics/src/video/mod.rs  | 11 +++++++++++
 av_metrics/src/video/psnr.rs |  9 ++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 24300a2..41f71f6 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -44,6 +44,17 @@ impl<T: Pixel> PlaneCompare for Plane<T> {
     }
 }
 
+/// Iterates over the rows of a plane, each limited to its visible samples.
+pub(crate) fn visible_rows<T: Pixel>(plane: &Plane<T>) -> impl Iterator<Item = &[T]> {
+    (0..plane.cfg.height).map(move |y| visible_row(plane, y))
+}
+
+/// The visible samples of one row of a plane.
+pub(crate) fn visible_row<T: Pixel>(plane: &Plane<T>, y: usize) -> &[T] {
+    let start = (plane.cfg.yorigin + y) * plane.cfg.stride + plane.cfg.xorigin;
+    &plane.data[start..start + plane.cfg.width]
+}
+
 pub use v_frame::pixel::ChromaSampling;
 
 pub(crate) trait ChromaWeight {
diff --git a/av_metrics/src/video/psnr.rs b/av_metrics/src/video/psnr.rs
index 9c1b19d..cf6b6b1 100644
--- a/av_metrics/src/video/psnr.rs
+++ b/av_metrics/src/video/psnr.rs
@@ -15,7 +15,7 @@ use v_frame::frame::Frame;
 use v_frame::plane::Plane;
 use v_frame::prelude::ChromaSampling;
 
-use super::FrameCompare;
+use super::{visible_rows, FrameCompare};
 
 /// Calculates the PSNR for two videos. Higher is better.
 ///
@@ -186,10 +186,9 @@ fn calculate_psnr(metrics: PsnrMetrics) -> f64 {
 /// Calculate the squared error for a `Plane` by comparing the original (uncompressed)
 /// to the compressed version.
 fn calculate_plane_total_squared_error<T: Pixel>(plane1: &Plane<T>, plane2: &Plane<T>) -> f64 {
-    plane1
-        .data
-        .iter()
-        .zip(plane2.data.iter())
+    visible_rows(plane1)
+        .flatten()
+        .zip(visible_rows(plane2).flatten())
         .map(|(a, b)| (i32::cast_from(*a) - i32::cast_from(*b)).unsigned_abs() as u64)
         .map(|err| err * err)
         .sum::<u64>() as f64
-- 
2.43.0


From ccc66b445293e59993d9686e2e004d3bc3663a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 02/27] fix: SSIM and MS-SSIM read the visible samples of a
 plane

The plane data was taken as if it had neither stride nor origin, so every
plane whose stride differs from its width was scored on shifted rows.
---
 av_metrics/src/video/ssim.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 5339631..5c59f16 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -22,7 +22,7 @@ use v_frame::frame::Frame;
 use v_frame::plane::Plane;
 use v_frame::prelude::ChromaSampling;
 
-use super::FrameCompare;
+use super::{visible_rows, FrameCompare};
 
 /// Calculates the SSIM score between two videos. Higher is better.
 #[inline]
@@ -472,7 +472,10 @@ fn build_gaussian_kernel(sigma: f64, max_len: usize, kernel_weight: usize) -> Ve
 }
 
 fn plane_to_vec<T: Pixel>(input: &Plane<T>) -> Vec<u32> {
-    input.data.iter().map(|pix| u32::cast_from(*pix)).collect()
+    visible_rows(input)
+        .flatten()
+        .map(|pix| u32::cast_from(*pix))
+        .collect()
 }
 
 // This acts differently from downscaling a plane, and is what
-- 
2.43.0


From 442d2aedf083caaf46cb472a66b6eaf912d3fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 03/27] fix: PSNR-HVS honours the origin of padded planes

Blocks were cut at the start of the allocation, so padded planes were
scored on their padding.
---
 av_metrics/src/video/psnr_hvs.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index ee12d06..b09d71a 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -216,8 +216,10 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
     let mut p2 = [0i16; 8 * 8];
     let mut dct_p1 = [0i32; 8 * 8];
     let mut dct_p2 = [0i32; 8 * 8];
-    assert!(plane1.data.len() >= stride * height);
-    assert!(plane2.data.len() >= stride * height);
+    let origin1 = plane1.cfg.yorigin * stride + plane1.cfg.xorigin;
+    let origin2 = plane2.cfg.yorigin * stride + plane2.cfg.xorigin;
+    let data1 = &plane1.data[origin1..];
+    let data2 = &plane2.data[origin2..];
     for y in (0..(height - STEP)).step_by(STEP) {
         for x in (0..(width - STEP)).step_by(STEP) {
             let mut p1_means = [0.0; 4];
@@ -233,8 +235,8 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
 
             for i in 0..8 {
                 for j in 0..8 {
-                    p1[i * 8 + j] = i16::cast_from(plane1.data[(y + i) * stride + x + j]);
-                    p2[i * 8 + j] = i16::cast_from(plane2.data[(y + i) * stride + x + j]);
+                    p1[i * 8 + j] = i16::cast_from(data1[(y + i) * stride + x + j]);
+                    p2[i * 8 + j] = i16::cast_from(data2[(y + i) * stride + x + j]);
 
                     let sub = ((i & 12) >> 2) + ((j & 12) >> 1);
                     p1_gmean += p1[i * 8 + j] as f64;
-- 
2.43.0


From d612f376d39695ebd187caa7f4d652ccb6738c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 04/27] fix: CIEDE2000 reads the visible rows of a plane

Rows were located by the plane width instead of its stride and origin, so
planes with stride or padding were compared on shifted rows.
---
 av_metrics/src/video/ciede/mod.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index f021df6..ea205d5 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -117,32 +117,25 @@ impl VideoMetric for Ciede2000 {
         let dec = chroma_sampling.get_decimation().unwrap_or((1, 1));
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
-        let c_width = frame1.planes[1].cfg.width;
         let delta_e_row_fn = get_delta_e_row_fn(bit_depth, dec.0, self.use_simd);
         // let mut delta_e_vec: Vec<f32> = vec![0.0; y_width * y_height];
 
         let delta_e_per_line = (0..y_height).into_par_iter().map(|i| {
-            let y_start = i * y_width;
-            let y_end = y_start + y_width;
-            let c_start = (i >> dec.1) * c_width;
-            let c_end = c_start + c_width;
+            let c = i >> dec.1;
 
-            let y_range = y_start..y_end;
-            let c_range = c_start..c_end;
-
-            let mut delta_e_vec = vec![0.0; y_end - y_start];
+            let mut delta_e_vec = vec![0.0; y_width];
 
             unsafe {
                 delta_e_row_fn(
                     FrameRow {
-                        y: &frame1.planes[0].data[y_range.clone()],
-                        u: &frame1.planes[1].data[c_range.clone()],
-                        v: &frame1.planes[2].data[c_range.clone()],
+                        y: visible_row(&frame1.planes[0], i),
+                        u: visible_row(&frame1.planes[1], c),
+                        v: visible_row(&frame1.planes[2], c),
                     },
                     FrameRow {
-                        y: &frame2.planes[0].data[y_range],
-                        u: &frame2.planes[1].data[c_range.clone()],
-                        v: &frame2.planes[2].data[c_range],
+                        y: visible_row(&frame2.planes[0], i),
+                        u: visible_row(&frame2.planes[1], c),
+                        v: visible_row(&frame2.planes[2], c),
                     },
                     &mut delta_e_vec[..],
                 );
@@ -336,7 +329,7 @@ impl DeltaEScalar for BD12_444 {}
 use self::avx2::*;
 use std::error::Error;
 
-use super::FrameCompare;
+use super::{visible_row, FrameCompare};
 
 #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
 mod avx2 {
-- 
2.43.0


From 2445d2bfd3f5cd5d4cd1d2e54ca066432c882a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 05/27] fix: CIEDE2000 compares monochrome clips

Without chroma rows the row loop visited no sample at all, so any two
monochrome frames scored a perfect 100.
---
 av_metrics/src/video/ciede/mod.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index ea205d5..af625be 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -120,6 +120,17 @@ impl VideoMetric for Ciede2000 {
         let delta_e_row_fn = get_delta_e_row_fn(bit_depth, dec.0, self.use_simd);
         // let mut delta_e_vec: Vec<f32> = vec![0.0; y_width * y_height];
 
+        // Monochrome frames have no chroma planes: every sample is neutral there.
+        let neutral = if chroma_sampling == ChromaSampling::Cs400 {
+            vec![T::cast_from(1u16 << (bit_depth - 1)); y_width]
+        } else {
+            Vec::new()
+        };
+        let chroma_row = |plane, c| match chroma_sampling {
+            ChromaSampling::Cs400 => &neutral[..],
+            _ => visible_row(plane, c),
+        };
+
         let delta_e_per_line = (0..y_height).into_par_iter().map(|i| {
             let c = i >> dec.1;
 
@@ -129,13 +140,13 @@ impl VideoMetric for Ciede2000 {
                 delta_e_row_fn(
                     FrameRow {
                         y: visible_row(&frame1.planes[0], i),
-                        u: visible_row(&frame1.planes[1], c),
-                        v: visible_row(&frame1.planes[2], c),
+                        u: chroma_row(&frame1.planes[1], c),
+                        v: chroma_row(&frame1.planes[2], c),
                     },
                     FrameRow {
                         y: visible_row(&frame2.planes[0], i),
-                        u: visible_row(&frame2.planes[1], c),
-                        v: visible_row(&frame2.planes[2], c),
+                        u: chroma_row(&frame2.planes[1], c),
+                        v: chroma_row(&frame2.planes[2], c),
                     },
                     &mut delta_e_vec[..],
                 );
-- 
2.43.0


From 6a2eb7499f9e88827326e27a210ff6795c49c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 06/27] fix: SSIM, MS-SSIM and PSNR-HVS accept monochrome
 frames

Their empty chroma planes made the kernel and block loops underflow; an
absent plane now counts as identical, as it already does for PSNR.
---
 av_metrics/src/video/mod.rs      |  5 +++++
 av_metrics/src/video/psnr_hvs.rs |  5 ++++-
 av_metrics/src/video/ssim.rs     | 10 ++++++++--
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 41f71f6..f898a13 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -44,6 +44,11 @@ impl<T: Pixel> PlaneCompare for Plane<T> {
     }
 }
 
+/// Whether a plane has no samples, as the chroma planes of monochrome frames.
+pub(crate) fn is_empty<T: Pixel>(plane: &Plane<T>) -> bool {
+    plane.cfg.width == 0 || plane.cfg.height == 0
+}
+
 /// Iterates over the rows of a plane, each limited to its visible samples.
 pub(crate) fn visible_rows<T: Pixel>(plane: &Plane<T>) -> impl Iterator<Item = &[T]> {
     (0..plane.cfg.height).map(move |y| visible_row(plane, y))
diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index b09d71a..e2980d9 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -18,7 +18,7 @@ use v_frame::frame::Frame;
 use v_frame::plane::Plane;
 use v_frame::prelude::ChromaSampling;
 
-use super::FrameCompare;
+use super::{is_empty, FrameCompare};
 
 /// Calculates the PSNR-HVS score between two videos. Higher is better.
 #[inline]
@@ -176,6 +176,9 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
     bit_depth: usize,
 ) -> f64 {
     const STEP: usize = 7;
+    if is_empty(plane1) {
+        return 0.0;
+    }
     let mut result = 0.0;
     let mut pixels = 0usize;
     let csf = match plane_idx {
diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 5c59f16..6299369 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -22,7 +22,7 @@ use v_frame::frame::Frame;
 use v_frame::plane::Plane;
 use v_frame::prelude::ChromaSampling;
 
-use super::{visible_rows, FrameCompare};
+use super::{is_empty, visible_rows, FrameCompare};
 
 /// Calculates the SSIM score between two videos. Higher is better.
 #[inline]
@@ -311,6 +311,9 @@ fn calculate_plane_ssim<T: Pixel>(
     vert_kernel: &[i64],
     horiz_kernel: &[i64],
 ) -> f64 {
+    if is_empty(plane1) {
+        return 1.0;
+    }
     let vec1 = plane_to_vec(plane1);
     let vec2 = plane_to_vec(plane2);
     calculate_plane_ssim_internal(
@@ -409,6 +412,9 @@ fn calculate_plane_msssim<T: Pixel>(plane1: &Plane<T>, plane2: &Plane<T>, bit_de
     // They don't add up to 1 due to rounding done in the paper.
     const MS_WEIGHT: [f64; 5] = [0.0448, 0.2856, 0.3001, 0.2363, 0.1333];
 
+    if is_empty(plane1) {
+        return 1.0;
+    }
     let mut sample_max = (1 << bit_depth) - 1;
     let mut ssim = [0.0; 5];
     let mut cs = [0.0; 5];
@@ -456,7 +462,7 @@ fn build_gaussian_kernel(sigma: f64, max_len: usize, kernel_weight: usize) -> Ve
     } else {
         (sigma * (-2.0 * s.log(E)).sqrt()).floor() as usize
     };
-    let kernel_len = if len >= max_len { max_len - 1 } else { len };
+    let kernel_len = len.min(max_len.saturating_sub(1));
     let kernel_size = (kernel_len << 1) | 1;
     let mut kernel = vec![0; kernel_size];
     let mut sum = 0;
-- 
2.43.0


From d8529ead5ccb6fc2b2d4e1cb0a6faee105589433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 07/27] fix: SSIM of identical frames is never NaN

Summation rounding can lift the mean just above 1, and the logarithm of
the negative remainder was NaN.
---
 av_metrics/src/video/ssim.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 6299369..28c7747 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -508,5 +508,6 @@ fn msssim_downscale(input: &[u32], input_width: usize, input_height: usize) -> V
 }
 
 fn log10_convert(score: f64, weight: f64) -> f64 {
-    10.0 * (weight.log10() - (weight - score).log10())
+    // Rounding may lift the score of identical planes slightly above the maximum.
+    10.0 * (weight.log10() - (weight - score).max(0.0).log10())
 }
-- 
2.43.0


From 36d380eff5f2986346f0c42d4913e967dacaf2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 08/27] fix: MS-SSIM of anti-correlated planes is not NaN

A negative contrast-structure mean was raised to a fractional power.
---
 av_metrics/src/video/ssim.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 28c7747..6e5facc 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -445,9 +445,9 @@ fn calculate_plane_msssim<T: Pixel>(plane1: &Plane<T>, plane2: &Plane<T>, bit_de
     cs.iter()
         .zip(MS_WEIGHT.iter())
         .take(4)
-        .map(|(cs, weight)| cs.powf(*weight))
+        .map(|(cs, weight)| cs.max(0.0f64).powf(*weight))
         .fold(1.0, |acc, val| acc * val)
-        * ssim[4].powf(MS_WEIGHT[4])
+        * ssim[4].max(0.0f64).powf(MS_WEIGHT[4])
 }
 
 fn build_gaussian_kernel(sigma: f64, max_len: usize, kernel_weight: usize) -> Vec<i64> {
-- 
2.43.0


From e156692539be294903f3e3e4ce0593a63cb02084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 09/27] fix: PSNR never exceeds its documented cap of 100

Only identical planes were capped, so large nearly identical planes scored
above identical ones.
---
 av_metrics/src/video/psnr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/psnr.rs b/av_metrics/src/video/psnr.rs
index cf6b6b1..d4f005b 100644
--- a/av_metrics/src/video/psnr.rs
+++ b/av_metrics/src/video/psnr.rs
@@ -179,8 +179,10 @@ fn calculate_psnr(metrics: PsnrMetrics) -> f64 {
     if metrics.sq_err <= f64::EPSILON {
         return 100.0;
     }
-    10.0 * ((metrics.sample_max.pow(2) as f64).log10() + (metrics.n_pixels as f64).log10()
-        - metrics.sq_err.log10())
+    let psnr = 10.0
+        * ((metrics.sample_max.pow(2) as f64).log10() + (metrics.n_pixels as f64).log10()
+            - metrics.sq_err.log10());
+    psnr.min(100.0)
 }
 
 /// Calculate the squared error for a `Plane` by comparing the original (uncompressed)
-- 
2.43.0


From a2ddeae2cf037c072e20fe0e82f8ddd46b6ef914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 10/27] fix: CIEDE2000 rejects unsupported bit depths instead
 of panicking

---
 av_metrics/src/video/ciede/mod.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index af625be..6b73a5b 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -117,7 +117,7 @@ impl VideoMetric for Ciede2000 {
         let dec = chroma_sampling.get_decimation().unwrap_or((1, 1));
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
-        let delta_e_row_fn = get_delta_e_row_fn(bit_depth, dec.0, self.use_simd);
+        let delta_e_row_fn = get_delta_e_row_fn(bit_depth, dec.0, self.use_simd)?;
         // let mut delta_e_vec: Vec<f32> = vec![0.0; y_width * y_height];
 
         // Monochrome frames have no chroma planes: every sample is neutral there.
@@ -186,27 +186,34 @@ pub(crate) struct FrameRow<'a, T: Pixel> {
 
 type DeltaERowFn<T> = unsafe fn(FrameRow<T>, FrameRow<T>, &mut [f32]);
 
-fn get_delta_e_row_fn<T: Pixel>(bit_depth: usize, xdec: usize, simd: bool) -> DeltaERowFn<T> {
+fn get_delta_e_row_fn<T: Pixel>(
+    bit_depth: usize,
+    xdec: usize,
+    simd: bool,
+) -> Result<DeltaERowFn<T>, MetricsError> {
+    let unsupported = Err(MetricsError::UnsupportedInput {
+        reason: "CIEDE2000 requires a bit depth of 8, 10 or 12",
+    });
     #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
     {
         if is_x86_feature_detected!("avx2") && xdec == 1 && simd {
-            return match bit_depth {
+            return Ok(match bit_depth {
                 8 => BD8::delta_e_row_avx2,
                 10 => BD10::delta_e_row_avx2,
                 12 => BD12::delta_e_row_avx2,
-                _ => unreachable!(),
-            };
+                _ => return unsupported,
+            });
         }
     }
-    match (bit_depth, xdec) {
+    Ok(match (bit_depth, xdec) {
         (8, 1) => BD8::delta_e_row_scalar,
         (10, 1) => BD10::delta_e_row_scalar,
         (12, 1) => BD12::delta_e_row_scalar,
         (8, 0) => BD8_444::delta_e_row_scalar,
         (10, 0) => BD10_444::delta_e_row_scalar,
         (12, 0) => BD12_444::delta_e_row_scalar,
-        _ => unreachable!(),
-    }
+        _ => return unsupported,
+    })
 }
 
 pub(crate) trait Colorspace {
-- 
2.43.0


From 678f1057b3d39e71076f00c8c7db10d4bbbd548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 11/27] fix: a failed comparison does not deadlock with the
 decoding thread

The receiver outlived the join of the sending thread, which therefore never
returned from a send on the full channel when a frame pair could not be
compared or a worker panicked.
---
 av_metrics/src/video/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index f898a13..b259bcf 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -199,6 +199,9 @@ trait VideoMetric: Send + Sync {
                 Ok(())
             });
 
+            // Dropping the receiver, also when unwinding, unblocks the sender before it is joined.
+            let recv = recv;
+
             use rayon::prelude::*;
             let mut metrics = Vec::with_capacity(frame_limit.unwrap_or(0));
             let mut process_error = Ok(());
@@ -233,6 +236,7 @@ trait VideoMetric: Send + Sync {
             }
 
             out = metrics;
+            drop(recv);
 
             (
                 send_result
@@ -244,14 +248,15 @@ trait VideoMetric: Send + Sync {
 
         match scope_result {
             Ok((send_error, process_error)) => {
-                if let Err(error) = send_error {
-                    return Err(MetricsError::SendError { reason: error }.into());
-                }
-
+                // A failed comparison also makes sending fail, so report the cause first.
                 if let Err(error) = process_error {
                     return Err(MetricsError::ProcessError { reason: error }.into());
                 }
 
+                if let Err(error) = send_error {
+                    return Err(MetricsError::SendError { reason: error }.into());
+                }
+
                 if out.is_empty() {
                     return Err(MetricsError::UnsupportedInput {
                         reason: "No readable frames found in one or more input files",
-- 
2.43.0


From b04427f00c4beba5d5e9a45ae74306a74bcf71ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 12/27] fix: a large frame limit does not allocate room for
 that many results

---
 av_metrics/src/video/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index b259bcf..a549da6 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -203,7 +203,7 @@ trait VideoMetric: Send + Sync {
             let recv = recv;
 
             use rayon::prelude::*;
-            let mut metrics = Vec::with_capacity(frame_limit.unwrap_or(0));
+            let mut metrics = Vec::new();
             let mut process_error = Ok(());
             loop {
                 let working_set: Vec<_> = (0..num_threads)
-- 
2.43.0


From 2ca4d398356fb138f20a907df13230bba67cf469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 13/27] fix: reporting an incomparable monochrome frame does
 not panic

---
 av_metrics/src/video/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index a549da6..3a21fb6 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -60,6 +60,12 @@ pub(crate) fn visible_row<T: Pixel>(plane: &Plane<T>, y: usize) -> &[T] {
     &plane.data[start..start + plane.cfg.width]
 }
 
+/// Describes a frame in an error message. The `Debug` output of `Frame` panics if a plane is empty.
+fn describe<T: Pixel>(frame: &Frame<T>) -> String {
+    let planes: Vec<_> = frame.planes.iter().map(|p| &p.cfg).collect();
+    format!("{planes:?}")
+}
+
 pub use v_frame::pixel::ChromaSampling;
 
 pub(crate) trait ChromaWeight {
@@ -187,7 +193,9 @@ trait VideoMetric: Send + Sync {
                         if let Err(e) = send.send((frame1, frame2)) {
                             let (frame1, frame2) = e.into_inner();
                             return Err(format!(
-                                "Error sending\n\nframe1: {frame1:?}\n\nframe2: {frame2:?}"
+                                "Error sending\n\nframe1: {}\n\nframe2: {}",
+                                describe(&frame1),
+                                describe(&frame2)
                             ));
                         }
                     } else {
@@ -218,7 +226,11 @@ trait VideoMetric: Send + Sync {
                                     vid_info.chroma_sampling,
                                 )
                                 .map_err(|e| {
-                                    format!("\n\n{e} on\n\nframe1: {f1:?}\n\nand\n\nframe2: {f2:?}")
+                                    format!(
+                                        "\n\n{e} on\n\nframe1: {}\n\nand\n\nframe2: {}",
+                                        describe(&f1),
+                                        describe(&f2)
+                                    )
                                 })
                             })
                             .ok()
-- 
2.43.0


From b2c021fc1a5030c05de537a92cf37110b8b9ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 14/27] fix: clips of different resolution are rejected even if
 their frames are padded alike

---
 av_metrics/src/video/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 3a21fb6..ca8dd55 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -146,6 +146,12 @@ trait VideoMetric: Send + Sync {
                 reason: "Chroma samplings do not match",
             }));
         }
+        let (info1, info2) = (decoder1.get_video_details(), decoder2.get_video_details());
+        if (info1.width, info1.height) != (info2.width, info2.height) {
+            return Err(Box::new(MetricsError::InputMismatch {
+                reason: "Video resolution does not match",
+            }));
+        }
 
         if decoder1.get_bit_depth() > 8 {
             self.process_video_mt::<D, u16, F>(decoder1, decoder2, frame_limit, progress_callback)
-- 
2.43.0


From acdfd62004feee23d9c8cc806a8042173f70336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 15/27] fix: reading a frame number beyond the end stops at the
 end of the video

---
 av_metrics/src/video/decode.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index c51455b..d93e8cd 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -23,14 +23,12 @@ pub trait Decoder: Send {
     /// Expected to return `Err` if the frame is not found.
     fn read_specific_frame<T: Pixel>(&mut self, frame_number: usize) -> Option<Frame<T>> {
         let mut frame_no = 0;
-        while frame_no <= frame_number {
-            let frame = self.read_video_frame();
-            if frame_no == frame_number && frame.is_some() {
-                return frame;
-            }
+        while frame_no < frame_number {
+            // There is nothing to be found after the end of the video
+            self.read_video_frame::<T>()?;
             frame_no += 1;
         }
-        None
+        self.read_video_frame()
     }
     /// Get the bit depth of the video.
     fn get_bit_depth(&self) -> usize;
-- 
2.43.0


From 83cc8a516c5e824d266600153196e70bb18b4a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 16/27] fix: chroma realignment honours strides, origin and
 narrow planes

The vertical path wrote rows at multiples of the width instead of the stride,
ignored the origin, panicked on planes narrower than four samples and on
planes padded beyond the source; the copying path dropped a last row that is
not followed by padding and panicked on empty planes.
---
 av_metrics/src/video/decode.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index d93e8cd..d819257 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -108,12 +108,6 @@ pub fn convert_chroma_data<T: Pixel>(
     source_stride: usize,
     source_bytewidth: usize,
 ) {
-    if chroma_pos != ChromaSamplePosition::Vertical {
-        // TODO: Also convert Interpolated chromas
-        plane_data.copy_from_raw_u8(source, source_stride, source_bytewidth);
-        return;
-    }
-
     let get_pixel = if source_bytewidth == 1 {
         fn convert_u8(line: &[u8], index: usize) -> i32 {
             i32::cast_from(line[index])
@@ -127,13 +121,27 @@ pub fn convert_chroma_data<T: Pixel>(
         convert_u16
     };
 
+    let stride = plane_data.cfg.stride;
+    let origin = plane_data.cfg.yorigin * stride + plane_data.cfg.xorigin;
     let output_data = &mut plane_data.data;
-    let width = plane_data.cfg.width;
+    // The plane may be padded beyond the samples of the source.
+    let width = cmp::min(plane_data.cfg.width, source_stride / source_bytewidth);
     let height = plane_data.cfg.height;
     for y in 0..height {
+        let row_start = y * source_stride;
+        if width == 0 || row_start + width * source_bytewidth > source.len() {
+            break;
+        }
+        let in_row = &source[row_start..][..width * source_bytewidth];
+        let out_row = &mut output_data[(origin + y * stride)..][..width];
+        if chroma_pos != ChromaSamplePosition::Vertical {
+            // TODO: Also convert Interpolated chromas
+            for (x, out) in out_row.iter_mut().enumerate() {
+                *out = T::cast_from(get_pixel(in_row, x));
+            }
+            continue;
+        }
         // Filter: [4 -17 114 35 -9 1]/128, derived from a 6-tap Lanczos window.
-        let in_row = &source[(y * source_stride)..];
-        let out_row = &mut output_data[(y * width)..];
         let breakpoint = cmp::min(width, 2);
         for x in 0..breakpoint {
             out_row[x] = T::cast_from(clamp(
@@ -148,7 +156,7 @@ pub fn convert_chroma_data<T: Pixel>(
                 (1 << bit_depth) - 1,
             ));
         }
-        let breakpoint2 = width - 3;
+        let breakpoint2 = cmp::max(breakpoint, width.saturating_sub(3));
         for x in breakpoint..breakpoint2 {
             out_row[x] = T::cast_from(clamp(
                 (4 * get_pixel(in_row, x - 2) - 17 * get_pixel(in_row, x - 1)
-- 
2.43.0


From 46b7ed18ef8058cb5404be9392f9ff57288477cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:39 +0000
Subject: [PATCH 17/27] fix: the decoders return planes of the picture's true
 dimensions

Frames were rounded up to a multiple of 8, and every metric counted the
samples that no picture contains.
---
 av_metrics_decoders/src/ffmpeg.rs |  3 +--
 av_metrics_decoders/src/lib.rs    | 15 +++++++++++++++
 av_metrics_decoders/src/y4m.rs    |  2 +-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index 3843143..1659862 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -105,11 +105,10 @@ impl FfmpegDecoder {
     }
 
     fn decode_frame<T: Pixel>(&self, decoded: &frame::Video) -> Frame<T> {
-        let mut f: Frame<T> = Frame::new_with_padding(
+        let mut f: Frame<T> = crate::new_frame(
             self.video_details.width,
             self.video_details.height,
             self.video_details.chroma_sampling,
-            0,
         );
         let width = self.video_details.width;
         let height = self.video_details.height;
diff --git a/av_metrics_decoders/src/lib.rs b/av_metrics_decoders/src/lib.rs
index 42d6655..56a5140 100644
--- a/av_metrics_decoders/src/lib.rs
+++ b/av_metrics_decoders/src/lib.rs
@@ -33,5 +33,20 @@ mod vapoursynth;
 #[cfg(feature = "vapoursynth")]
 pub use crate::vapoursynth::{VapoursynthDecoder, VapoursynthDecoderPlugin};
 
+/// Allocates a frame whose planes have the true dimensions of the picture.
+/// `Frame::new_with_padding` would round them up to a multiple of 8.
+#[allow(dead_code)]
+fn new_frame<T: Pixel>(width: usize, height: usize, chroma_sampling: ChromaSampling) -> Frame<T> {
+    let (xdec, ydec) = chroma_sampling.get_decimation().unwrap_or((0, 0));
+    let (chroma_width, chroma_height) = chroma_sampling.get_chroma_dimensions(width, height);
+    Frame {
+        planes: [
+            Plane::new(width, height, 0, 0, 0, 0),
+            Plane::new(chroma_width, chroma_height, xdec, ydec, 0, 0),
+            Plane::new(chroma_width, chroma_height, xdec, ydec, 0, 0),
+        ],
+    }
+}
+
 pub use av_metrics::video::decode::{Decoder, VideoDetails};
 pub use av_metrics::video::{CastFromPrimitive, ChromaSampling, Frame, Pixel, Plane};
diff --git a/av_metrics_decoders/src/y4m.rs b/av_metrics_decoders/src/y4m.rs
index 81cbb83..26da966 100644
--- a/av_metrics_decoders/src/y4m.rs
+++ b/av_metrics_decoders/src/y4m.rs
@@ -75,7 +75,7 @@ where
         let height = self.inner.get_height();
         let bytes = self.inner.get_bytes_per_sample();
         self.inner.read_frame().ok().map(|frame| {
-            let mut f: Frame<T> = Frame::new_with_padding(width, height, chroma_sampling, 0);
+            let mut f: Frame<T> = crate::new_frame(width, height, chroma_sampling);
 
             let (chroma_width, _) = chroma_sampling.get_chroma_dimensions(width, height);
             f.planes[0].copy_from_raw_u8(frame.get_y_plane(), width * bytes, bytes);
-- 
2.43.0


From b7f8c5e6ed32d4f8e371da3192e0e8e8b02d35c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:07 +0000
Subject: [PATCH 18/27] fix: the ffmpeg decoder honours the line size of
 decoded pictures

---
 av_metrics_decoders/src/ffmpeg.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index 1659862..a84bba7 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -110,21 +110,15 @@ impl FfmpegDecoder {
             self.video_details.height,
             self.video_details.chroma_sampling,
         );
-        let width = self.video_details.width;
-        let height = self.video_details.height;
         let bit_depth = self.video_details.bit_depth;
         let bytes = if bit_depth > 8 { 2 } else { 1 };
-        let (chroma_width, _) = self
-            .video_details
-            .chroma_sampling
-            .get_chroma_dimensions(width, height);
-        f.planes[0].copy_from_raw_u8(decoded.data(0), width * bytes, bytes);
+        f.planes[0].copy_from_raw_u8(decoded.data(0), decoded.stride(0), bytes);
         convert_chroma_data(
             &mut f.planes[1],
             self.video_details.chroma_sample_position,
             bit_depth,
             decoded.data(1),
-            chroma_width * bytes,
+            decoded.stride(1),
             bytes,
         );
         convert_chroma_data(
@@ -132,7 +126,7 @@ impl FfmpegDecoder {
             self.video_details.chroma_sample_position,
             bit_depth,
             decoded.data(2),
-            chroma_width * bytes,
+            decoded.stride(2),
             bytes,
         );
         f
-- 
2.43.0


From 0c9341a1aad01d6e353f2405b7fa30b02d97d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 19/27] fix: the tool prints its report unless --quiet is given

contains_id is always true for a flag, so standard output was never written
and frames were always counted.
---
 av_metrics_tool/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index 4cbbe21..41c82be 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -106,7 +106,7 @@ fn main() -> Result<(), String> {
             File::create(filename).map_err(|err| err.to_string())?,
         )));
     };
-    if !cli.contains_id("QUIET") {
+    if !cli.get_flag("QUIET") {
         writers.push(OutputType::Stdout(BufWriter::new(std::io::stdout())));
     }
 
@@ -128,8 +128,8 @@ fn main() -> Result<(), String> {
                     base,
                     input,
                     metrics,
-                    cli.contains_id("QUIET"),
-                    cli.contains_id("FRAMES"),
+                    cli.get_flag("QUIET"),
+                    cli.get_flag("FRAMES"),
                 ));
             }
             (InputType::Audio, InputType::Audio) => {
-- 
2.43.0


From 863d253f3ae2661bce060d8908f3404f23e9451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 20/27] fix: the tool reports a failure to write the end of a
 report

---
 av_metrics_tool/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index 41c82be..cd37faa 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -146,6 +146,8 @@ fn main() -> Result<(), String> {
 
     for writer in writers.iter_mut() {
         report.print(writer)?;
+        // Dropping a buffered writer would ignore errors
+        writer.flush().map_err(|err| err.to_string())?;
     }
 
     Ok(())
-- 
2.43.0


From 245037a7243b4391b99975ee1e6250dcf3dd8e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 21/27] fix: the tool reports why files could not be compared

---
 av_metrics_tool/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index cd37faa..92b3912 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -420,7 +420,9 @@ trait CliMetric {
     ) -> Option<Self::VideoResult> {
         let mut dec1 = get_decoder(input1).expect("Failed to open input file 1");
         let mut dec2 = get_decoder(input2).expect("Failed to open input file 2");
-        Self::calculate_video_metric(&mut dec1, &mut dec2, progress_callback).ok()
+        Self::calculate_video_metric(&mut dec1, &mut dec2, progress_callback)
+            .map_err(|err| eprintln!("Failed to compare the input files: {err}"))
+            .ok()
     }
 
     fn calculate_video_metric<D: Decoder, F: Fn(usize) + Send>(
-- 
2.43.0


From c9228d3b727c06f71d0bdc3674db8a6321fd18fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 22/27] fix: file names with commas or quotes do not break the
 CSV report

---
 av_metrics_tool/src/main.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index 92b3912..42959dc 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -10,6 +10,7 @@ use clap::{Arg, Command};
 use console::style;
 use indicatif::{ProgressBar, ProgressStyle};
 use serde::Serialize;
+use std::borrow::Cow;
 use std::error::Error;
 use std::fs::File;
 #[cfg(not(feature = "ffmpeg"))]
@@ -302,6 +303,15 @@ fn total_frames<P: AsRef<Path>>(input1: P, input2: P) -> u64 {
     }
 }
 
+/// Quotes a field that would otherwise be split or misread (RFC 4180).
+fn csv_field(field: &str) -> Cow<'_, str> {
+    if field.contains([',', '"', '\r', '\n']) {
+        format!("\"{}\"", field.replace('"', "\"\"")).into()
+    } else {
+        field.into()
+    }
+}
+
 #[derive(Debug, Serialize, Default)]
 struct Report<'s> {
     base: &'s str,
@@ -322,7 +332,7 @@ impl Report<'_> {
                     writeln!(
                         w,
                         "{},{},{},{},{},{},{}",
-                        cmp.filename,
+                        csv_field(&cmp.filename),
                         cmp.psnr.map(|v| v.avg).unwrap_or(-0.0),
                         cmp.apsnr.map(|v| v.avg).unwrap_or(-0.0),
                         cmp.psnr_hvs.map(|v| v.avg).unwrap_or(-0.0),
-- 
2.43.0


From 5e80afba71644eb83de2fb86715b686c3407ceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 23/27] fix: file names with vertical bars do not break the
 Markdown report

---
 av_metrics_tool/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index 42959dc..cfdba7d 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -354,7 +354,7 @@ impl Report<'_> {
                     writeln!(
                         w,
                         "|{}|{}|{}|{}|{}|{}|{}|",
-                        cmp.filename,
+                        cmp.filename.replace('|', "\\|"),
                         cmp.psnr.map(|v| v.avg).unwrap_or(-0.0),
                         cmp.apsnr.map(|v| v.avg).unwrap_or(-0.0),
                         cmp.psnr_hvs.map(|v| v.avg).unwrap_or(-0.0),
-- 
2.43.0


From 3510bf99ea3e2380eb8e52b379711599b624c3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:11 +0000
Subject: [PATCH 24/27] fix: a read error ends the stream of the ffmpeg decoder
 instead of hanging it

---
 av_metrics_decoders/src/ffmpeg.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index a84bba7..21bab1d 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -153,8 +153,9 @@ impl Decoder for FfmpegDecoder {
             let packet = self
                 .input_ctx
                 .packets()
-                .filter_map(Result::ok)
                 .next()
+                // Reading on after an error may fail forever
+                .and_then(Result::ok)
                 .map(|(_, packet)| packet);
 
             let mut packet = if let Some(packet) = packet {
-- 
2.43.0


From 0c2c295c079bfd1d415d1a9b49ead7dec5c40d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:48 +0000
Subject: [PATCH 25/27] fix: ffmpeg decoder: follow size changes and stop at
 format changes

Pictures of a stream may change in size or pixel format. They were all read
as having the size and the format of the file's header: a smaller picture
panicked, a larger one was cropped, one of another format was misread.
---
 av_metrics_decoders/src/ffmpeg.rs | 73 ++++++++++++++++---------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index 21bab1d..03d5080 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -10,6 +10,23 @@ use ffmpeg::{format, frame};
 use av_metrics::video::decode::*;
 use av_metrics::video::*;
 
+/// Bit depth and chroma sampling of a pixel format, if it is supported
+fn pixel_layout(format: format::Pixel) -> Option<(usize, ChromaSampling)> {
+    use ffmpeg::format::Pixel;
+    Some(match format {
+        Pixel::YUV420P | Pixel::YUVJ420P => (8, ChromaSampling::Cs420),
+        Pixel::YUV422P | Pixel::YUVJ422P => (8, ChromaSampling::Cs422),
+        Pixel::YUV444P | Pixel::YUVJ444P => (8, ChromaSampling::Cs444),
+        Pixel::YUV420P10LE => (10, ChromaSampling::Cs420),
+        Pixel::YUV422P10LE => (10, ChromaSampling::Cs422),
+        Pixel::YUV444P10LE => (10, ChromaSampling::Cs444),
+        Pixel::YUV420P12LE => (12, ChromaSampling::Cs420),
+        Pixel::YUV422P12LE => (12, ChromaSampling::Cs422),
+        Pixel::YUV444P12LE => (12, ChromaSampling::Cs444),
+        _ => return None,
+    })
+}
+
 /// An interface that is used for decoding a video stream using FFMpeg
 ///
 /// There have been desync issue reported with this decoder
@@ -22,6 +39,7 @@ pub struct FfmpegDecoder {
     stream_index: usize,
     end_of_stream: bool,
     eof_sent: bool,
+    format_changed: bool,
 }
 
 impl FfmpegDecoder {
@@ -44,45 +62,15 @@ impl FfmpegDecoder {
             .set_parameters(input.parameters())
             .map_err(|e| e.to_string())?;
 
+        let (bit_depth, chroma_sampling) = pixel_layout(decoder.format())
+            .ok_or_else(|| format!("Unsupported pixel format {:?}", decoder.format()))?;
         let frame_rate = input.avg_frame_rate();
         Ok(Self {
             video_details: VideoDetails {
                 width: decoder.width() as usize,
                 height: decoder.height() as usize,
-                bit_depth: match decoder.format() {
-                    format::pixel::Pixel::YUV420P
-                    | format::pixel::Pixel::YUV422P
-                    | format::pixel::Pixel::YUV444P
-                    | format::pixel::Pixel::YUVJ420P
-                    | format::pixel::Pixel::YUVJ422P
-                    | format::pixel::Pixel::YUVJ444P => 8,
-                    format::pixel::Pixel::YUV420P10LE
-                    | format::pixel::Pixel::YUV422P10LE
-                    | format::pixel::Pixel::YUV444P10LE => 10,
-                    format::pixel::Pixel::YUV420P12LE
-                    | format::pixel::Pixel::YUV422P12LE
-                    | format::pixel::Pixel::YUV444P12LE => 12,
-                    _ => {
-                        return Err(format!("Unsupported pixel format {:?}", decoder.format()));
-                    }
-                },
-                chroma_sampling: match decoder.format() {
-                    format::pixel::Pixel::YUV420P
-                    | format::pixel::Pixel::YUVJ420P
-                    | format::pixel::Pixel::YUV420P10LE
-                    | format::pixel::Pixel::YUV420P12LE => ChromaSampling::Cs420,
-                    format::pixel::Pixel::YUV422P
-                    | format::pixel::Pixel::YUVJ422P
-                    | format::pixel::Pixel::YUV422P10LE
-                    | format::pixel::Pixel::YUV422P12LE => ChromaSampling::Cs422,
-                    format::pixel::Pixel::YUV444P
-                    | format::pixel::Pixel::YUVJ444P
-                    | format::pixel::Pixel::YUV444P10LE
-                    | format::pixel::Pixel::YUV444P12LE => ChromaSampling::Cs444,
-                    _ => {
-                        return Err(format!("Unsupported pixel format {:?}", decoder.format()));
-                    }
-                },
+                bit_depth,
+                chroma_sampling,
                 chroma_sample_position: match decoder.format() {
                     format::pixel::Pixel::YUV422P
                     | format::pixel::Pixel::YUV422P10LE
@@ -101,13 +89,15 @@ impl FfmpegDecoder {
             stream_index,
             end_of_stream: false,
             eof_sent: false,
+            format_changed: false,
         })
     }
 
     fn decode_frame<T: Pixel>(&self, decoded: &frame::Video) -> Frame<T> {
         let mut f: Frame<T> = crate::new_frame(
-            self.video_details.width,
-            self.video_details.height,
+            // The size may change within a stream
+            decoded.width() as usize,
+            decoded.height() as usize,
             self.video_details.chroma_sampling,
         );
         let bit_depth = self.video_details.bit_depth;
@@ -147,6 +137,9 @@ impl Decoder for FfmpegDecoder {
         // but noooooo.
         //
         // Reference: https://ffmpeg.org/doxygen/trunk/api-h264-test_8c_source.html#l00110
+        if self.format_changed {
+            return None;
+        }
         loop {
             // This iterator is actually really stupid... it doesn't reset itself after each `new`.
             // But that solves our lifetime hell issues, ironically.
@@ -184,6 +177,14 @@ impl Decoder for FfmpegDecoder {
                 }
 
                 if self.decoder.receive_frame(&mut decoded).is_ok() {
+                    let details = &self.video_details;
+                    if pixel_layout(decoded.format())
+                        != Some((details.bit_depth, details.chroma_sampling))
+                    {
+                        // No longer the kind of pictures this was opened as
+                        self.format_changed = true;
+                        return None;
+                    }
                     let f = self.decode_frame(&decoded);
                     self.frameno += 1;
                     return Some(f);
-- 
2.43.0


From 5413be440bef2e20fc37a9a1dac43faac9bc5eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 26/27] fix: tool: --frames panicked for clips of different bit
 depths

Both clips were counted with the sample type of the first one, so a list with
one clip of another bit depth lost all of its results.
---
 av_metrics_tool/src/main.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index cfdba7d..f7dd373 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -282,10 +282,19 @@ fn run_video_metrics(
 }
 
 #[inline(always)]
-fn count_frames<D: Decoder, P: Pixel>(dec1: &mut D, dec2: &mut D) -> u64 {
+fn skip_frame<D: Decoder>(dec: &mut D) -> bool {
+    if dec.get_bit_depth() > 8 {
+        dec.read_video_frame::<u16>().is_some()
+    } else {
+        dec.read_video_frame::<u8>().is_some()
+    }
+}
+
+#[inline(always)]
+fn count_frames<D: Decoder>(dec1: &mut D, dec2: &mut D) -> u64 {
     let mut frame_number = 0;
 
-    while dec1.read_video_frame::<P>().is_some() && dec2.read_video_frame::<P>().is_some() {
+    while skip_frame(dec1) && skip_frame(dec2) {
         frame_number += 1;
     }
     frame_number
@@ -296,11 +305,7 @@ fn total_frames<P: AsRef<Path>>(input1: P, input2: P) -> u64 {
         get_decoder(input1).expect("Failed to open input file 1 for counting frames");
     let mut decoder2 =
         get_decoder(input2).expect("Failed to open input file 2 for counting frames");
-    if decoder1.get_bit_depth() > 8 {
-        count_frames::<_, u16>(&mut decoder1, &mut decoder2)
-    } else {
-        count_frames::<_, u8>(&mut decoder1, &mut decoder2)
-    }
+    count_frames(&mut decoder1, &mut decoder2)
 }
 
 /// Quotes a field that would otherwise be split or misread (RFC 4180).
-- 
2.43.0


From ee932c3447618d1681104bb0538686842f326458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:29 +0000
Subject: [PATCH 27/27] fix: CIEDE2000: the SIMD path read past chroma rows
 shorter than half the luma row

---
 av_metrics/src/video/ciede/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index 6b73a5b..a2e295a 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -422,7 +422,7 @@ mod avx2 {
                     row2.v.chunks(4),
                     res_row.chunks_mut(8)
                 ) {
-                    if chunk1_y.len() == 8 {
+                    if chunk1_y.len() == 8 && chunk1_u.len() == 4 && chunk1_v.len() == 4 {
                         #[inline(always)]
                         unsafe fn load_luma(chunk: &[u8]) -> __m256 {
                             let tmp = _mm_loadl_epi64(chunk.as_ptr() as *const _);
@@ -504,7 +504,7 @@ mod avx2 {
                     row2.v.chunks(4),
                     res_row.chunks_mut(8)
                 ) {
-                    if chunk1_y.len() == 8 {
+                    if chunk1_y.len() == 8 && chunk1_u.len() == 4 && chunk1_v.len() == 4 {
                         #[inline(always)]
                         unsafe fn load_luma(chunk: &[u16]) -> __m256 {
                             let tmp = _mm_loadu_si128(chunk.as_ptr() as *const _);
-- 
2.43.0

