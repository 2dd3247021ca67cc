From 73d7f655e34f61a0bb554f5a145ad02e8908ec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 01/16] fix: do not hang when a frame fails to compare before
 the end of the video

---
 av_metrics/src/video/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 24300a2..3f7f8bc 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -160,6 +160,8 @@ trait VideoMetric: Send + Sync {
         let vid_info = decoder1.get_video_details();
 
         let scope_result = crossbeam::scope(|s| {
+            // Owned by this closure, so that the sender is unblocked on every way out of it
+            let recv = recv;
             let send_result = s.spawn(move |_| {
                 let mut decoded = 0;
                 while frame_limit.map(|limit| limit > decoded).unwrap_or(true) {
@@ -217,6 +219,7 @@ trait VideoMetric: Send + Sync {
             }
 
             out = metrics;
+            drop(recv);
 
             (
                 send_result
@@ -228,14 +231,14 @@ trait VideoMetric: Send + Sync {
 
         match scope_result {
             Ok((send_error, process_error)) => {
-                if let Err(error) = send_error {
-                    return Err(MetricsError::SendError { reason: error }.into());
-                }
-
                 if let Err(error) = process_error {
                     return Err(MetricsError::ProcessError { reason: error }.into());
                 }
 
+                if let Err(error) = send_error {
+                    return Err(MetricsError::SendError { reason: error }.into());
+                }
+
                 if out.is_empty() {
                     return Err(MetricsError::UnsupportedInput {
                         reason: "No readable frames found in one or more input files",
-- 
2.43.0


From 190abc8b376e5abe7b74c432ffb0e3dc762d1d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 02/16] fix: cap PSNR and APSNR at 100 as documented

---
 av_metrics/src/video/psnr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/psnr.rs b/av_metrics/src/video/psnr.rs
index 9c1b19d..b11a9ec 100644
--- a/av_metrics/src/video/psnr.rs
+++ b/av_metrics/src/video/psnr.rs
@@ -179,8 +179,10 @@ fn calculate_psnr(metrics: PsnrMetrics) -> f64 {
     if metrics.sq_err <= f64::EPSILON {
         return 100.0;
     }
-    10.0 * ((metrics.sample_max.pow(2) as f64).log10() + (metrics.n_pixels as f64).log10()
-        - metrics.sq_err.log10())
+    let psnr = 10.0
+        * ((metrics.sample_max.pow(2) as f64).log10() + (metrics.n_pixels as f64).log10()
+            - metrics.sq_err.log10());
+    psnr.min(100.0)
 }
 
 /// Calculate the squared error for a `Plane` by comparing the original (uncompressed)
-- 
2.43.0


From f35fcd74bd0f8e6b4872d42d50c5fb333e007af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 03/16] fix: ignore row padding when computing PSNR

---
 av_metrics/src/video/psnr.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/av_metrics/src/video/psnr.rs b/av_metrics/src/video/psnr.rs
index b11a9ec..31b3ab1 100644
--- a/av_metrics/src/video/psnr.rs
+++ b/av_metrics/src/video/psnr.rs
@@ -189,10 +189,9 @@ fn calculate_psnr(metrics: PsnrMetrics) -> f64 {
 /// to the compressed version.
 fn calculate_plane_total_squared_error<T: Pixel>(plane1: &Plane<T>, plane2: &Plane<T>) -> f64 {
     plane1
-        .data
         .iter()
-        .zip(plane2.data.iter())
-        .map(|(a, b)| (i32::cast_from(*a) - i32::cast_from(*b)).unsigned_abs() as u64)
+        .zip(plane2.iter())
+        .map(|(a, b)| (i32::cast_from(a) - i32::cast_from(b)).unsigned_abs() as u64)
         .map(|err| err * err)
         .sum::<u64>() as f64
 }
-- 
2.43.0


From 4d97022f8fc76d1d35c40935e2b31e35b55ca22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 04/16] fix: ignore row padding when computing SSIM and MSSSIM

---
 av_metrics/src/video/ssim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 5339631..0243bed 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -472,7 +472,7 @@ fn build_gaussian_kernel(sigma: f64, max_len: usize, kernel_weight: usize) -> Ve
 }
 
 fn plane_to_vec<T: Pixel>(input: &Plane<T>) -> Vec<u32> {
-    input.data.iter().map(|pix| u32::cast_from(*pix)).collect()
+    input.iter().map(|pix| u32::cast_from(pix)).collect()
 }
 
 // This acts differently from downscaling a plane, and is what
-- 
2.43.0


From d756bad73ea5fdbc58e2a49e73b47343fea600db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 05/16] fix: start PSNR-HVS at the origin of padded planes

---
 av_metrics/src/video/psnr_hvs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index ee12d06..63a63b2 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -216,8 +216,8 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
     let mut p2 = [0i16; 8 * 8];
     let mut dct_p1 = [0i32; 8 * 8];
     let mut dct_p2 = [0i32; 8 * 8];
-    assert!(plane1.data.len() >= stride * height);
-    assert!(plane2.data.len() >= stride * height);
+    let data1 = plane1.data_origin();
+    let data2 = plane2.data_origin();
     for y in (0..(height - STEP)).step_by(STEP) {
         for x in (0..(width - STEP)).step_by(STEP) {
             let mut p1_means = [0.0; 4];
@@ -233,8 +233,8 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
 
             for i in 0..8 {
                 for j in 0..8 {
-                    p1[i * 8 + j] = i16::cast_from(plane1.data[(y + i) * stride + x + j]);
-                    p2[i * 8 + j] = i16::cast_from(plane2.data[(y + i) * stride + x + j]);
+                    p1[i * 8 + j] = i16::cast_from(data1[(y + i) * stride + x + j]);
+                    p2[i * 8 + j] = i16::cast_from(data2[(y + i) * stride + x + j]);
 
                     let sub = ((i & 12) >> 2) + ((j & 12) >> 1);
                     p1_gmean += p1[i * 8 + j] as f64;
-- 
2.43.0


From 64cbd640008ea2bfb77d2c9b32c9332977da140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 06/16] fix: honour stride and padding in CIEDE2000

---
 av_metrics/src/video/ciede/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index f021df6..2c09acc 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -118,13 +118,15 @@ impl VideoMetric for Ciede2000 {
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
         let c_width = frame1.planes[1].cfg.width;
+        let y_stride = frame1.planes[0].cfg.stride;
+        let c_stride = frame1.planes[1].cfg.stride;
         let delta_e_row_fn = get_delta_e_row_fn(bit_depth, dec.0, self.use_simd);
         // let mut delta_e_vec: Vec<f32> = vec![0.0; y_width * y_height];
 
         let delta_e_per_line = (0..y_height).into_par_iter().map(|i| {
-            let y_start = i * y_width;
+            let y_start = i * y_stride;
             let y_end = y_start + y_width;
-            let c_start = (i >> dec.1) * c_width;
+            let c_start = (i >> dec.1) * c_stride;
             let c_end = c_start + c_width;
 
             let y_range = y_start..y_end;
@@ -135,14 +137,14 @@ impl VideoMetric for Ciede2000 {
             unsafe {
                 delta_e_row_fn(
                     FrameRow {
-                        y: &frame1.planes[0].data[y_range.clone()],
-                        u: &frame1.planes[1].data[c_range.clone()],
-                        v: &frame1.planes[2].data[c_range.clone()],
+                        y: &frame1.planes[0].data_origin()[y_range.clone()],
+                        u: &frame1.planes[1].data_origin()[c_range.clone()],
+                        v: &frame1.planes[2].data_origin()[c_range.clone()],
                     },
                     FrameRow {
-                        y: &frame2.planes[0].data[y_range],
-                        u: &frame2.planes[1].data[c_range.clone()],
-                        v: &frame2.planes[2].data[c_range],
+                        y: &frame2.planes[0].data_origin()[y_range],
+                        u: &frame2.planes[1].data_origin()[c_range.clone()],
+                        v: &frame2.planes[2].data_origin()[c_range],
                     },
                     &mut delta_e_vec[..],
                 );
-- 
2.43.0


From f9f10947faad74cf9722828397ad68173d75196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 07/16] fix: return an error from CIEDE2000 for unsupported bit
 depths and monochrome

---
 av_metrics/src/video/ciede/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index 2c09acc..36c73c0 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -114,7 +114,16 @@ impl VideoMetric for Ciede2000 {
 
         frame1.can_compare(frame2)?;
 
-        let dec = chroma_sampling.get_decimation().unwrap_or((1, 1));
+        if !matches!(bit_depth, 8 | 10 | 12) {
+            return Err(Box::new(MetricsError::UnsupportedInput {
+                reason: "CIEDE2000 supports bit depths of 8, 10 and 12 only",
+            }));
+        }
+        let dec = chroma_sampling
+            .get_decimation()
+            .ok_or(MetricsError::UnsupportedInput {
+                reason: "CIEDE2000 cannot be computed without chroma planes",
+            })?;
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
         let c_width = frame1.planes[1].cfg.width;
-- 
2.43.0


From 32aa0d9ba0a30178046e04a3045b13daeff56d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 08/16] fix: do not read past short chroma rows in the AVX2
 CIEDE2000 path

---
 av_metrics/src/video/ciede/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index 36c73c0..c863b86 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -422,7 +422,11 @@ mod avx2 {
                     row2.v.chunks(4),
                     res_row.chunks_mut(8)
                 ) {
-                    if chunk1_y.len() == 8 {
+                    if [chunk1_y, chunk2_y].iter().all(|c| c.len() == 8)
+                        && [chunk1_u, chunk1_v, chunk2_u, chunk2_v]
+                            .iter()
+                            .all(|c| c.len() == 4)
+                    {
                         #[inline(always)]
                         unsafe fn load_luma(chunk: &[u8]) -> __m256 {
                             let tmp = _mm_loadl_epi64(chunk.as_ptr() as *const _);
@@ -504,7 +508,11 @@ mod avx2 {
                     row2.v.chunks(4),
                     res_row.chunks_mut(8)
                 ) {
-                    if chunk1_y.len() == 8 {
+                    if [chunk1_y, chunk2_y].iter().all(|c| c.len() == 8)
+                        && [chunk1_u, chunk1_v, chunk2_u, chunk2_v]
+                            .iter()
+                            .all(|c| c.len() == 4)
+                    {
                         #[inline(always)]
                         unsafe fn load_luma(chunk: &[u16]) -> __m256 {
                             let tmp = _mm_loadu_si128(chunk.as_ptr() as *const _);
-- 
2.43.0


From 969361472ab635d39f45652f1921d0511504c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 09/16] fix: return an error for planes too small for SSIM,
 MSSSIM and PSNR-HVS

---
 av_metrics/src/video/mod.rs      | 14 ++++++++++++++
 av_metrics/src/video/psnr_hvs.rs |  1 +
 av_metrics/src/video/ssim.rs     |  2 ++
 3 files changed, 17 insertions(+)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 3f7f8bc..f20c2d1 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -17,6 +17,9 @@ pub use v_frame::plane::Plane;
 
 trait FrameCompare {
     fn can_compare(&self, other: &Self) -> Result<(), MetricsError>;
+
+    /// Checks that every plane has at least `min` rows and columns
+    fn check_min_size(&self, min: usize) -> Result<(), MetricsError>;
 }
 
 impl<T: Pixel> FrameCompare for Frame<T> {
@@ -27,6 +30,17 @@ impl<T: Pixel> FrameCompare for Frame<T> {
 
         Ok(())
     }
+
+    fn check_min_size(&self, min: usize) -> Result<(), MetricsError> {
+        for plane in &self.planes {
+            if plane.cfg.width < min || plane.cfg.height < min {
+                return Err(MetricsError::UnsupportedInput {
+                    reason: "Video planes are missing or too small for this metric",
+                });
+            }
+        }
+        Ok(())
+    }
 }
 
 pub(crate) trait PlaneCompare {
diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index 63a63b2..37cd9c4 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -84,6 +84,7 @@ impl VideoMetric for PsnrHvs {
         }
 
         frame1.can_compare(frame2)?;
+        frame1.check_min_size(8)?;
 
         let mut y = 0.0;
         let mut u = 0.0;
diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 0243bed..11ffa8d 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -88,6 +88,7 @@ impl VideoMetric for Ssim {
         }
 
         frame1.can_compare(frame2)?;
+        frame1.check_min_size(1)?;
 
         const KERNEL_SHIFT: usize = 8;
         const KERNEL_WEIGHT: usize = 1 << KERNEL_SHIFT;
@@ -245,6 +246,7 @@ impl VideoMetric for MsSsim {
         }
 
         frame1.can_compare(frame2)?;
+        frame1.check_min_size(16)?;
 
         let mut y = 0.0;
         let mut u = 0.0;
-- 
2.43.0


From fb4b5bb16352e5e69c56ad503ab20f0ab6d330c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 10/16] fix: keep chroma realignment inside the source and the
 rows of the plane

---
 av_metrics/src/video/decode.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index c51455b..6799989 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -110,6 +110,10 @@ pub fn convert_chroma_data<T: Pixel>(
     source_stride: usize,
     source_bytewidth: usize,
 ) {
+    if plane_data.cfg.width == 0 || plane_data.cfg.height == 0 {
+        return;
+    }
+
     if chroma_pos != ChromaSamplePosition::Vertical {
         // TODO: Also convert Interpolated chromas
         plane_data.copy_from_raw_u8(source, source_stride, source_bytewidth);
@@ -129,13 +133,15 @@ pub fn convert_chroma_data<T: Pixel>(
         convert_u16
     };
 
-    let output_data = &mut plane_data.data;
-    let width = plane_data.cfg.width;
-    let height = plane_data.cfg.height;
+    // The plane may be larger than the source, as its dimensions are aligned
+    let width = cmp::min(plane_data.cfg.width, source_stride / source_bytewidth);
+    let height = cmp::min(plane_data.cfg.height, source.len() / source_stride);
+    let stride = plane_data.cfg.stride;
+    let output_data = plane_data.data_origin_mut();
     for y in 0..height {
         // Filter: [4 -17 114 35 -9 1]/128, derived from a 6-tap Lanczos window.
         let in_row = &source[(y * source_stride)..];
-        let out_row = &mut output_data[(y * width)..];
+        let out_row = &mut output_data[(y * stride)..];
         let breakpoint = cmp::min(width, 2);
         for x in 0..breakpoint {
             out_row[x] = T::cast_from(clamp(
@@ -150,7 +156,7 @@ pub fn convert_chroma_data<T: Pixel>(
                 (1 << bit_depth) - 1,
             ));
         }
-        let breakpoint2 = width - 3;
+        let breakpoint2 = cmp::max(width.saturating_sub(3), breakpoint);
         for x in breakpoint..breakpoint2 {
             out_row[x] = T::cast_from(clamp(
                 (4 * get_pixel(in_row, x - 2) - 17 * get_pixel(in_row, x - 1)
-- 
2.43.0


From 046bce0bd7d2570b8ee9baf55b49946fdccb684d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 11/16] fix: print results to stdout unless --quiet is given

---
 av_metrics_tool/src/main.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index 4cbbe21..ee657f5 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -6,7 +6,7 @@ use av_metrics::video::*;
 use av_metrics_decoders::FfmpegDecoder;
 #[cfg(not(feature = "ffmpeg"))]
 use av_metrics_decoders::Y4MDecoder;
-use clap::{Arg, Command};
+use clap::{Arg, ArgAction, Command};
 use console::style;
 use indicatif::{ProgressBar, ProgressStyle};
 use serde::Serialize;
@@ -74,13 +74,15 @@ fn main() -> Result<(), String> {
             Arg::new("QUIET")
                 .help("Do not output to stdout")
                 .long("quiet")
-                .num_args(0),
+                .num_args(0)
+                .action(ArgAction::SetTrue),
         )
         .arg(
             Arg::new("FRAMES")
                 .help("Count the number of frames in a file")
                 .long("frames")
-                .num_args(0),
+                .num_args(0)
+                .action(ArgAction::SetTrue),
         )
         .get_matches();
     let base = cli.get_one::<String>("BASE").unwrap();
@@ -106,7 +108,7 @@ fn main() -> Result<(), String> {
             File::create(filename).map_err(|err| err.to_string())?,
         )));
     };
-    if !cli.contains_id("QUIET") {
+    if !cli.get_flag("QUIET") {
         writers.push(OutputType::Stdout(BufWriter::new(std::io::stdout())));
     }
 
@@ -128,8 +130,8 @@ fn main() -> Result<(), String> {
                     base,
                     input,
                     metrics,
-                    cli.contains_id("QUIET"),
-                    cli.contains_id("FRAMES"),
+                    cli.get_flag("QUIET"),
+                    cli.get_flag("FRAMES"),
                 ));
             }
             (InputType::Audio, InputType::Audio) => {
-- 
2.43.0


From 74227d447e564a33cf124625c077b9c152dcfd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 12/16] fix: report errors when the output cannot be written
 completely

---
 av_metrics_tool/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index ee657f5..c4a66f0 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -148,6 +148,7 @@ fn main() -> Result<(), String> {
 
     for writer in writers.iter_mut() {
         report.print(writer)?;
+        writer.flush().map_err(|err| err.to_string())?;
     }
 
     Ok(())
-- 
2.43.0


From d701481048ef0ade7f1122ac4e72867e032417a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 13/16] fix: do not allocate for a frame limit that may never
 be reached

---
 av_metrics/src/video/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index f20c2d1..34f3cee 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -200,7 +200,7 @@ trait VideoMetric: Send + Sync {
             });
 
             use rayon::prelude::*;
-            let mut metrics = Vec::with_capacity(frame_limit.unwrap_or(0));
+            let mut metrics = Vec::new();
             let mut process_error = Ok(());
             loop {
                 let working_set: Vec<_> = (0..num_threads)
-- 
2.43.0


From bc1fd564084cf3a29ef61b6af153e5b0e469564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 14/16] fix: honour the row stride of frames decoded by ffmpeg

---
 av_metrics_decoders/src/ffmpeg.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index 3843143..335d300 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -119,12 +119,20 @@ impl FfmpegDecoder {
             .video_details
             .chroma_sampling
             .get_chroma_dimensions(width, height);
-        f.planes[0].copy_from_raw_u8(decoded.data(0), width * bytes, bytes);
+        // The rows of a decoded plane may be followed by alignment bytes
+        let packed_rows = |plane: usize, row_bytes: usize| -> Vec<u8> {
+            decoded
+                .data(plane)
+                .chunks_exact(decoded.stride(plane))
+                .flat_map(|row| row[..row_bytes].iter().copied())
+                .collect()
+        };
+        f.planes[0].copy_from_raw_u8(&packed_rows(0, width * bytes), width * bytes, bytes);
         convert_chroma_data(
             &mut f.planes[1],
             self.video_details.chroma_sample_position,
             bit_depth,
-            decoded.data(1),
+            &packed_rows(1, chroma_width * bytes),
             chroma_width * bytes,
             bytes,
         );
@@ -132,7 +140,7 @@ impl FfmpegDecoder {
             &mut f.planes[2],
             self.video_details.chroma_sample_position,
             bit_depth,
-            decoded.data(2),
+            &packed_rows(2, chroma_width * bytes),
             chroma_width * bytes,
             bytes,
         );
-- 
2.43.0


From 4645fb52be6714b3dd34b1a7f9388a897dcc21e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:33 +0000
Subject: [PATCH 15/16] fix: PSNR-HVS keeps all 16 bits of a sample

Samples were narrowed to 15 bits and the squared transform coefficients
overflowed for bit depths over 12.
---
 av_metrics/src/video/psnr_hvs.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index 37cd9c4..4794d09 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -213,10 +213,10 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
     let height = plane1.cfg.height;
     let width = plane1.cfg.width;
     let stride = plane1.cfg.stride;
-    let mut p1 = [0i16; 8 * 8];
-    let mut p2 = [0i16; 8 * 8];
-    let mut dct_p1 = [0i32; 8 * 8];
-    let mut dct_p2 = [0i32; 8 * 8];
+    let mut p1 = [0i32; 8 * 8];
+    let mut p2 = [0i32; 8 * 8];
+    let mut dct_p1 = [0i64; 8 * 8];
+    let mut dct_p2 = [0i64; 8 * 8];
     let data1 = plane1.data_origin();
     let data2 = plane2.data_origin();
     for y in (0..(height - STEP)).step_by(STEP) {
@@ -234,8 +234,8 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
 
             for i in 0..8 {
                 for j in 0..8 {
-                    p1[i * 8 + j] = i16::cast_from(data1[(y + i) * stride + x + j]);
-                    p2[i * 8 + j] = i16::cast_from(data2[(y + i) * stride + x + j]);
+                    p1[i * 8 + j] = i32::cast_from(data1[(y + i) * stride + x + j]);
+                    p2[i * 8 + j] = i32::cast_from(data2[(y + i) * stride + x + j]);
 
                     let sub = ((i & 12) >> 2) + ((j & 12) >> 1);
                     p1_gmean += p1[i * 8 + j] as f64;
@@ -278,10 +278,10 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
             }
 
             p1.iter().copied().enumerate().for_each(|(i, v)| {
-                dct_p1[i] = v as i32;
+                dct_p1[i] = v as i64;
             });
             p2.iter().copied().enumerate().for_each(|(i, v)| {
-                dct_p2[i] = v as i32;
+                dct_p2[i] = v as i64;
             });
             od_bin_fdct8x8(&mut dct_p1);
             od_bin_fdct8x8(&mut dct_p2);
@@ -323,7 +323,7 @@ fn log10_convert(score: f64, weight: f64) -> f64 {
 const DCT_STRIDE: usize = 8;
 
 // Based on daala's version. It is different from the 8x8 DCT we use during encoding.
-fn od_bin_fdct8x8(data: &mut [i32]) {
+fn od_bin_fdct8x8(data: &mut [i64]) {
     assert!(data.len() >= 64);
     let mut z = [0; 64];
     for i in 0..8 {
@@ -335,7 +335,7 @@ fn od_bin_fdct8x8(data: &mut [i32]) {
 }
 
 #[allow(clippy::identity_op)]
-fn od_bin_fdct8(y: &mut [i32], x: &[i32]) {
+fn od_bin_fdct8(y: &mut [i64], x: &[i64]) {
     assert!(y.len() >= 8);
     assert!(x.len() > 7 * DCT_STRIDE);
     let mut t = [0; 8];
@@ -402,9 +402,9 @@ fn od_bin_fdct8(y: &mut [i32], x: &[i32]) {
 /// This will not work for `b == 0`, however currently this is only used for
 /// `b == 1` anyway.
 #[inline(always)]
-fn od_dct_rshift(a: i32, b: u32) -> i32 {
+fn od_dct_rshift(a: i64, b: u32) -> i64 {
     debug_assert!(b > 0);
-    debug_assert!(b <= 32);
+    debug_assert!(b <= 64);
 
-    ((a as u32 >> (32 - b)) as i32 + a) >> b
+    ((a as u64 >> (64 - b)) as i64 + a) >> b
 }
-- 
2.43.0


From ddb61c8ae1d6e779cb49d2cad099cd80a30567c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:28 +0000
Subject: [PATCH 16/16] fix: read_specific_frame stops at the end of the video

Past the end it went on reading once for every frame up to the one asked
for, so that asking for a frame far beyond the end took practically for ever.
---
 av_metrics/src/video/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index 6799989..9413def 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -25,7 +25,7 @@ pub trait Decoder: Send {
         let mut frame_no = 0;
         while frame_no <= frame_number {
             let frame = self.read_video_frame();
-            if frame_no == frame_number && frame.is_some() {
+            if frame_no == frame_number || frame.is_none() {
                 return frame;
             }
             frame_no += 1;
-- 
2.43.0

