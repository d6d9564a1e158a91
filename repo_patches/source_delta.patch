From 3c5c509d32519a0f53c1e799a8bdbbcb8d811024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 01/30] fix: write WBRO files completely when the system
 accepts only part of a write

---
 wavbrro/src/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wavbrro/src/write.rs b/wavbrro/src/write.rs
index e21cd25..938b43e 100644
--- a/wavbrro/src/write.rs
+++ b/wavbrro/src/write.rs
@@ -21,7 +21,7 @@ use std::path::Path;
 pub fn write_wavbrro_file(file_path: &Path, content: &[u8]) {
     let header: [u8; 12] = *b"WBRO0000WBRO";
     let file = File::create(file_path).expect("Can't create file!");
-    file.write_at(&header, 0).expect("Fail to write header");
-    file.write_at(content, header.len() as u64)
+    file.write_all_at(&header, 0).expect("Fail to write header");
+    file.write_all_at(content, header.len() as u64)
         .expect("Fail to write content");
 }
-- 
2.43.0


From d2d1f909b7cdc72e3354d4130eaf12f232cdb625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 02/30] fix: refuse torn or malformed WBRO files instead of
 panicking or reading them as empty

---
 wavbrro/src/wavbrro.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/wavbrro/src/wavbrro.rs b/wavbrro/src/wavbrro.rs
index 651a910..9c06b66 100644
--- a/wavbrro/src/wavbrro.rs
+++ b/wavbrro/src/wavbrro.rs
@@ -99,17 +99,35 @@ impl WavBrro {
     }
 
     // This should be generic, but first implementation is going to be Vec f64
-    // TODO: This will panic left and right, make it right
     pub fn from_file(file_path: &Path) -> Result<Vec<f64>, Error> {
         // Check if the header is correct
         if !is_wavbrro_file(file_path)? {
             return Err(Error::FormatError);
         };
         let bytes = read_wavbrro_file(file_path)?;
-        let obj = WavBrro::from_bytes(&bytes);
+        let obj = rkyv::from_bytes::<WavBrro>(&bytes).map_err(|_| Error::FormatError)?;
+        if !obj.is_consistent() {
+            return Err(Error::FormatError);
+        }
         Ok(obj.get_samples())
     }
 
+    /// Checks that the content agrees with what a writer produces: only f64 samples, every chunk full except
+    /// the last one and as many samples as announced. A torn file can be decodable but not consistent.
+    fn is_consistent(&self) -> bool {
+        let full_chunks = self.chunks.len().saturating_sub(1);
+        let sample_count: usize = self.chunks.iter().map(|c| c.len()).sum();
+        self.bitdepth == 5
+            && sample_count == self.sample_count as usize
+            && self.chunks[..full_chunks]
+                .iter()
+                .all(|c| c.len() == MAX_CHUNK_SIZE)
+            && self
+                .chunks
+                .last()
+                .map_or(true, |c| (1..=MAX_CHUNK_SIZE).contains(&c.len()))
+    }
+
     // TODO: This will panic left and right, make it right
     pub fn to_file_with_data(file_path: &Path, data: &[f64]) {
         let wb = WavBrro::from_slice(data);
-- 
2.43.0


From 3edc0c0a6933e4bc59ea555142e351ae8b4aa326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 03/30] fix: report errors when flushing the CSV output

---
 csv-compressor/src/csv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/csv-compressor/src/csv.rs b/csv-compressor/src/csv.rs
index a0fdc09..23de1f4 100644
--- a/csv-compressor/src/csv.rs
+++ b/csv-compressor/src/csv.rs
@@ -53,6 +53,8 @@ pub fn write_samples_to_csv_file(dest: &Path, samples: &[Sample]) -> Result<(),
     for sample in samples {
         writer.serialize(sample)?;
     }
+    // Dropping the writer would ignore errors
+    writer.flush()?;
 
     Ok(())
 }
-- 
2.43.0


From 2cb70eabb3e162ec677e52353f6b7a777c9dcd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 04/30] fix: process every file of a directory even if one of
 them fails, and only those listed at the start

---
 atsc/src/main.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/atsc/src/main.rs b/atsc/src/main.rs
index 21f1be8..8f831b2 100644
--- a/atsc/src/main.rs
+++ b/atsc/src/main.rs
@@ -48,22 +48,25 @@ fn process_args(arguments: &Args) -> Result<(), Box<dyn Error>> {
 }
 
 fn process_directory(arguments: &Args) -> Result<(), Box<dyn Error>> {
-    // Assuming you want to process each file inside this directory
+    // Files are created while this walks the dir, so collect the entries before processing them
+    let mut paths = Vec::new();
     for entry in std::fs::read_dir(arguments.input.clone())? {
-        let path = entry?.path();
+        paths.push(entry?.path());
+    }
+    // Assuming you want to process each file inside this directory
+    let mut failed = 0;
+    for path in paths {
         if path.is_file() {
-            match process_single_file(path.clone(), arguments) {
-                Ok(_) => continue,
-                //TODO: Files are created while this walks the dir, gives a funny output
-                //NOTE: Due to the way read_dir works, it seems we can't do much about this except collecting
-                //      before and then iterating. But that might lead to a MASSIVE array. So it keeps a `funny` output
-                //      output for the time beeing.
-                Err(err) => error!("{} File: {}", err, path.display()),
+            // A file that can't be processed doesn't stop the others, but the failure is reported in the end
+            if let Err(err) = process_single_file(path.clone(), arguments) {
+                error!("{} File: {}", err, path.display());
+                failed += 1;
             }
-            // We need to make sure we skip anything but BRO and WBRO, this can be done on single file processors
-            process_single_file(path, arguments)?;
         }
     }
+    if failed > 0 {
+        return Err(format!("{} file(s) could not be processed.", failed).into());
+    }
     Ok(())
 }
 
-- 
2.43.0


From 01d63fc32ddb15e3a80fdf5cd72d0aab839109c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 05/30] fix: accept compressed files of less than 12 bytes,
 which hold an empty series

---
 atsc/src/utils/readers/bro_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atsc/src/utils/readers/bro_reader.rs b/atsc/src/utils/readers/bro_reader.rs
index f2b7e37..f41a2e9 100644
--- a/atsc/src/utils/readers/bro_reader.rs
+++ b/atsc/src/utils/readers/bro_reader.rs
@@ -37,9 +37,9 @@ pub fn read_file(file_path: &Path) -> Result<Option<Vec<u8>>, Error> {
     }
 }
 fn is_bro_file(file_path: &Path) -> io::Result<bool> {
-    // Open the file for reading and read the first 12 bytes (header) of the file
+    // Open the file for reading and read the first 4 bytes (signature) of the file
     let mut file = fs::File::open(file_path)?;
-    let mut header = [0u8; 12];
+    let mut header = [0u8; 4];
     file.read_exact(&mut header)?;
     // Check if the file starts with "BRRO"
     Ok(header.starts_with(b"BRRO"))
-- 
2.43.0


From a7970614912bafb354f279b28ece974438ad03eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 06/30] fix: count zeros that are reproduced as zero as no
 error instead of NaN

---
 atsc/src/utils/error.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/atsc/src/utils/error.rs b/atsc/src/utils/error.rs
index d472b5d..3a1ce9f 100644
--- a/atsc/src/utils/error.rs
+++ b/atsc/src/utils/error.rs
@@ -109,9 +109,15 @@ pub fn error_mape(original: &[f64], generated: &[f64]) -> f64 {
     let abs_error: f64 = original
         .iter()
         .zip(generated.iter())
-        .map(|(original, generated)| ((generated - original) / original).abs())
+        .map(|(original, generated)| {
+            // No error, even for 0 where the division would give NaN
+            if generated == original {
+                0.0
+            } else {
+                ((generated - original) / original).abs()
+            }
+        })
         .sum();
-    // TODO: NaN needs to be handled
     abs_error / original.len() as f64
 }
 
-- 
2.43.0


From 624a6719ddfe00304ab2242ca0fd0c8fa8b1b264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 07/30] fix: detect the fractional and integer part of very
 small and very large values

---
 atsc/src/optimizer/utils.rs | 46 ++-----------------------------------
 1 file changed, 2 insertions(+), 44 deletions(-)

diff --git a/atsc/src/optimizer/utils.rs b/atsc/src/optimizer/utils.rs
index 556a253..7ad42f6 100644
--- a/atsc/src/optimizer/utils.rs
+++ b/atsc/src/optimizer/utils.rs
@@ -112,51 +112,9 @@ impl DataStats {
         }
     }
 }
+/// Splits a number into its integer part (saturating at the limits of i64) and its fractional part
 fn split_n(x: f64) -> (i64, f64) {
-    const FRACT_SCALE: f64 = 1.0 / (65536.0 * 65536.0 * 65536.0 * 65536.0); // 1_f64.exp(-64)
-    const STORED_MANTISSA_DIGITS: u32 = f64::MANTISSA_DIGITS - 1;
-    const STORED_MANTISSA_MASK: u64 = (1 << STORED_MANTISSA_DIGITS) - 1;
-    const MANTISSA_MSB: u64 = 1 << STORED_MANTISSA_DIGITS;
-
-    const EXPONENT_BITS: u32 = 64 - 1 - STORED_MANTISSA_DIGITS;
-    const EXPONENT_MASK: u32 = (1 << EXPONENT_BITS) - 1;
-    const EXPONENT_BIAS: i32 = (1 << (EXPONENT_BITS - 1)) - 1;
-
-    let bits = x.to_bits();
-    let is_negative = (bits as i64) < 0;
-    let exponent = ((bits >> STORED_MANTISSA_DIGITS) as u32 & EXPONENT_MASK) as i32;
-
-    let mantissa = (bits & STORED_MANTISSA_MASK) | MANTISSA_MSB;
-    let mantissa = if is_negative {
-        -(mantissa as i64)
-    } else {
-        mantissa as i64
-    };
-
-    let shl = exponent + (64 - f64::MANTISSA_DIGITS as i32 - EXPONENT_BIAS + 1);
-    if shl <= 0 {
-        let shr = -shl;
-        if shr < 64 {
-            // x >> 0..64
-            let fraction = ((mantissa as u64) >> shr) as f64 * FRACT_SCALE;
-            (0, fraction)
-        } else {
-            // x >> 64..
-            (0, 0.0)
-        }
-    } else if shl < 64 {
-        // x << 1..64
-        let int = mantissa >> (64 - shl);
-        let fraction = ((mantissa as u64) << shl) as f64 * FRACT_SCALE;
-        (int, fraction)
-    } else if shl < 128 {
-        // x << 64..128
-        let int = mantissa << (shl - 64);
-        (int, 0.0)
-    } else {
-        // x << 128..
-        (0, 0.0)
-    }
+    (x.trunc() as i64, x.fract())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3ede748d7409cfb4442e8addf1d2b2d76a89d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 08/30] fix: report the real FFT error when max and min only
 differ in double precision

---
 atsc/src/compressor/fft.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index 4c9fa07..abad399 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -288,6 +288,8 @@ impl FFT {
     pub fn compress_bounded(&mut self, data: &[f64], max_err: f64) {
         if self.max_value == self.min_value {
             debug!("Same max and min, we're done here!");
+            // They might only be the same in single precision
+            self.error = Some(calculate_error(data, &self.to_data(data.len())));
             return;
         }
 
-- 
2.43.0


From 6313aa7adea0b5a53ab64403b76d1df899a8a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 09/30] fix: measure the FFT error on the data itself, not on
 the data with padding

---
 atsc/src/compressor/fft.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index abad399..f72557a 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -312,6 +312,8 @@ impl FFT {
 
         let len = g_data.len();
         let len_f32 = len as f32;
+        // Padding is removed when decompressing
+        let prefix_len = (len - data.len()) / 2;
 
         // Clean the data
         let mut buffer = FFT::optimize(g_data);
@@ -342,9 +344,11 @@ impl FFT {
             ifft.process(&mut idata);
             let out_data: Vec<f64> = idata
                 .iter()
+                .skip(prefix_len)
+                .take(data.len())
                 .map(|&f| self.round(f.re / len_f32, DECIMAL_PRECISION.into()))
                 .collect();
-            current_err = calculate_error(g_data, &out_data);
+            current_err = calculate_error(data, &out_data);
             trace!("Current Err: {}", current_err);
             // Max iterations is 22 (We start at 10%, we can go to 95% and 1% at a time)
             match iterations {
-- 
2.43.0


From d0051c5646149caf343244f53b7d9ee8c3bd404e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 10/30] fix: give back every stored point unrounded when the
 whole frame is stored

---
 atsc/src/compressor/polynomial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atsc/src/compressor/polynomial.rs b/atsc/src/compressor/polynomial.rs
index 531a82a..17ec5c4 100644
--- a/atsc/src/compressor/polynomial.rs
+++ b/atsc/src/compressor/polynomial.rs
@@ -397,6 +397,10 @@ impl Polynomial {
             debug!("Same max and min, faster decompression!");
             return vec![self.max; frame_size];
         }
+        if self.data_points.len() == frame_size {
+            debug!("All the points are stored, nothing to interpolate!");
+            return self.data_points.clone();
+        }
         match self.id {
             PolynomialType::Idw => self.idw_to_data(frame_size),
             PolynomialType::Polynomial => self.polynomial_to_data(frame_size),
-- 
2.43.0


From 5e91c6a5811436367bf292ed65df2bf21de3f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 11/30] fix: compare the unrounded error with the target in the
 polynomial compressors

---
 atsc/src/compressor/polynomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atsc/src/compressor/polynomial.rs b/atsc/src/compressor/polynomial.rs
index 17ec5c4..607c723 100644
--- a/atsc/src/compressor/polynomial.rs
+++ b/atsc/src/compressor/polynomial.rs
@@ -228,7 +228,7 @@ impl Polynomial {
         let mut iterations = 0;
         // Locking max target error precision to 0.1%
         let target_error = round_f64(max_err, 3);
-        while target_error < round_f64(current_err, 4) {
+        while current_err.is_nan() || target_error < current_err {
             trace!(
                 "Method: {:?} Iterations: {} Error: {} Target: {}",
                 method,
@@ -252,7 +252,7 @@ impl Polynomial {
                 1..=17 => jump += (data_len / 10).max(1),
                 18..=22 => jump += (data_len / 100).max(1),
                 // No more jumping, but we landed right in the end
-                _ if target_error > round_f64(current_err, 4) => break,
+                _ if current_err <= target_error => break,
                 // We can't hit the target, store everything
                 _ => {
                     self.compress_hinted(data, data_len);
-- 
2.43.0


From 869a520287583ea5c4ff92bbba4451daa7807a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 12/30] fix: select again on all the data when the compressor
 picked on a sample misses the error bound

---
 atsc/src/frame/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/atsc/src/frame/mod.rs b/atsc/src/frame/mod.rs
index 1f726e4..e6ede43 100644
--- a/atsc/src/frame/mod.rs
+++ b/atsc/src/frame/mod.rs
@@ -105,10 +105,14 @@ impl CompressorFrame {
                 .unwrap();
             self.compressor = *chosen_compressor;
             // Now do the full data compression
-            self.data = self
+            let result = self
                 .compressor
-                .get_compress_bounded_results(data, max_error as f64)
-                .compressed_data;
+                .get_compress_bounded_results(data, max_error as f64);
+            if result.error > max_error as f64 || result.error.is_nan() {
+                // The sample misled the selection, select again using all the data
+                return self.compress_best(data, max_error, 0);
+            }
+            self.data = result.compressed_data;
         } else {
             // Run all the eligible compressors and choose smallest
             let compressor_results: Vec<_> = compressor_list
-- 
2.43.0


From 3e2da78819e554b5cd71d2dfad283a236e657039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 13/30] fix: do not overflow the frame counter of the header
 after 255 frames

---
 atsc/src/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atsc/src/header.rs b/atsc/src/header.rs
index 807b00e..d2b6f53 100644
--- a/atsc/src/header.rs
+++ b/atsc/src/header.rs
@@ -50,7 +50,7 @@ impl CompressorHeader {
     }
 
     pub fn add_frame(&mut self) {
-        self.frame_count += 1;
+        self.frame_count = self.frame_count.saturating_add(1);
     }
 
     pub fn get_frame_count(&mut self) -> u8 {
-- 
2.43.0


From c3966f4c1d4e1d7df258f90808f00a701a67953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 14/30] fix: compute the time of samples in every segment of
 the index, not only in the first one

---
 vsri/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 0487e53..b73d2c7 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -338,7 +338,7 @@ impl Vsri {
                 for segment in &self.vsri_segments {
                     if x >= segment[1] && x < (segment[1] + segment[3]) {
                         // Belongs here! Return Segment TS + the TS interval * x
-                        let y = segment[2] + segment[0] * x;
+                        let y = segment[2] + segment[0] * (x - segment[1]);
                         return Some(y);
                     }
                     continue;
-- 
2.43.0


From 4d3bf37e2c87080a36be37112fcec13d63c16e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 15/30] fix: look up single point segments of the index without
 dividing by zero

---
 vsri/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index b73d2c7..4ec9d14 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -317,6 +317,10 @@ impl Vsri {
             let segment_end_y = y0 + (sample_rate * (num_samples - 1));
 
             if y >= y0 && y <= segment_end_y {
+                // A segment with a single point has no sampling rate yet
+                if sample_rate == 0 {
+                    return Some(segment[1]);
+                }
                 // x = (y - b)/ m
                 // TODO: This can return floats!
                 let x_value = (y - self.calculate_b(segment)) / sample_rate;
-- 
2.43.0


From 5470c0233821c8448823c9a9c0ca4a5ea9b9391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 16/30] fix: return the first sample after the given time, not
 the first of the last segment

---
 vsri/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 4ec9d14..e9c3800 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -158,7 +158,7 @@ impl Vsri {
             return None;
         }
         // It wasn't smaller, so let's see if we have a sample that matches
-        for segment in self.vsri_segments.iter().rev() {
+        for segment in &self.vsri_segments {
             let first_sample = segment[1];
             let y0 = segment[2];
             if y <= y0 {
-- 
2.43.0


From d17949d74d0051fb54e12e0dd49c8b148dfbc354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 17/30] fix: take the last sample of a segment into account
 when checking for empty time ranges

---
 vsri/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index e9c3800..21f3864 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -226,8 +226,8 @@ impl Vsri {
                     }
                     // Could this be simplified with Karnaugh map? I'll dig my books later
                     // It starts or ends inside the segment
-                    if (time_segment[0] >= y0 && time_segment[0] < segment_end_y)
-                        || (time_segment[1] < segment_end_y && time_segment[1] >= y0)
+                    if (time_segment[0] >= y0 && time_segment[0] <= segment_end_y)
+                        || (time_segment[1] <= segment_end_y && time_segment[1] >= y0)
                     {
                         return false;
                     }
-- 
2.43.0


From 24d21111303fbe771f83b8f6a745e5c9a0df8701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 18/30] fix: keep every sample in the index when a time is
 repeated

---
 vsri/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 21f3864..b5d173b 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -265,19 +265,19 @@ impl Vsri {
             self.vsri_segments.push(self.create_fake_segment(y));
             return Ok(());
         }
-        if self.is_fake_segment() {
+        if self.is_fake_segment() && y > self.current_segment()[2] {
             // In the presence of a fake segment (where m is 0), and a new point, we are now
             // in a situation we can calculate a decent segment
             self.vsri_segments[segment_count - 1] = self.generate_segment(y);
         } else {
             // Check ownership by the current segment
-            if self.fits_segment(y) {
+            if !self.is_fake_segment() && self.fits_segment(y) {
                 // It fits, increase the sample count and it's done
                 debug!("[INDEX] Same segment, updating. TS: {}", y);
                 self.vsri_segments[segment_count - 1][3] += 1;
                 return Ok(());
             }
-            // If it doesn't fit, create a new fake segment
+            // If it doesn't fit (or repeats the time of a fake segment), create a new fake segment
             self.vsri_segments.push(self.create_fake_segment(y));
         }
         Ok(())
-- 
2.43.0


From bc8a8d7e734c77c73da8d4c47f722a7df84c4f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 19/30] fix: replace the index file atomically when saving it

---
 vsri/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index b5d173b..2a3f986 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -38,7 +38,7 @@ use log::{debug, warn};
 ///     59435
 ///     15,0,55745,166
 ///     15,166,58505,63
-use std::fs::File;
+use std::fs::{self, File};
 use std::io::{BufRead, BufReader, BufWriter, Write};
 use std::path::{Path, PathBuf};
 
@@ -436,7 +436,11 @@ impl Vsri {
     }
 
     pub fn flush_to(&self, path: &Path) -> Result<(), std::io::Error> {
-        let file = File::create(path)?;
+        // Write to a temporary file that then replaces the index, so that a crash never leaves a partial index
+        let mut tmp_path = path.as_os_str().to_owned();
+        tmp_path.push(".tmp");
+        let tmp_path = PathBuf::from(tmp_path);
+        let file = File::create(&tmp_path)?;
         let mut writer = BufWriter::new(file);
 
         // Write index_file, min_ts, max_ts on the first three lines
@@ -453,6 +457,8 @@ impl Vsri {
         }
 
         writer.flush()?;
+        writer.get_ref().sync_all()?;
+        fs::rename(&tmp_path, path)?;
         Ok(())
     }
 
-- 
2.43.0


From 21d99733bc3feab3ddb46d21d6d6965da2e0b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 20/30] fix: fail instead of writing an empty WBRO when the WAV
 file can't be read

---
 tools/src/bin/wav2wbro.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/tools/src/bin/wav2wbro.rs b/tools/src/bin/wav2wbro.rs
index 7d9c7f2..09ffe5c 100644
--- a/tools/src/bin/wav2wbro.rs
+++ b/tools/src/bin/wav2wbro.rs
@@ -16,7 +16,7 @@ limitations under the License.
 
 use clap::{arg, command, Parser};
 use log::debug;
-use std::fs::File;
+use std::fs::{self, File};
 use std::io::Read;
 use std::path::{Path, PathBuf};
 use wavbrro::wavbrro::WavBrro;
@@ -33,13 +33,8 @@ fn is_wav_file(file_path: &Path) -> bool {
 }
 
 fn read_metrics_from_wav(filename: &str) -> Vec<f64> {
-    let r_reader = hound::WavReader::open(filename);
-    let mut reader = match r_reader {
-        Ok(reader) => reader,
-        Err(_err) => {
-            return Vec::new();
-        }
-    };
+    let contents = fs::read(filename).expect("Can't read file!");
+    let mut reader = hound::WavReader::new(contents.as_slice()).expect("Not a valid WAV file!");
     let num_channels = reader.spec().channels as usize;
 
     let mut raw_data: Vec<f64> = Vec::new();
-- 
2.43.0


From 9fb26a277d6985a29a9d536290e6376fa342d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 21/30] fix: read CSV files also when reads are interrupted

---
 atsc/src/csv.rs           | 13 ++++++-------
 csv-compressor/src/csv.rs |  7 ++++---
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/atsc/src/csv.rs b/atsc/src/csv.rs
index eb08d9b..4b21838 100644
--- a/atsc/src/csv.rs
+++ b/atsc/src/csv.rs
@@ -1,4 +1,5 @@
-use std::fs::{File, OpenOptions};
+use std::fs;
+use std::io::Cursor;
 use std::path::Path;
 
 #[derive(Debug, thiserror::Error)]
@@ -97,15 +98,13 @@ pub fn read_samples(filepath: &Path) -> Result<Vec<Sample>> {
     Ok(samples)
 }
 
-fn open_csv_reader(filepath: &Path, has_headers: bool) -> Result<csv::Reader<File>> {
-    let file = OpenOptions::new()
-        .read(true)
-        .open(filepath)
-        .map_err(|_| Error::OpenFileFailed)?;
+fn open_csv_reader(filepath: &Path, has_headers: bool) -> Result<csv::Reader<Cursor<Vec<u8>>>> {
+    // Reading it at once takes care of interrupted reads, which the CSV reader does not retry
+    let contents = fs::read(filepath).map_err(|_| Error::OpenFileFailed)?;
 
     let reader = csv::ReaderBuilder::new()
         .has_headers(has_headers)
-        .from_reader(file);
+        .from_reader(Cursor::new(contents));
     Ok(reader)
 }
 
diff --git a/csv-compressor/src/csv.rs b/csv-compressor/src/csv.rs
index 23de1f4..19c2aa8 100644
--- a/csv-compressor/src/csv.rs
+++ b/csv-compressor/src/csv.rs
@@ -15,7 +15,7 @@ limitations under the License.
 */
 
 use serde::{Deserialize, Serialize};
-use std::fs::{File, OpenOptions};
+use std::fs::{self, File};
 use std::path::Path;
 
 /// Sample describe a single metric record according to csv format.
@@ -41,8 +41,9 @@ impl Sample {
 /// |    000001 | 1.01  |
 /// |    000005 | 1.22  |
 pub fn read_samples_from_csv_file(dest: &Path) -> Result<Vec<Sample>, csv::Error> {
-    let file = OpenOptions::new().read(true).open(dest)?;
-    let mut reader = csv::Reader::from_reader(file);
+    // Reading it at once takes care of interrupted reads, which the CSV reader does not retry
+    let contents = fs::read(dest)?;
+    let mut reader = csv::Reader::from_reader(contents.as_slice());
     reader.deserialize().collect()
 }
 
-- 
2.43.0


From c45798796f05617e44f66ce3894cc172f44233ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 22/30] fix: a corrupted file does not stop the processing of
 the rest of a directory

---
 atsc/src/main.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/atsc/src/main.rs b/atsc/src/main.rs
index 8f831b2..319d232 100644
--- a/atsc/src/main.rs
+++ b/atsc/src/main.rs
@@ -22,6 +22,7 @@ use atsc::utils::readers::bro_reader;
 use clap::{arg, command, Parser};
 use log::{debug, error};
 use std::error::Error;
+use std::panic;
 use std::path::PathBuf;
 use wavbrro::wavbrro::WavBrro;
 
@@ -58,10 +59,13 @@ fn process_directory(arguments: &Args) -> Result<(), Box<dyn Error>> {
     for path in paths {
         if path.is_file() {
             // A file that can't be processed doesn't stop the others, but the failure is reported in the end
-            if let Err(err) = process_single_file(path.clone(), arguments) {
-                error!("{} File: {}", err, path.display());
-                failed += 1;
+            match panic::catch_unwind(|| process_single_file(path.clone(), arguments)) {
+                Ok(Ok(_)) => continue,
+                Ok(Err(err)) => error!("{} File: {}", err, path.display()),
+                // Corrupted content, the reason was already printed
+                Err(_) => error!("Processing failed! File: {}", path.display()),
             }
+            failed += 1;
         }
     }
     if failed > 0 {
-- 
2.43.0


From e00aa2912a0f3d63dff88fef948cef6d1f49c712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 23/30] fix: write no output when compressed data and index
 don't match

---
 csv-compressor/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/csv-compressor/src/main.rs b/csv-compressor/src/main.rs
index a56dd0c..dc47846 100644
--- a/csv-compressor/src/main.rs
+++ b/csv-compressor/src/main.rs
@@ -163,14 +163,15 @@ fn process_args(args: Args) {
 
             let metric = Metric::new(wbro, index);
 
+            // This fails if data and index don't match, so it has to be done before any output
+            let samples = metric.get_samples();
+
             let mut file_path = output_base.clone();
             file_path.set_extension("wbro");
 
             debug!("Writing uncompressed wavbrro to disk, path: {file_path:?}");
             WavBrro::to_file_with_data(&file_path, &decompressed_data);
 
-            let samples = metric.get_samples();
-
             // creating csv output file
             let mut csv_file_path = file_path.clone();
             csv_file_path.set_extension("csv");
-- 
2.43.0


From b69ed1d69b42d27eed78a15ab15a04cec23983cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:00 +0000
Subject: [PATCH 24/30] fix: no overflow in the time index for large rates at
 large positions

---
 vsri/src/lib.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 2a3f986..4d76036 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -293,10 +293,9 @@ impl Vsri {
         self.max_ts
     }
 
-    fn calculate_b(&self, segment: &[i32; 4]) -> i32 {
-        // b = y - mx
-
-        segment[2] - segment[0] * segment[1]
+    fn calculate_b(&self, segment: &[i32; 4]) -> i64 {
+        // b = y - mx, which doesn't fit 32 bits for a large rate at a large position
+        segment[2] as i64 - segment[0] as i64 * segment[1] as i64
     }
 
     /// Returns the most recent (the last) calculated segment
@@ -323,8 +322,8 @@ impl Vsri {
                 }
                 // x = (y - b)/ m
                 // TODO: This can return floats!
-                let x_value = (y - self.calculate_b(segment)) / sample_rate;
-                return Some(x_value);
+                let x_value = (y as i64 - self.calculate_b(segment)) / sample_rate as i64;
+                return Some(x_value as i32);
             }
         }
         None // No matching segment found for the given Y value
@@ -412,7 +411,7 @@ impl Vsri {
         // and it has to be the next one in the line
         // x = (y - b)/ m
         // TODO: Can return float, watch out
-        let x_value = (y - b) / last_segment[0];
+        let x_value = (y as i64 - b) / last_segment[0] as i64;
         debug!(
             "[INDEX] Fit Calculation (Segment {:?}). b: {},  x: {}, calculated x: {}",
             last_segment,
@@ -420,7 +419,7 @@ impl Vsri {
             (last_segment[3] + last_segment[1]),
             x_value
         );
-        x_value == last_segment[3] + last_segment[1]
+        x_value == (last_segment[3] + last_segment[1]) as i64
     }
 
     /// Writes the index to the disk
-- 
2.43.0


From 75e49e437916a84062cd77cd7ae4840d29d5a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:20 +0000
Subject: [PATCH 25/30] fix: csv-compressor took fractions of a second before
 1970 for the next second

---
 csv-compressor/src/metric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csv-compressor/src/metric.rs b/csv-compressor/src/metric.rs
index f508d00..cf9156e 100644
--- a/csv-compressor/src/metric.rs
+++ b/csv-compressor/src/metric.rs
@@ -55,7 +55,7 @@ impl Metric {
     pub fn append_samples(&mut self, samples: &[Sample]) -> Result<(), Error> {
         for sample in samples {
             // For solution simplification it generates only 1 WavBrro and 1 VSRI
-            let ts = day_elapsed_seconds(sample.timestamp / 1000);
+            let ts = day_elapsed_seconds(sample.timestamp.div_euclid(1000));
             self.vsri
                 .update_for_point(ts)
                 .map_err(|_| Error::UpdateForPointError(sample.clone()))?;
-- 
2.43.0


From 3d266e471ee4c35df4843c17a36a2e5e84c5a3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:37 +0000
Subject: [PATCH 26/30] fix: a damaged size or sample count aborted the process
 and ended a directory walk

---
 atsc/src/compressor/mod.rs | 13 +++++++++----
 atsc/src/data.rs           | 13 +++++++++----
 atsc/src/frame/mod.rs      |  5 +++++
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/atsc/src/compressor/mod.rs b/atsc/src/compressor/mod.rs
index b04ee69..4acdd83 100644
--- a/atsc/src/compressor/mod.rs
+++ b/atsc/src/compressor/mod.rs
@@ -14,7 +14,7 @@ See the License for the specific language governing permissions and
 limitations under the License.
 */
 
-use bincode::config::{self, Configuration};
+use bincode::config::{self, Configuration, Limit, LittleEndian, Varint};
 use bincode::{Decode, Encode};
 
 use crate::optimizer::utils::DataStats;
@@ -119,13 +119,18 @@ impl Compressor {
     }
 }
 
+/// Sizes beyond this (64 GiB) are only found in corrupted data, allocating them would abort the process
+const DECODE_LIMIT: usize = (u32::MAX as usize).saturating_mul(16);
+
+type BinConfiguration = Configuration<LittleEndian, Varint, Limit<DECODE_LIMIT>>;
+
 pub struct BinConfig {
-    config: Configuration,
+    config: BinConfiguration,
 }
 
 impl BinConfig {
-    pub fn get() -> Configuration {
+    pub fn get() -> BinConfiguration {
         // Little endian and Variable int encoding
-        config::standard()
+        config::standard().with_limit::<DECODE_LIMIT>()
     }
 }
diff --git a/atsc/src/data.rs b/atsc/src/data.rs
index d616437..b83af29 100644
--- a/atsc/src/data.rs
+++ b/atsc/src/data.rs
@@ -102,10 +102,15 @@ impl CompressedStream {
         }
     }
     pub fn decompress(&self) -> Vec<f64> {
-        self.data_frames
-            .iter()
-            .flat_map(|f| f.decompress())
-            .collect()
+        let mut samples = Vec::new();
+        for frame in &self.data_frames {
+            // A corrupted frame can announce more samples than there is memory for
+            samples
+                .try_reserve(frame.sample_count())
+                .expect("Frame with incorrect sample count!");
+            samples.extend(frame.decompress());
+        }
+        samples
     }
 }
 
diff --git a/atsc/src/frame/mod.rs b/atsc/src/frame/mod.rs
index e6ede43..395a33d 100644
--- a/atsc/src/frame/mod.rs
+++ b/atsc/src/frame/mod.rs
@@ -152,6 +152,11 @@ impl CompressorFrame {
         debug!("Auto Compressor Selection: {:?}", self.compressor);
     }
 
+    /// Number of samples this frame decompresses to
+    pub fn sample_count(&self) -> usize {
+        self.sample_count
+    }
+
     /// Decompresses a frame and returns the resulting data array
     pub fn decompress(&self) -> Vec<f64> {
         debug!(
-- 
2.43.0


From 794eb7b841418c6abed6acaf692d7873a26a221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:00 +0000
Subject: [PATCH 27/30] fix: csv-compressor indexes only the samples it stores

NaN and infinite values are dropped by the compressor but their times were
indexed, so that all later samples were restored with the time of an earlier one.
---
 csv-compressor/src/metric.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/csv-compressor/src/metric.rs b/csv-compressor/src/metric.rs
index cf9156e..1b701f9 100644
--- a/csv-compressor/src/metric.rs
+++ b/csv-compressor/src/metric.rs
@@ -54,6 +54,10 @@ impl Metric {
 
     pub fn append_samples(&mut self, samples: &[Sample]) -> Result<(), Error> {
         for sample in samples {
+            // The compressor drops NaN and infinite values, so their time can't be indexed either
+            if !sample.value.is_finite() {
+                continue;
+            }
             // For solution simplification it generates only 1 WavBrro and 1 VSRI
             let ts = day_elapsed_seconds(sample.timestamp.div_euclid(1000));
             self.vsri
-- 
2.43.0


From 5633a97a872157c3a3677b1f87a4642acb64d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:22 +0000
Subject: [PATCH 28/30] fix: adding an empty chunk to a stream no longer panics

An empty chunk was indexed out of bounds by the data statistics.
---
 atsc/src/data.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/atsc/src/data.rs b/atsc/src/data.rs
index b83af29..8726cc5 100644
--- a/atsc/src/data.rs
+++ b/atsc/src/data.rs
@@ -36,6 +36,10 @@ impl CompressedStream {
 
     /// Compress a chunk of data adding it as a new frame to the current stream
     pub fn compress_chunk(&mut self, chunk: &[f64]) {
+        if chunk.is_empty() {
+            // There is nothing to put in a frame
+            return;
+        }
         let mut compressor_frame = CompressorFrame::new(None);
         compressor_frame.compress(chunk);
         compressor_frame.close();
@@ -45,6 +49,10 @@ impl CompressedStream {
 
     /// Compress a chunk of data with a specific compressor adding it as a new frame to the current stream
     pub fn compress_chunk_with(&mut self, chunk: &[f64], compressor: Compressor) {
+        if chunk.is_empty() {
+            // There is nothing to put in a frame
+            return;
+        }
         let mut compressor_frame = CompressorFrame::new(Some(compressor));
         compressor_frame.compress(chunk);
         compressor_frame.close();
@@ -60,6 +68,10 @@ impl CompressedStream {
         max_error: f32,
         compression_speed: usize,
     ) {
+        if chunk.is_empty() {
+            // There is nothing to put in a frame
+            return;
+        }
         debug!(
             "Compressing chunk bounded with a max error of {}",
             max_error
-- 
2.43.0


From 7ac6f5a132fd1961ff94358ecd0515e5d77b9259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:06 +0000
Subject: [PATCH 29/30] fix: never round a chunk's error bound up in the
 polynomial compressor

---
 atsc/src/compressor/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atsc/src/compressor/polynomial.rs b/atsc/src/compressor/polynomial.rs
index 607c723..8196b2c 100644
--- a/atsc/src/compressor/polynomial.rs
+++ b/atsc/src/compressor/polynomial.rs
@@ -227,7 +227,7 @@ impl Polynomial {
         let mut jump: usize = 0;
         let mut iterations = 0;
         // Locking max target error precision to 0.1%
-        let target_error = round_f64(max_err, 3);
+        let target_error = round_f64(max_err, 3).min(max_err);
         while current_err.is_nan() || target_error < current_err {
             trace!(
                 "Method: {:?} Iterations: {} Error: {} Target: {}",
-- 
2.43.0


From f79f1832d09346fdbe6a8487f84a16af72d564da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:48 +0000
Subject: [PATCH 30/30] fix: a directory entry whose metadata cannot be read is
 no longer skipped silently

---
 atsc/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/atsc/src/main.rs b/atsc/src/main.rs
index 319d232..f3318bd 100644
--- a/atsc/src/main.rs
+++ b/atsc/src/main.rs
@@ -57,7 +57,12 @@ fn process_directory(arguments: &Args) -> Result<(), Box<dyn Error>> {
     // Assuming you want to process each file inside this directory
     let mut failed = 0;
     for path in paths {
-        if path.is_file() {
+        let is_file = match path.metadata() {
+            Ok(metadata) => metadata.is_file(),
+            // Gone in the meantime, or a link to nothing. With any other error it may be a file, processing it tells
+            Err(err) => err.kind() != std::io::ErrorKind::NotFound,
+        };
+        if is_file {
             // A file that can't be processed doesn't stop the others, but the failure is reported in the end
             match panic::catch_unwind(|| process_single_file(path.clone(), arguments)) {
                 Ok(Ok(_)) => continue,
-- 
2.43.0

