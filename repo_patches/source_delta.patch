From f891c9dde9ffa737d8e954ac2b561683f4c4f013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 01/22] fix: reject frames whose component count is neither 1
 nor 3

The rest of the decoder indexes fixed three-element arrays by component, so any
other count made it panic (parse_sos indexes `seen`, the block arrays, ...).
---
 src/headers.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/headers.rs b/src/headers.rs
index 03ab65e..5dd458e 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -273,6 +273,14 @@ where
         )));
     }
 
+    if num_components != 1 && num_components != 3
+    {
+        return Err(DecodeErrors::SofError(format!(
+            "Images with {} components are not supported, expected 1 or 3",
+            num_components
+        )));
+    }
+
     info!("Image components : {}", num_components);
 
     if num_components == 1
-- 
2.43.0


From 1205f25b9256dc1973398a8b8a27443abbff323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 02/22] fix: do not overflow u16 when padding dimensions close
 to 65535

---
 src/mcu.rs      | 10 +++++-----
 src/mcu_prog.rs |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 296ad96..199ccac 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -164,8 +164,8 @@ impl Decoder
         } else {
             // For non-interleaved images( (1*1) subsampling)
             // number of MCU's are the widths (+7 to account for paddings) divided bu 8.
-            mcu_width = ((self.info.width + 7) / 8) as usize;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_width = (usize::from(self.info.width) + 7) / 8;
+            mcu_height = (usize::from(self.info.height) + 7) / 8;
         }
 
         if self.input_colorspace == ColorSpace::GRAYSCALE && self.interleaved {
@@ -183,7 +183,7 @@ impl Decoder
 
             warn!("Grayscale image with down-sampled component, resetting component details");
 
-            mcu_width = ((self.info.width + 7) / 8) as usize;
+            mcu_width = (usize::from(self.info.width) + 7) / 8;
             self.h_max = 1;
             self.options = self.options.set_out_colorspace(ColorSpace::GRAYSCALE);
             self.v_max = 1;
@@ -191,11 +191,11 @@ impl Decoder
             self.components[0].vertical_sample = 1;
             self.components[0].width_stride = mcu_width * 8;
             self.components[0].horizontal_sample = 1;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_height = (usize::from(self.info.height) + 7) / 8;
             bias = 1;
         }
         // Size of our output image(width*height)
-        let capacity = usize::from(self.info.width + 8) * usize::from(self.info.height + 8);
+        let capacity = (usize::from(self.info.width) + 8) * (usize::from(self.info.height) + 8);
         let component_capacity = mcu_width * DCT_BLOCK;
         // Create an Arc of components to prevent cloning on every MCU width
         let global_component = Arc::new(self.components.clone());
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 4467d7d..43a9a3c 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -171,7 +171,7 @@ impl Decoder
         let cb = &block[1];
         let cr = &block[2];
         let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.options.get_out_colorspace().num_components();
-        let capacity = usize::from(self.info.width + 8) * usize::from(self.info.height + 8);
+        let capacity = (usize::from(self.info.width) + 8) * (usize::from(self.info.height) + 8);
 
         let mut out_vector = vec![0_u8; capacity * self.options.get_out_colorspace().num_components() + extra_space];
 
@@ -280,8 +280,8 @@ impl Decoder
             // by 8
             if self.components[k].component_id == ComponentID::Y || !self.interleaved
             {
-                mcu_width = ((self.info.width + 7) / 8) as usize;
-                mcu_height = ((self.info.height + 7) / 8) as usize;
+                mcu_width = (usize::from(self.info.width) + 7) / 8;
+                mcu_height = (usize::from(self.info.height) + 7) / 8;
             } else {
                 // For other channels, in an interleaved mcu, number of MCU's
                 // are determined by some weird maths done in headers.rs->parse_sos()
-- 
2.43.0


From c09e53c1163f8ed26e923d2b621189b43b41b2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:45 +0000
Subject: [PATCH 03/22] fix: a restart interval of zero must not underflow the
 countdown

DRI with interval 0 disables restarts; the non-interleaved progressive path
subtracted from 0 (the two other countdowns already wrap).
---
 src/mcu_prog.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 43a9a3c..bb104d8 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -357,7 +357,7 @@ impl Decoder
                         }
                     }
                     j += 1;
-                    self.todo -= 1;
+                    self.todo = self.todo.wrapping_sub(1);
 
                     if self.todo == 0
                     {
-- 
2.43.0


From 6b430b22339433106f9008d83e169fd2cad01f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:45 +0000
Subject: [PATCH 04/22] fix: count restart intervals in MCUs, starting afresh
 with every scan

The countdown ran once per component of an interleaved MCU, so a restart marker
that the bit reader had already seen was consumed in the middle of an MCU, and
it was carried over from one progressive scan to the next.
---
 src/mcu.rs      | 13 ++++++-------
 src/mcu_prog.rs | 16 +++++++++-------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 199ccac..f48f92c 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -320,13 +320,6 @@ impl Decoder
                                     }
                                 }
                             }
-                            self.todo = self.todo.wrapping_sub(1);
-                            // after every interleaved MCU that's a mcu, count down restart markers.
-                            if self.todo == 0
-                            {
-                                self.handle_rst(&mut stream)?;
-                            }
-
                             // In some corrupt images, it may occur that header markers occur in the stream.
                             // The spec EXPLICITLY FORBIDS this, specifically, in
                             // routine F.2.2.5  it says
@@ -347,6 +340,12 @@ impl Decoder
                                 self.parse_marker_inner(m, reader)?;
                             }
                         }
+                        self.todo = self.todo.wrapping_sub(1);
+                        // after every interleaved MCU that's a mcu, count down restart markers.
+                        if self.todo == 0
+                        {
+                            self.handle_rst(&mut stream)?;
+                        }
                     }
                 }
                 // Clone things, to make multithreading safe
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index bb104d8..0246689 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -253,6 +253,8 @@ impl Decoder
         self.check_component_dimensions()?;
         stream.reset();
         self.components.iter_mut().for_each(|x| x.dc_pred = 0);
+        // the restart interval starts afresh with every scan
+        self.todo = self.restart_interval;
 
         if usize::from(self.num_scans) > self.input_colorspace.num_components() {
             return Err(Format(format!("Number of scans {} cannot be greater than number of components, {}", self.num_scans, self.input_colorspace.num_components())));
@@ -415,13 +417,13 @@ impl Decoder
                                 }
                             }
                         }
-                        // We want wrapping subtraction here because it means
-                        // we get a higher number in the case this underflows
-                        self.todo = self.todo.wrapping_sub(1);
-                        // after every scan that's a mcu, count down restart markers.
-                        if self.todo == 0 {
-                            self.handle_rst(stream)?;
-                        }
+                    }
+                    // We want wrapping subtraction here because it means
+                    // we get a higher number in the case this underflows
+                    self.todo = self.todo.wrapping_sub(1);
+                    // after every scan that's a mcu, count down restart markers.
+                    if self.todo == 0 {
+                        self.handle_rst(stream)?;
                     }
                 }
             }
-- 
2.43.0


From aab29c52e06a0e70774a429306b4bdeaddc97b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:46 +0000
Subject: [PATCH 05/22] fix: do not overflow when refining a coefficient of a
 corrupt image

---
 src/bitstream.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index f6a76df..d0f700f 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -574,11 +574,11 @@ impl BitStream
                         {
                             if *coefficient >= 0
                             {
-                                *coefficient += bit;
+                                *coefficient = coefficient.wrapping_add(bit);
                             }
                             else
                             {
-                                *coefficient -= bit;
+                                *coefficient = coefficient.wrapping_sub(bit);
                             }
                         }
 
@@ -635,11 +635,11 @@ impl BitStream
                         {
                             if *coefficient >= 0
                             {
-                                *coefficient += bit;
+                                *coefficient = coefficient.wrapping_add(bit);
                             }
                             else
                             {
-                                *coefficient -= bit;
+                                *coefficient = coefficient.wrapping_sub(bit);
                             }
                         }
                     }
-- 
2.43.0


From d7db760b7122580507c70547c0d863c042c067d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:46 +0000
Subject: [PATCH 06/22] fix: set_num_threads must not panic when the count does
 not fit 32 bits

---
 src/decoder.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 39b8d85..8ef5cb9 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1,6 +1,7 @@
 //! Main image logic.
 #![allow(clippy::doc_markdown)]
 
+use std::convert::TryFrom;
 use std::fs::read;
 use std::io::{BufRead, Cursor, Read};
 use std::num::NonZeroU32;
@@ -590,15 +591,14 @@ impl Decoder
     #[allow(clippy::cast_possible_truncation)]
     pub fn set_num_threads(&mut self, threads: usize) -> Result<(), DecodeErrors>
     {
-        if threads == 0
-        {
-            return Err(DecodeErrors::FormatStatic(
+        let threads = u32::try_from(threads)
+            .ok()
+            .and_then(NonZeroU32::new)
+            .ok_or(DecodeErrors::FormatStatic(
                 "Cannot set zero threads to decode image",
-            ));
-        }
-        self.options = self
-            .options
-            .set_num_threads(NonZeroU32::new(threads as u32).unwrap());
+            ))?;
+
+        self.options = self.options.set_num_threads(threads);
         Ok(())
     }
     /// Check that all components have the correct width and height
-- 
2.43.0


From fd7fa441283aa6a262be12392b379081fb272881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:46 +0000
Subject: [PATCH 07/22] fix: apply the scan limit to the first scan as well

---
 src/mcu_prog.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 0246689..a9c8420 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -59,6 +59,10 @@ impl Decoder
 
         let mut seen_scans = 1;
 
+        if seen_scans > self.options.get_max_scans(){
+            return Err(DecodeErrors::Format(format!("Too many scans, exceeded limit of {}", self.options.get_max_scans())))
+        }
+
         if self.interleaved
         {
             mcu_width = self.mcu_x;
-- 
2.43.0


From aceb7b20a45b581ddf370c714832948f70a15dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:46 +0000
Subject: [PATCH 08/22] fix: clamp DC-only blocks in the scalar IDCT

The general path and the AVX2 implementation already do; out of range samples
wrapped around when they were stored as bytes.
---
 src/idct/scalar.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/idct/scalar.rs b/src/idct/scalar.rs
index e58abe1..35369aa 100644
--- a/src/idct/scalar.rs
+++ b/src/idct/scalar.rs
@@ -45,7 +45,9 @@ pub fn dequantize_and_idct_int(
             if &vector[1..] == &[0_i16; 63]
             {
                 // okay then if you work, yaay, let's write you really quick
-                let coeff = [((vector[0].wrapping_mul(qt_table.0[0] as i16)) >> 3) + 128; 8];
+                let coeff = [(((vector[0].wrapping_mul(qt_table.0[0] as i16)) >> 3) + 128)
+                    .max(0)
+                    .min(255); 8];
 
                 macro_rules! store {
                     ($index:tt) => {
-- 
2.43.0


From 84fb4e8c434deb9b806d432931d44af1ae385538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:47 +0000
Subject: [PATCH 09/22] fix: keep vector loads inside the slices they read from

The AVX2 IDCT used aligned loads on i16 slices, which only guarantee two byte
alignment, and read 16 bytes from a 7 element subslice; the HV up-sampler read
16 elements from a slice that may hold fewer.
---
 src/idct/avx2.rs      | 16 ++++++++--------
 src/upsampler/avx2.rs |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/idct/avx2.rs b/src/idct/avx2.rs
index cf3f671..68a035c 100644
--- a/src/idct/avx2.rs
+++ b/src/idct/avx2.rs
@@ -104,19 +104,19 @@ unsafe fn dequantize_and_idct_int_avx2(
             // We sign extend i16's to i32's and calculate them with extended precision and
             // later reduce them to i16's when we are done carrying out IDCT
 
-            let rw0 = _mm_load_si128(vector[0..=7].as_ptr().cast());
+            let rw0 = _mm_loadu_si128(vector[0..=7].as_ptr().cast());
 
-            let rw1 = _mm_load_si128(vector[8..=15].as_ptr().cast());
+            let rw1 = _mm_loadu_si128(vector[8..=15].as_ptr().cast());
 
-            let rw2 = _mm_load_si128(vector[16..=23].as_ptr().cast());
+            let rw2 = _mm_loadu_si128(vector[16..=23].as_ptr().cast());
 
-            let rw3 = _mm_load_si128(vector[24..=31].as_ptr().cast());
+            let rw3 = _mm_loadu_si128(vector[24..=31].as_ptr().cast());
 
-            let rw4 = _mm_load_si128(vector[32..=39].as_ptr().cast());
+            let rw4 = _mm_loadu_si128(vector[32..=39].as_ptr().cast());
 
-            let rw5 = _mm_load_si128(vector[40..=47].as_ptr().cast());
+            let rw5 = _mm_loadu_si128(vector[40..=47].as_ptr().cast());
 
-            let rw6 = _mm_load_si128(vector[48..=55].as_ptr().cast());
+            let rw6 = _mm_loadu_si128(vector[48..=55].as_ptr().cast());
 
             let rw7 = _mm_loadu_si128(vector[56..=63].as_ptr().cast());
 
@@ -133,7 +133,7 @@ unsafe fn dequantize_and_idct_int_avx2(
 
                 // Do another load for the first row, we don't want to check DC value, because
                 // we only care about AC terms
-                let mut zero_test = _mm_loadu_si128(vector[1..8].as_ptr().cast());
+                let mut zero_test = _mm_loadu_si128(vector[1..=8].as_ptr().cast());
 
                 // To test for zeroes, we use bitwise OR,operations, a| a => 0 if a is zero, so
                 // if all items are zero, the resulting value of X should be zero
diff --git a/src/upsampler/avx2.rs b/src/upsampler/avx2.rs
index fcc2b4e..4ee7d71 100644
--- a/src/upsampler/avx2.rs
+++ b/src/upsampler/avx2.rs
@@ -234,8 +234,8 @@ pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
         // chunk data. into 16
         for _ in 0..end
         {
-            let load_near = _mm256_loadu_si256(input[pos..].as_ptr().cast());
-            let load_far = _mm256_loadu_si256(input[pos + stride..].as_ptr().cast());
+            let load_near = _mm256_loadu_si256(input[pos..pos + 16].as_ptr().cast());
+            let load_far = _mm256_loadu_si256(input[pos + stride..pos + stride + 16].as_ptr().cast());
             // ==========================================================================
             // -> Pass 1:Vertical calculation.
             // --------------------------------------------------------------------------
-- 
2.43.0


From 8d8a602d0439b206d27ca15c26cefff507c5b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:08 +0000
Subject: [PATCH 10/22] fix: start every decode from a clean state

A decoder that had seen another image kept its tables, sampling factors,
restart interval and progressive flag, and a grayscale image overwrote the
output colorspace the caller had asked for.
---
 src/decoder.rs  | 11 ++++++++++-
 src/headers.rs  |  2 +-
 src/mcu.rs      | 14 +++++++-------
 src/mcu_prog.rs | 10 +++++-----
 4 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 8ef5cb9..c1484fc 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -90,6 +90,9 @@ pub struct Decoder
     /// Image input colorspace, should be YCbCr for a sane image, might be
     /// grayscale too
     pub(crate) input_colorspace:  ColorSpace,
+    /// Colorspace of the output of the current image, the one of the options
+    /// unless the image is grayscale
+    pub(crate) out_colorspace:    ColorSpace,
     // Progressive image details
     /// Is the image progressive?
     pub(crate) is_progressive:    bool,
@@ -158,6 +161,7 @@ impl Decoder
 
             // Colorspace
             input_colorspace: ColorSpace::YCbCr,
+            out_colorspace: options.get_out_colorspace(),
             // This should be kept at par with MAX_COMPONENTS, or until the RFC at
             // https://github.com/rust-lang/rfcs/pull/2920 is accepted
             // Store MCU blocks
@@ -242,6 +246,9 @@ impl Decoder
         R: Read + BufRead,
     {
         // First two bytes should be jpeg soi marker
+        // forget everything about images decoded before this one
+        *self = Decoder::default(self.options);
+
         let magic_bytes = read_u16_be(buf)?;
 
         let mut last_byte = 0;
@@ -415,7 +422,7 @@ impl Decoder
     #[must_use]
     pub fn get_output_colorspace(&self) -> ColorSpace
     {
-        return self.options.get_out_colorspace();
+        return self.out_colorspace;
     }
 
     fn decode_internal(&mut self, buf: Cursor<Vec<u8>>) -> Result<Vec<u8>, DecodeErrors>
@@ -537,6 +544,7 @@ impl Decoder
     {
         // told you so
         self.options = self.options.set_out_colorspace(ColorSpace::RGBA);
+        self.out_colorspace = ColorSpace::RGBA;
     }
 
     #[deprecated(
@@ -554,6 +562,7 @@ impl Decoder
     pub fn set_output_colorspace(&mut self, colorspace: ColorSpace)
     {
         self.options = self.options.set_out_colorspace(colorspace);
+        self.out_colorspace = colorspace;
     }
     #[must_use]
     /// Get the width of the image as a u16
diff --git a/src/headers.rs b/src/headers.rs
index 5dd458e..5e46fd7 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -289,7 +289,7 @@ where
         // and that to us translates to setting input and output
         // colorspaces to zero
         img.input_colorspace = ColorSpace::GRAYSCALE;
-        img.options = img.options.set_out_colorspace(ColorSpace::GRAYSCALE);
+        img.out_colorspace = ColorSpace::GRAYSCALE;
     }
 
     // set number of components
diff --git a/src/mcu.rs b/src/mcu.rs
index f48f92c..7336f2b 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -185,7 +185,7 @@ impl Decoder
 
             mcu_width = (usize::from(self.info.width) + 7) / 8;
             self.h_max = 1;
-            self.options = self.options.set_out_colorspace(ColorSpace::GRAYSCALE);
+            self.out_colorspace = ColorSpace::GRAYSCALE;
             self.v_max = 1;
             self.sub_sample_ratio = SubSampRatios::None;
             self.components[0].vertical_sample = 1;
@@ -204,10 +204,10 @@ impl Decoder
         // because the chunking calculation will do it wrongly,
         // this only applies to  small down-sampled images
         // See https://github.com/etemesi254/zune-jpeg/issues/11
-        let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.options.get_out_colorspace().num_components();
+        let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.out_colorspace.num_components();
         // things needed for post processing that we can remove out of the loop
         let input = self.input_colorspace;
-        let output = self.options.get_out_colorspace();
+        let output = self.out_colorspace;
         let idct_func = self.idct_func;
         let color_convert_16 = self.color_convert_16;
         let width = usize::from(self.width());
@@ -219,7 +219,7 @@ impl Decoder
 
         let mut stream = BitStream::new();
         // Storage for decoded pixels
-        let mut global_channel = vec![0; (capacity * self.options.get_out_colorspace().num_components()) + extra_space];
+        let mut global_channel = vec![0; (capacity * self.out_colorspace.num_components()) + extra_space];
 
         // Split output into different blocks each containing enough space for an MCU width
         let mut chunks =
@@ -241,7 +241,7 @@ impl Decoder
                 {
                     // multiply capacity with sampling factor, it  should be 1*1 for un-sampled images
                     // Allocate only needed components.
-                    if min(self.options.get_out_colorspace().num_components() - 1, pos) == pos
+                    if min(self.out_colorspace.num_components() - 1, pos) == pos
                     {
                         let len = component_capacity * comp.vertical_sample * comp.horizontal_sample * bias;
 
@@ -284,7 +284,7 @@ impl Decoder
                                 for h_samp in 0..component.horizontal_sample
                                 {
                                     // only decode needed components
-                                    if min(self.options.get_out_colorspace().num_components() - 1, pos) == pos
+                                    if min(self.out_colorspace.num_components() - 1, pos) == pos
                                     {
                                         // The spec  https://www.w3.org/Graphics/JPEG/itu-t81.pdf page 26
 
@@ -374,7 +374,7 @@ impl Decoder
         global_channel.truncate(
             usize::from(self.width())
                 * usize::from(self.height())
-                * self.options.get_out_colorspace().num_components(),
+                * self.out_colorspace.num_components(),
         );
         return Ok(global_channel);
     }
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index a9c8420..6b3b16c 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -174,22 +174,22 @@ impl Decoder
         let y = &block[0];
         let cb = &block[1];
         let cr = &block[2];
-        let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.options.get_out_colorspace().num_components();
+        let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.out_colorspace.num_components();
         let capacity = (usize::from(self.info.width) + 8) * (usize::from(self.info.height) + 8);
 
-        let mut out_vector = vec![0_u8; capacity * self.options.get_out_colorspace().num_components() + extra_space];
+        let mut out_vector = vec![0_u8; capacity * self.out_colorspace.num_components() + extra_space];
 
         // Things we need for multithreading.
         let h_max = self.h_max;
         let v_max = self.v_max;
         let components = Arc::new(self.components.clone());
         let input = self.input_colorspace;
-        let output = self.options.get_out_colorspace();
+        let output = self.out_colorspace;
         let idct_func = self.idct_func;
         let color_convert_16 = self.color_convert_16;
         let width = usize::from(self.width());
         // Divide the output into small blocks and send to threads/
-        let chunks_size = width * self.options.get_out_colorspace().num_components() * 8 * h_max * v_max;
+        let chunks_size = width * self.out_colorspace.num_components() * 8 * h_max * v_max;
         let out_chunks = out_vector.chunks_exact_mut(chunks_size);
         // Chunk sizes. Each determine how many pixels go per thread.
         let y_chunk_size =
@@ -241,7 +241,7 @@ impl Decoder
         out_vector.truncate(
             usize::from(self.width())
                 * usize::from(self.height())
-                * self.options.get_out_colorspace().num_components(),
+                * self.out_colorspace.num_components(),
         );
 
         return Ok(out_vector);
-- 
2.43.0


From 9d8b8e76063d55c521354d1d38b3b6953e83840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:08 +0000
Subject: [PATCH 11/22] fix: convert to the colorspace that was asked for

The RGB converter was used for RGBA and RGBX output too.
---
 src/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index c1484fc..51a450d 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -129,7 +129,11 @@ impl Decoder
     fn default(options: ZuneJpegOptions) -> Self
     {
         let color_convert =
-            choose_ycbcr_to_rgb_convert_func(ColorSpace::RGB, options.get_use_unsafe()).unwrap();
+            choose_ycbcr_to_rgb_convert_func(options.get_out_colorspace(), options.get_use_unsafe())
+                .or_else(|| {
+                    choose_ycbcr_to_rgb_convert_func(ColorSpace::RGB, options.get_use_unsafe())
+                })
+                .unwrap();
         Decoder {
             info: ImageInfo::default(),
             qt_tables: [None, None, None, None],
-- 
2.43.0


From f2f0bc5f7c17e2a5a7453860860c1e976ccd5303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:59 +0000
Subject: [PATCH 12/22] fix: do not overflow the count of bytes between headers

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 51a450d..29d6b74 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -302,7 +302,7 @@ impl Decoder
                 }
             }
             last_byte = m;
-            bytes_before_marker += 1;
+            bytes_before_marker = i32::saturating_add(bytes_before_marker, 1);
 
             if self.options.get_strict_mode() && bytes_before_marker > 3
             /*No reason to use this*/
-- 
2.43.0


From b4ee6df14bab412aba6de31313ed848ca19fffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:01 +0000
Subject: [PATCH 13/22] fix: reject a second start of frame

---
 src/headers.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/headers.rs b/src/headers.rs
index 5e46fd7..e29c8cd 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -203,6 +203,14 @@ pub(crate) fn parse_start_of_frame<R>(
 where
     R: Read,
 {
+    // an image has exactly one frame, everything computed so far belongs to it
+    if !img.components.is_empty()
+    {
+        return Err(DecodeErrors::SofError(
+            "Found a second start of frame".to_string(),
+        ));
+    }
+
     // Get length of the frame header
     let length = read_u16_be(buf)
         .map_err(|_| DecodeErrors::Format("Cannot read SOF length, exhausted data".to_string()))?;
-- 
2.43.0


From 295dee7119af4f6a4a5b7c3087e9317f100ab5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:21 +0000
Subject: [PATCH 14/22] fix: find the marker behind the first scan when its
 bits were read before it

---
 src/mcu_prog.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 6b3b16c..faa7a7f 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -89,7 +89,7 @@ impl Decoder
         self.parse_entropy_coded_data(reader, &mut stream, &mut block)?;
 
         // extract marker
-        let mut marker = stream.marker.take().ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
+        let mut marker = get_marker(reader, &mut stream).ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
         // if marker is EOI, we are done, otherwise continue scanning.
         'eoi: while marker != Marker::EOI
         {
-- 
2.43.0


From 873e26f44bf9716fc7a57bd3b2b4425d89c3d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:21 +0000
Subject: [PATCH 15/22] fix: find the restart marker when the bits of its
 interval were read before it

---
 src/bitstream.rs |  2 +-
 src/mcu.rs       | 12 ++++++++++--
 src/mcu_prog.rs  |  4 ++--
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index d0f700f..3e55802 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -156,7 +156,7 @@ impl BitStream
     ///
     /// This function will only refill if `self.count` is less than 32
     #[inline(never)] // to many call sites?
-    fn refill(&mut self, reader: &mut Cursor<Vec<u8>>) -> Result<bool, DecodeErrors>
+    pub(crate) fn refill(&mut self, reader: &mut Cursor<Vec<u8>>) -> Result<bool, DecodeErrors>
     {
         /// Macro version of a single byte refill.
         /// Arguments
diff --git a/src/mcu.rs b/src/mcu.rs
index 7336f2b..0cb26c4 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -344,7 +344,7 @@ impl Decoder
                         // after every interleaved MCU that's a mcu, count down restart markers.
                         if self.todo == 0
                         {
-                            self.handle_rst(&mut stream)?;
+                            self.handle_rst(reader, &mut stream)?;
                         }
                     }
                 }
@@ -382,10 +382,18 @@ impl Decoder
     // No-op if not using restarts
     // this routine is shared with mcu_prog
     #[cold]
-    pub(crate) fn handle_rst(&mut self, stream: &mut BitStream) -> Result<(), DecodeErrors>
+    pub(crate) fn handle_rst(
+        &mut self, reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream,
+    ) -> Result<(), DecodeErrors>
     {
         self.todo = self.restart_interval;
 
+        if stream.marker.is_none()
+        {
+            // the last bits of the interval may have been read without looking past them
+            stream.refill(reader)?;
+        }
+
         if let Some(marker) = stream.marker
         {
             // Found a marker
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index faa7a7f..e9b42ca 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -367,7 +367,7 @@ impl Decoder
 
                     if self.todo == 0
                     {
-                        self.handle_rst(stream)?;
+                        self.handle_rst(reader, stream)?;
                     }
                 }
                 j = 0;
@@ -427,7 +427,7 @@ impl Decoder
                     self.todo = self.todo.wrapping_sub(1);
                     // after every scan that's a mcu, count down restart markers.
                     if self.todo == 0 {
-                        self.handle_rst(stream)?;
+                        self.handle_rst(reader, stream)?;
                     }
                 }
             }
-- 
2.43.0


From 79ddc71ffe10f4108826c25fbaf73d5f43182072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 16/22] fix: look for a restart marker before the next
 interval, not behind the last

---
 src/mcu_prog.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index e9b42ca..20a7b62 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -306,6 +306,11 @@ impl Decoder
                     if i >= mcu_height {
                         break;
                     }
+                    // a restart marker stands between two intervals, not behind the last one
+                    if self.restart_interval != 0 && self.todo == 0
+                    {
+                        self.handle_rst(reader, stream)?;
+                    }
 
                     let data: &mut [i16; 64] = buffer.get_mut(k)
                         .unwrap().get_mut(start..start + 64)
@@ -363,12 +368,7 @@ impl Decoder
                         }
                     }
                     j += 1;
-                    self.todo = self.todo.wrapping_sub(1);
-
-                    if self.todo == 0
-                    {
-                        self.handle_rst(reader, stream)?;
-                    }
+                    self.todo = self.todo.saturating_sub(1);
                 }
                 j = 0;
                 i += 1;
@@ -388,6 +388,11 @@ impl Decoder
             {
                 for j in 0..self.mcu_x
                 {
+                    // a restart marker stands between two intervals, not behind the last one
+                    if self.restart_interval != 0 && self.todo == 0
+                    {
+                        self.handle_rst(reader, stream)?;
+                    }
                     // process scan n elements in order
                     for k in 0..self.num_scans
                     {
@@ -422,13 +427,8 @@ impl Decoder
                             }
                         }
                     }
-                    // We want wrapping subtraction here because it means
-                    // we get a higher number in the case this underflows
-                    self.todo = self.todo.wrapping_sub(1);
                     // after every scan that's a mcu, count down restart markers.
-                    if self.todo == 0 {
-                        self.handle_rst(reader, stream)?;
-                    }
+                    self.todo = self.todo.saturating_sub(1);
                 }
             }
         }
-- 
2.43.0


From 581da8655fa2488789de636274a6f07cceeb5f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 17/22] fix: count the blocks of an end-of-band run towards the
 restart interval

---
 src/mcu_prog.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 20a7b62..d454121 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -358,6 +358,8 @@ impl Decoder
 
                                 i += (j + stream.eob_run as usize - 1) / mcu_width;
                                 j = (j + stream.eob_run as usize - 1) % mcu_width;
+                                // the skipped MCU's belong to the restart interval too
+                                self.todo = self.todo.saturating_sub(stream.eob_run as usize - 1);
                                 stream.eob_run = 0;
                             } else {
                                 stream.decode_mcu_ac_first(reader, ac_table, data)?;
-- 
2.43.0


From a615a3bd505b28c1f9d1f36d661e5b0d04dc99e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:28 +0000
Subject: [PATCH 18/22] fix: put the last pixels of a row at their own place

---
 src/worker.rs | 65 ++++++++++++++++++++-------------------------------
 1 file changed, 25 insertions(+), 40 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 4232a2c..af7d578 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -152,15 +152,9 @@ fn color_convert_ycbcr(
 
     let mut start = 0;
     let mut end = stride;
-    // over allocate to account for fill bytes
-    let mut temp = vec![];
+    // temporary buffer for pixels at the end of a row which are less than 16.
+    let mut temp = vec![0; 16 * output_colorspace.num_components()];
 
-    if width < 16
-    {
-        // Allocate temporary buffer for small widths less than
-        // 16.
-        temp = vec![0; 16 * output_colorspace.num_components()];
-    }
     // We need to chunk per width to ensure we can discard extra values at the end of the width.
     // Since the encoder may pad bits to ensure the width is a multiple of 8.
     for ((y_width, cb_width), cr_width) in mcu_block[0]
@@ -168,7 +162,8 @@ fn color_convert_ycbcr(
         .zip(mcu_block[1].chunks_exact(width_chunk))
         .zip(mcu_block[2].chunks_exact(width_chunk))
     {
-        let elements = (y_width.len() / 16).saturating_sub(1);
+        // runs of 16 pixels that lie inside the image
+        let elements = width / 16;
 
         let mut position = 0;
         let out = &mut output[start..end];
@@ -213,37 +208,27 @@ fn color_convert_ycbcr(
             );
         }
 
-        // we have more pixels in the end that can't be handled by the main loop.
-        // move pointer back a little bit to get last 16 bytes,
-        // color convert, and overwrite
-        // This means some values will be color converted twice.
-
-        let diff = 64_usize.saturating_sub(stride.saturating_sub(position));
-
-        position = position.saturating_sub(diff);
-
-        (color_convert_16)(
-            y_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            cb_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            cr_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            out,
-            &mut position,
-        );
+        if position < stride
+        {
+            // There are up to 15 pixels at the end that can't be handled by the main loop.
+            // Color convert the 16 samples of the row which end it (or its fill bytes) and copy
+            // those that were not written yet.
+            // This means some values will be color converted twice.
+            let from = min(elements * 16, y_width.len() - 16);
+
+            (color_convert_16)(
+                y_width[from..from + 16].try_into().unwrap(),
+                cb_width[from..from + 16].try_into().unwrap(),
+                cr_width[from..from + 16].try_into().unwrap(),
+                &mut temp,
+                &mut 0,
+            );
+
+            let skip = (elements * 16 - from) * output_colorspace.num_components();
+            let left = stride - position;
+
+            out[position..].copy_from_slice(&temp[skip..skip + left]);
+        }
 
         start += stride;
         end += stride;
-- 
2.43.0


From 01692382e72126db8d85e56a3055777000be2086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 19/22] fix: decode the blocks of an MCU behind the one that
 saw the end of the image

---
 src/mcu.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 0cb26c4..4c62ccb 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -329,12 +329,9 @@ impl Decoder
                             // allow it because of some weird reason.
                             if let Some(m) = stream.marker
                             {
-                                if m == Marker::EOI
-                                {
-                                    break;
-                                }
-
-                                if let Marker::RST(_) = m { continue }
+                                // the marker was found while looking ahead, there may be more
+                                // blocks of this MCU in front of it
+                                if let Marker::EOI | Marker::RST(_) = m { continue }
 
                                 error!("Marker `{:?}` Found within Huffman Stream, possibly corrupt jpeg",m);
                                 self.parse_marker_inner(m, reader)?;
-- 
2.43.0


From 4c07be03198d01f8667406617fc9db20b798fd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:43 +0000
Subject: [PATCH 20/22] fix: keep values that do not fit into an entry out of
 the fast AC table

---
 src/huffman.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/huffman.rs b/src/huffman.rs
index 39c2116..3b008a3 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -246,7 +246,8 @@ impl HuffmanTable
                         };
 
                         // if result is small enough fit into fast ac table
-                        if (-128..=127).contains(&k)
+                        // (the value is kept in the top 6 bits of an entry)
+                        if (-32..=31).contains(&k)
                         {
                             fast_ac[i] = (k << 10) + (run << 4) + (len + mag_bits);
                         }
-- 
2.43.0


From cd37d7276bfce1db1d184637581068ab9445059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:01 +0000
Subject: [PATCH 21/22] fix: decode end-of-band runs with Huffman tables that
 precede a progressive frame header

---
 src/bitstream.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index 3e55802..87d822a 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -459,7 +459,9 @@ impl BitStream
             fac = fast_ac[symbol as usize];
             symbol = ac_table.lookup[symbol as usize];
 
-            if fac != 0
+            // entries without a value stand for an end of block in tables that were read before the
+            // frame header, here it may be the beginning of an end of band run
+            if fac >> 10 != 0
             {
                 // fast ac path
                 k += ((fac >> 4) & 63) as usize; // run
-- 
2.43.0


From 917551ec44853a94c6457d3cd40b9964831f40d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:42 +0000
Subject: [PATCH 22/22] fix: ask for the 48 bytes the SSE conversion to RGB
 writes

---
 src/color_convert/sse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color_convert/sse.rs b/src/color_convert/sse.rs
index 0c28369..b06c9d4 100644
--- a/src/color_convert/sse.rs
+++ b/src/color_convert/sse.rs
@@ -271,7 +271,7 @@ pub fn ycbcr_to_rgb_sse_16(
 )
 {
     // check if out has enough space
-    out.get_mut(*offset..*offset + 64)
+    out.get_mut(*offset..*offset + 48)
         .expect("Slice to small cannot write");
     unsafe {
         ycbcr_to_rgb_16(y, cb, cr, out, offset);
-- 
2.43.0

