From 56f9f88e7f872637513284db8aa993516d6f3858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:10 +0000
Subject: [PATCH 01/32] fix: take the padded row width of grayscale output from
 the MCU row, not from the image width

The row stride was computed as len/(len/width), which is not the padded
width for narrow images: pixels shifted from row to row, and images
narrower than 8 pixels panicked.
---
 src/color_convert/scalar.rs | 9 +++++----
 src/worker.rs               | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/color_convert/scalar.rs b/src/color_convert/scalar.rs
index a5de15e..d82b0c1 100644
--- a/src/color_convert/scalar.rs
+++ b/src/color_convert/scalar.rs
@@ -88,15 +88,16 @@ pub fn ycbcr_to_rgb_16_scalar(
     *pos += 48;
 }
 
-pub fn ycbcr_to_grayscale(y: &[i16], width: usize, output: &mut [u8])
+pub fn ycbcr_to_grayscale(
+    y: &[i16], width: usize, h_samp: usize, v_samp: usize, output: &mut [u8],
+)
 {
     // Convert i16's to u8's
     let temp_output = y.iter().map(|x| *x as u8).collect::<Vec<u8>>();
     // chunk according to width.
 
-    let width_mcu = y.len() / width;
-
-    let width_chunk = y.len() / width_mcu;
+    // width which accounts for fill bytes, each MCU row is 8 * h_samp * v_samp pixels high.
+    let width_chunk = y.len() / (h_samp * v_samp * 8);
 
     let mut start = 0;
 
diff --git a/src/worker.rs b/src/worker.rs
index 4232a2c..5cffa0a 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -114,7 +114,7 @@ pub(crate) fn post_process_inner(
     {
         (ColorSpace::YCbCr | ColorSpace::GRAYSCALE, ColorSpace::GRAYSCALE) =>
         {
-            ycbcr_to_grayscale(&unprocessed[0], width, output);
+            ycbcr_to_grayscale(&unprocessed[0], width, h_samp, v_samp, output);
         }
 
         (ColorSpace::YCbCr, ColorSpace::YCbCr) =>
-- 
2.43.0


From 7048205f52561db948c79b9a8464571571f35bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:03 +0000
Subject: [PATCH 02/32] fix: store only AC values that fit in six bits in the
 fast AC table

The table keeps the value in the top six bits of an i16, so values outside
-32..=31 were silently truncated when a short code was followed by a large
magnitude.
---
 src/huffman.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/huffman.rs b/src/huffman.rs
index 39c2116..3ca06f6 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -246,7 +246,8 @@ impl HuffmanTable
                         };
 
                         // if result is small enough fit into fast ac table
-                        if (-128..=127).contains(&k)
+                        // (the value is stored in the top 6 bits of an i16)
+                        if (-32..=31).contains(&k)
                         {
                             fast_ac[i] = (k << 10) + (run << 4) + (len + mag_bits);
                         }
-- 
2.43.0


From 9c8ac681decb224487bc15594c05f4167682ff64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:46 +0000
Subject: [PATCH 03/32] fix: refill before every DC coefficient

A DC code and its magnitude can need up to 31 bits but the stream was only
refilled when fewer than 16 were left, so the magnitude was read past the
end of the bit buffer.
---
 src/bitstream.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index f6a76df..bd8f394 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -275,10 +275,9 @@ impl BitStream
     {
         let (mut symbol, r);
 
-        if self.bits_left < 16
-        {
-            self.refill(reader)?;
-        };
+        // a code (16 bits) and its magnitude (up to 15 bits) may follow, refill does nothing if
+        // enough bits are left.
+        self.refill(reader)?;
         // look a head HUFF_LOOKAHEAD bits into the bitstream
         symbol = self.peek_bits::<HUFF_LOOKAHEAD>();
         symbol = dc_table.lookup[symbol as usize];
-- 
2.43.0


From 6716f57b4be7155363950ef267ac0b68b2c56406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:26 +0000
Subject: [PATCH 04/32] fix: decode the blocks that follow once look-ahead has
 seen a marker

Reaching EOI by look-ahead ended the component loop of every later MCU, so
the chroma blocks of the last MCUs were dropped. Any other marker was kept
and parsed again after each following block.
---
 src/mcu.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 296ad96..dfaf97d 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -336,12 +336,12 @@ impl Decoder
                             // allow it because of some weird reason.
                             if let Some(m) = stream.marker
                             {
-                                if m == Marker::EOI
-                                {
-                                    break;
-                                }
+                                // The end of the image is seen by look-ahead before the
+                                // last blocks are decoded, their bits are still in the stream.
+                                if let Marker::EOI | Marker::RST(_) = m { continue }
 
-                                if let Marker::RST(_) = m { continue }
+                                // don't see it again.
+                                stream.marker = None;
 
                                 error!("Marker `{:?}` Found within Huffman Stream, possibly corrupt jpeg",m);
                                 self.parse_marker_inner(m, reader)?;
-- 
2.43.0


From 8655a87e3177cb5b4510728ef57eb80b4e8cfc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:50 +0000
Subject: [PATCH 05/32] fix: choose the color conversion function from the
 requested output colorspace

---
 src/decoder.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 39b8d85..421a87c 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -422,6 +422,7 @@ impl Decoder
         let mut buf = buf;
 
         self.decode_headers_internal(&mut buf)?;
+        self.set_color_convert()?;
 
         if self.is_progressive
         {
@@ -464,6 +465,29 @@ impl Decoder
         Decoder::default(options)
     }
 
+    /// Choose the color conversion function for the output colorspace the image will be decoded to.
+    fn set_color_convert(&mut self) -> Result<(), DecodeErrors>
+    {
+        match self.options.get_out_colorspace()
+        {
+            // no function needed, components are copied.
+            ColorSpace::GRAYSCALE | ColorSpace::YCbCr =>
+            {}
+            colorspace =>
+            {
+                self.color_convert_16 =
+                    choose_ycbcr_to_rgb_convert_func(colorspace, self.options.get_use_unsafe())
+                        .ok_or_else(|| {
+                            DecodeErrors::Format(format!(
+                                "Cannot convert an image to colorspace {:?}",
+                                colorspace
+                            ))
+                        })?;
+            }
+        }
+        Ok(())
+    }
+
     /// Set up-sampling routines in case an image is down sampled
     pub(crate) fn set_upsampling(&mut self) -> Result<(), DecodeErrors>
     {
-- 
2.43.0


From 201a664ec77096f73f520c2ff5cd58474433940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:41 +0000
Subject: [PATCH 06/32] fix: convert the pixels at the right edge of a row from
 their own samples

---
 src/color_convert/sse.rs |  2 +-
 src/worker.rs            | 92 ++++++++++++----------------------------
 2 files changed, 27 insertions(+), 67 deletions(-)

diff --git a/src/color_convert/sse.rs b/src/color_convert/sse.rs
index 0c28369..b06c9d4 100644
--- a/src/color_convert/sse.rs
+++ b/src/color_convert/sse.rs
@@ -271,7 +271,7 @@ pub fn ycbcr_to_rgb_sse_16(
 )
 {
     // check if out has enough space
-    out.get_mut(*offset..*offset + 64)
+    out.get_mut(*offset..*offset + 48)
         .expect("Slice to small cannot write");
     unsafe {
         ycbcr_to_rgb_16(y, cb, cr, out, offset);
diff --git a/src/worker.rs b/src/worker.rs
index 5cffa0a..12a36e4 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -152,15 +152,12 @@ fn color_convert_ycbcr(
 
     let mut start = 0;
     let mut end = stride;
-    // over allocate to account for fill bytes
-    let mut temp = vec![];
+    let num_components = output_colorspace.num_components();
+    // pixels at the end of a row which do not fill a chunk of 16.
+    let remainder = width % 16;
+    // Those are converted here since the conversion functions always write 16 pixels.
+    let mut temp = [0; 16 * 4];
 
-    if width < 16
-    {
-        // Allocate temporary buffer for small widths less than
-        // 16.
-        temp = vec![0; 16 * output_colorspace.num_components()];
-    }
     // We need to chunk per width to ensure we can discard extra values at the end of the width.
     // Since the encoder may pad bits to ensure the width is a multiple of 8.
     for ((y_width, cb_width), cr_width) in mcu_block[0]
@@ -168,41 +165,15 @@ fn color_convert_ycbcr(
         .zip(mcu_block[1].chunks_exact(width_chunk))
         .zip(mcu_block[2].chunks_exact(width_chunk))
     {
-        let elements = (y_width.len() / 16).saturating_sub(1);
-
         let mut position = 0;
         let out = &mut output[start..end];
 
-        if width < 16
-        {
-            // allocate temporary buffers for the values received from idct
-            let mut y_out = [0; 16];
-            let mut cb_out = [0; 16];
-            let mut cr_out = [0; 16];
-            // copy those small widths to that buffer
-            y_out[0..y_width.len()].copy_from_slice(y_width);
-            cb_out[0..cb_width.len()].copy_from_slice(cb_width);
-            cr_out[0..cr_width.len()].copy_from_slice(cr_width);
-            // we handle widths less than 16 a bit differently, allocating a temporary
-            // buffer and writing to that and then flushing to the out buffer
-            // because of the optimizations applied below,
-            (color_convert_16)(&y_out, &cb_out, &cr_out, &mut temp, &mut 0);
-            // copy to stride
-            out[position..position + width * output_colorspace.num_components()]
-                .copy_from_slice(&temp[0..width * output_colorspace.num_components()]);
-            // increment position
-            start += stride;
-            end += stride;
-            // next
-            continue;
-        }
-
         // Chunk in outputs of 16 to pass to color_convert as an array of 16 i16's.
         for ((y, cb), cr) in y_width
             .chunks_exact(16)
             .zip(cb_width.chunks_exact(16))
             .zip(cr_width.chunks_exact(16))
-            .take(elements)
+            .take(width / 16)
         {
             (color_convert_16)(
                 y.try_into().unwrap(),
@@ -213,37 +184,26 @@ fn color_convert_ycbcr(
             );
         }
 
-        // we have more pixels in the end that can't be handled by the main loop.
-        // move pointer back a little bit to get last 16 bytes,
-        // color convert, and overwrite
-        // This means some values will be color converted twice.
-
-        let diff = 64_usize.saturating_sub(stride.saturating_sub(position));
-
-        position = position.saturating_sub(diff);
-
-        (color_convert_16)(
-            y_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            cb_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            cr_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            out,
-            &mut position,
-        );
+        // we have more pixels in the end that can't be handled by the main loop,
+        // convert those to a temporary buffer and copy the ones inside the image.
+        if remainder != 0
+        {
+            let first = width - remainder;
+            let last = min(first + 16, width_chunk);
+            let len = last - first;
+
+            let mut y_out = [0; 16];
+            let mut cb_out = [0; 16];
+            let mut cr_out = [0; 16];
+
+            y_out[0..len].copy_from_slice(&y_width[first..last]);
+            cb_out[0..len].copy_from_slice(&cb_width[first..last]);
+            cr_out[0..len].copy_from_slice(&cr_width[first..last]);
+
+            (color_convert_16)(&y_out, &cb_out, &cr_out, &mut temp, &mut 0);
+
+            out[position..].copy_from_slice(&temp[0..remainder * num_components]);
+        }
 
         start += stride;
         end += stride;
-- 
2.43.0


From fecd78cfcf554ee66b05fe473d3273857e7b4b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:48 +0000
Subject: [PATCH 07/32] fix: decode the last MCU row of horizontally
 sub-sampled images with an odd number of MCU rows

---
 src/mcu.rs      | 15 +++++++++++++--
 src/mcu_prog.rs |  8 +++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index dfaf97d..8badc3d 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -151,11 +151,11 @@ impl Decoder
                 // Values for horizontal samples end halfway the image and do not complete an MCU width.
                 // To make it complete we multiply width by 2 and divide mcu_height by 2
                 mcu_width = self.mcu_x * 2;
-                mcu_height = self.mcu_y / 2;
+                mcu_height = (self.mcu_y + 1) / 2;
             } else if self.sub_sample_ratio == SubSampRatios::HV
             {
                 mcu_width = self.mcu_x;
-                mcu_height = self.mcu_y / 2;
+                mcu_height = (self.mcu_y + 1) / 2;
                 bias = 2;
             } else {
                 mcu_width = self.mcu_x;
@@ -194,6 +194,14 @@ impl Decoder
             mcu_height = ((self.info.height + 7) / 8) as usize;
             bias = 1;
         }
+        // MCU's still to be decoded, when two MCU rows are post processed together the last one
+        // may be missing.
+        let mut mcus_left = if self.sub_sample_ratio == SubSampRatios::None
+        {
+            mcu_width * mcu_height
+        } else {
+            self.mcu_x * self.mcu_y
+        };
         // Size of our output image(width*height)
         let capacity = usize::from(self.info.width + 8) * usize::from(self.info.height + 8);
         let component_capacity = mcu_width * DCT_BLOCK;
@@ -254,6 +262,9 @@ impl Decoder
                 {
                     for j in 0..mcu_width
                     {
+                        if mcus_left == 0 { break; }
+
+                        mcus_left -= 1;
                         // iterate over components
 
                         for pos in 0..self.input_colorspace.num_components()
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 4467d7d..73414d4 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -51,7 +51,7 @@ impl Decoder
     ) -> Result<Vec<u8>, DecodeErrors>
     {
         self.check_component_dimensions()?;
-        let mcu_height;
+        let mut mcu_height;
 
         // memory location for decoded pixels for components
         let mut block = [vec![], vec![], vec![]];
@@ -63,6 +63,12 @@ impl Decoder
         {
             mcu_width = self.mcu_x;
             mcu_height = self.mcu_y;
+
+            if self.h_max != 1
+            {
+                // two MCU rows are post processed together.
+                mcu_height += mcu_height & 1;
+            }
         } else {
             mcu_width = (self.info.width as usize + 7) / 8;
             mcu_height = (self.info.height as usize + 7) / 8;
-- 
2.43.0


From 11c5264fbac7cccbb05ce413b3b215b64d76745e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:45 +0000
Subject: [PATCH 08/32] fix: size the output buffer for the MCU rows that are
 decoded into it

---
 src/mcu.rs      | 22 ++++++++--------------
 src/mcu_prog.rs | 13 +++++--------
 2 files changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 8badc3d..9ff8f86 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -164,8 +164,8 @@ impl Decoder
         } else {
             // For non-interleaved images( (1*1) subsampling)
             // number of MCU's are the widths (+7 to account for paddings) divided bu 8.
-            mcu_width = ((self.info.width + 7) / 8) as usize;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_width = (usize::from(self.info.width) + 7) / 8;
+            mcu_height = (usize::from(self.info.height) + 7) / 8;
         }
 
         if self.input_colorspace == ColorSpace::GRAYSCALE && self.interleaved {
@@ -183,7 +183,7 @@ impl Decoder
 
             warn!("Grayscale image with down-sampled component, resetting component details");
 
-            mcu_width = ((self.info.width + 7) / 8) as usize;
+            mcu_width = (usize::from(self.info.width) + 7) / 8;
             self.h_max = 1;
             self.options = self.options.set_out_colorspace(ColorSpace::GRAYSCALE);
             self.v_max = 1;
@@ -191,7 +191,7 @@ impl Decoder
             self.components[0].vertical_sample = 1;
             self.components[0].width_stride = mcu_width * 8;
             self.components[0].horizontal_sample = 1;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_height = (usize::from(self.info.height) + 7) / 8;
             bias = 1;
         }
         // MCU's still to be decoded, when two MCU rows are post processed together the last one
@@ -202,17 +202,10 @@ impl Decoder
         } else {
             self.mcu_x * self.mcu_y
         };
-        // Size of our output image(width*height)
-        let capacity = usize::from(self.info.width + 8) * usize::from(self.info.height + 8);
         let component_capacity = mcu_width * DCT_BLOCK;
         // Create an Arc of components to prevent cloning on every MCU width
         let global_component = Arc::new(self.components.clone());
         let is_hv = self.sub_sample_ratio == SubSampRatios::HV;
-        // There are some images where we need to overallocate  especially for small buffers,
-        // because the chunking calculation will do it wrongly,
-        // this only applies to  small down-sampled images
-        // See https://github.com/etemesi254/zune-jpeg/issues/11
-        let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.options.get_out_colorspace().num_components();
         // things needed for post processing that we can remove out of the loop
         let input = self.input_colorspace;
         let output = self.options.get_out_colorspace();
@@ -226,12 +219,13 @@ impl Decoder
         let hv_width_stride = width_stride >> 1;
 
         let mut stream = BitStream::new();
+        // Space needed for the pixels of an MCU width
+        let chunk_size = width * output.num_components() * 8 * h_max * v_max;
         // Storage for decoded pixels
-        let mut global_channel = vec![0; (capacity * self.options.get_out_colorspace().num_components()) + extra_space];
+        let mut global_channel = vec![0; chunk_size * mcu_height];
 
         // Split output into different blocks each containing enough space for an MCU width
-        let mut chunks =
-            global_channel.chunks_exact_mut(width * output.num_components() * 8 * h_max * v_max);
+        let mut chunks = global_channel.chunks_exact_mut(chunk_size);
         let mut tmp = [0; DCT_BLOCK];
 
         // Argument for scoped threadpools, see file docs.
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 73414d4..552670d 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -176,11 +176,6 @@ impl Decoder
         let y = &block[0];
         let cb = &block[1];
         let cr = &block[2];
-        let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.options.get_out_colorspace().num_components();
-        let capacity = usize::from(self.info.width + 8) * usize::from(self.info.height + 8);
-
-        let mut out_vector = vec![0_u8; capacity * self.options.get_out_colorspace().num_components() + extra_space];
-
         // Things we need for multithreading.
         let h_max = self.h_max;
         let v_max = self.v_max;
@@ -192,13 +187,15 @@ impl Decoder
         let width = usize::from(self.width());
         // Divide the output into small blocks and send to threads/
         let chunks_size = width * self.options.get_out_colorspace().num_components() * 8 * h_max * v_max;
-        let out_chunks = out_vector.chunks_exact_mut(chunks_size);
         // Chunk sizes. Each determine how many pixels go per thread.
         let y_chunk_size =
             mcu_width * self.components[0].vertical_sample * self.components[0].horizontal_sample * bias;
         // Divide into chunks
         let y_chunk = y.chunks_exact(y_chunk_size);
 
+        let mut out_vector = vec![0_u8; chunks_size * y_chunk.len()];
+        let out_chunks = out_vector.chunks_exact_mut(chunks_size);
+
         let mut pool = scoped_threadpool::Pool::new(self.options.get_threads());
 
         if self.input_colorspace.num_components() == 3 {
@@ -286,8 +283,8 @@ impl Decoder
             // by 8
             if self.components[k].component_id == ComponentID::Y || !self.interleaved
             {
-                mcu_width = ((self.info.width + 7) / 8) as usize;
-                mcu_height = ((self.info.height + 7) / 8) as usize;
+                mcu_width = (usize::from(self.info.width) + 7) / 8;
+                mcu_height = (usize::from(self.info.height) + 7) / 8;
             } else {
                 // For other channels, in an interleaved mcu, number of MCU's
                 // are determined by some weird maths done in headers.rs->parse_sos()
-- 
2.43.0


From 743edaf4ec89b96af60b737b5aecb9ac3f16e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:14 +0000
Subject: [PATCH 09/32] fix: interpolate chroma samples between their own
 neighbours

---
 src/upsampler/avx2.rs   | 346 ++--------------------------------------
 src/upsampler/scalar.rs | 104 ++++--------
 src/upsampler/sse.rs    |   8 +-
 src/worker.rs           |  11 +-
 4 files changed, 52 insertions(+), 417 deletions(-)

diff --git a/src/upsampler/avx2.rs b/src/upsampler/avx2.rs
index fcc2b4e..ca4d79b 100644
--- a/src/upsampler/avx2.rs
+++ b/src/upsampler/avx2.rs
@@ -1,348 +1,22 @@
 #![cfg(feature = "x86")]
 #![cfg(any(target_arch = "x86", target_arch = "x86_64"))]
-#[cfg(target_arch = "x86")]
-use std::arch::x86::*;
-#[cfg(target_arch = "x86_64")]
-use std::arch::x86_64::{
-    _mm256_add_epi16, _mm256_alignr_epi8, _mm256_blend_epi16, _mm256_insert_epi16,
-    _mm256_loadu_si256, _mm256_mullo_epi16, _mm256_permute2x128_si256, _mm256_set1_epi16,
-    _mm256_srai_epi16, _mm256_storeu_si256, _mm256_unpackhi_epi16, _mm256_unpacklo_epi16,
-};
 
-use crate::upsampler::scalar::upsample_hv;
+use crate::upsampler::scalar::upsample_vertical;
+use crate::upsampler::sse::upsample_horizontal_sse;
 
+/// Upsample eight rows vertically and then each of the sixteen rows horizontally
 pub fn upsample_hv_simd(input: &[i16], output_len: usize) -> Vec<i16>
 {
-    if input.len() < 500
-    {
-        //For small inputs, use scalar.
-        return upsample_hv(input, output_len);
-    }
-    unsafe { upsample_hv_avx(input, output_len) }
-}
-// herein lies 2 days work tread lightly
-
-#[rustfmt::skip]
-#[target_feature(enable = "avx")]
-#[target_feature(enable = "avx2")]
-#[inline]
-pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
-{
-    //to understand how it works, we have to see what vertical upsampling + horizontal upsampling do
-    // Hence the illustration
-    //    | A1 | A2 |
-    //    |====|====|
-    //    | p1 | p2 |
-    //    |----|----|
-    //    | p3 | p4 |
-    //    |====|====|
-    //    | B1 | B2 |
-    //
-    // -> Okay for two squeezed lines, A and B we generate 2 lines.
-    // We do the same for B & C and so on.
-    //
-    // After our vertical pass, we have p2 and p3 stretching halfway the image
-    //
-    // After that vertical pass, we want to do another pass.
-    // | p1 |q1|q2| p2 |
-    // |----|=====|----|
-    // | p3 |q3|q4| p4 |
-    //
-    // now q1 will stretch the whole image, hence it becomes a full upsampling
-
-    // So how do we actually implement.
-
-    let mut output = vec![0;output_len];
-
-    // okay for the next step lets play with AVX
-
-    // Difference in  pixels for a width
-    let mut stride = 0;
-    //
-    let mut modify_stride = true;
-
-    let mut pos = 0;
-    let mut output_position = 0;
-
-    let mut prev = (3 * input[0] + input[stride] + 2) >> 2;
-    let mut pixel_far = (3 * input[pos + 16] + input[pos + stride + 16] + 2) >> 2;
-
-    let three = _mm256_set1_epi16(3);
-    let two = _mm256_set1_epi16(2);
-
-    macro_rules! pack_shuffle {
-        ($x:tt,$y:tt,$value:tt) => {
-            let v = _mm256_permute2x128_si256::<$value>($x, $x);
-
-            let rwn_hi = _mm256_unpackhi_epi16(v, v);
-            let rwn_lo = _mm256_unpacklo_epi16(v, v);
-
-            $y = _mm256_permute2x128_si256::<0b0011_0000>(rwn_lo, rwn_hi);
-        };
-    }
-
-    macro_rules! upsample_horizontal {
-        ($row:tt,$stride:tt) => {
-            // AND THE implementation of srli is 2 128 bit shuffles.
-            // Mahn intel really??
-            // Therefore we need to emulate that instruction
-            // See this stack overflow post: https://stackoverflow.com/questions/25248766/emulating-shifts-on-32-bytes-with-avx
-
-            // shift the whole data in the register left by 16 to remove zero-th element
-            // array looks like B0,[B1,B2,B3,B4,B5,B6,B7,0]
-            // _mm256_srli_si256(A, N) (0<N<16)
-            let mut next_arr = _mm256_alignr_epi8::<2>(
-                _mm256_permute2x128_si256::<{ shuffle(2, 0, 0, 1) }>($row, $row),
-                $row,
-            );
-            // shift the whole data in the array down by(right) by 16, to remove n+1.
-            // Now our register looks like  [0,B1,B2,B3,B4,B5,B6],B7.
-            // _mm256_slli_si256(A, N) ( 0< N < 16).
-            let mut prev_arr = _mm256_alignr_epi8::<{ 16 - 2 }>($row,
-                                                                _mm256_permute2x128_si256::<{ shuffle(0, 0, 2, 0) }>($row, $row),
-            );
-
-
-            // insert values
-
-            // prev_array => [X0,B1,B2,B3,B4,B5,B6,B7]
-            prev_arr = _mm256_insert_epi16::<0>(prev_arr, prev);
-            // NEXT_ARR => [B0,B1,B2,B3,B4,B5,B6,X1]
-            next_arr = _mm256_insert_epi16::<15>(next_arr, pixel_far);
-
-            // Okay at this point we have: (the arrows just show how prev_arr & next_arr differ from row_near)
-            //              |                                                  |
-            //             \/                                                 \/
-            //-> prev_arr [B0,B1,B2,B3,B4,B5,B6,B7,B8,B9,B10,B11,B12,B13,B14,B15]
-            //
-            //
-            //-> row_near [B1,B2,B3,B4,B5,B6,B7,B8,B9,B10,B11,B2,B13,B14,B15,B16]
-            //
-            //              |                                                   |
-            //             \/                                                  \/
-            //-> next_row [B2,B3,B4,B5,B6,B7,B8,B9,B10,B11,B12,B13,B14,B15,B16,B17]
-
-
-            // Next we need to get values in Avx register and stretch them.
-            // The reason for this is simple, currently our avx register contain vertical upsampling values.
-            // packed together, for a packing B0,B1 , we need to generate two values
-            //illustrated by
-            // |  |           |  |
-            // |B0| |p1| |p2| |B1|
-            // |  |           |  |
-            // Now a cool way to stretch them is to half our three avx registers,  into 6 upper or lower registers
-            // and duplicate elements of either the half register to the other half
-
-            // Eg for near:
-            // near->|B0,B1,B2,B3]
-            // near_hi ->[B0,B0,B1,B1]
-            // near_lo ->[B2,B2,B3,B3]
-
-            // Duplicate top elements to low elements
-            let (near_lo, near_hi, prev_lo, prev_hi, next_lo, next_hi);
-
-            pack_shuffle!($row,near_lo,0);
-            pack_shuffle!($row,near_hi,0b011_0011);
-
-            pack_shuffle!(prev_arr,prev_lo,0);
-            pack_shuffle!(prev_arr,prev_hi,0b011_0011);
-
-            pack_shuffle!(next_arr,next_lo,0);
-            pack_shuffle!(next_arr,next_hi,0b011_0011);
-
-            // FINALLY START CARRYING OUT THE CALCULATIONS.
-
-            // everything above was set up for this
-
-
-            // prev-lo->[BO,B0,B1,B1,B2,B2,B3,B3]
-            // next-lo->[B2,B2,B3,B3,B4,B4,B5,B5]
-            // NN    -> [B0,B2,B1,B3,B2,B4,B3,B5]
-
-            // notice how prettily NN contains  a weird shift of elements.
-
-            // for i in 1..input.len() - 1{
-            //         let sample = 3 * input[i] + 2;
-            //
-            //         out[i * 2] = (sample + input[i - 1]) >> 2;
-            //         out[i * 2 + 1] = (sample + input[i + 1]) >> 2;
-            // }
-
-            // Look at the ABOVE loop, notice how even numbers get i-1, look at the even indices
-            // in nn.
-            // Look at the ODD INDICES while at it.
-
-            // And that's the miracle.
-            // I rest my case, may you understand the rest of the code.
-
-            let nn = _mm256_blend_epi16::<0b1010_1010>(prev_lo, next_lo);
-            // input[x]*3
-            let an = _mm256_mullo_epi16(near_lo, three);
-
-            let bn = _mm256_add_epi16(nn, two);
+    let stride = input.len() >> 3;
+    // the compiler vectorizes the vertical pass.
+    let first_pass = upsample_vertical(input, input.len() * 2);
 
-            let cn = _mm256_srai_epi16::<2>(_mm256_add_epi16(an, bn));
+    let mut out = Vec::with_capacity(output_len);
 
-            _mm256_storeu_si256(output.get_mut(output_position+$stride..output_position+$stride+16).unwrap().as_mut_ptr().cast(), cn);
-
-
-            let nn = _mm256_blend_epi16::<0b1010_1010>(prev_hi, next_hi);
-
-            let an = _mm256_mullo_epi16(near_hi, three);
-
-            let bn = _mm256_add_epi16(nn, two);
-
-            let cn = _mm256_srai_epi16::<2>(_mm256_add_epi16(an, bn));
-            // hi is stored one output width lower.
-            _mm256_storeu_si256(output.get_mut(output_position+$stride+16..output_position+$stride+32).unwrap().as_mut_ptr().cast(), cn);
-
-
-        };
-    }
-
-    macro_rules! upsample_vertical {
-        ($load_near:tt,$load_far:tt,$row_near:tt,$row_far:tt) => {
-            let t2 = _mm256_add_epi16($load_far, two);
-            let t1 = _mm256_mullo_epi16($load_near, three);
-
-            // (near * 3 + far + 2 ) >> 2
-            $row_near = _mm256_srai_epi16::<2>(_mm256_add_epi16(t1, t2));
-
-            let t3 = _mm256_add_epi16($load_near, two);
-            let t4 = _mm256_mullo_epi16($load_far, three);
-
-            // (far * 3 + near + 2 ) >> 2
-            $row_far = _mm256_srai_epi16::<2>(_mm256_add_epi16(t3, t4));
-        };
-    }
-
-    let (mut row_near, mut row_far);
-
-    let len = output_len / 16;
-    let end = (input.len() >> 7).saturating_sub( 1);
-    // some calculations to determine how much will not be written per MCU.
-    let v = (output.len() / 16).saturating_sub (end * 32);
-
-
-    // we need to iterate row wise
-    // we initially have 8 rows we want to make 32, new rows,
-    for j in 0..8
+    for row in first_pass.chunks_exact(stride)
     {
-
-        // loop row wise
-        // we are feed it our stuff with 16 values, therefore we can loop the number of times we can
-        // chunk data. into 16
-        for _ in 0..end
-        {
-            let load_near = _mm256_loadu_si256(input[pos..].as_ptr().cast());
-            let load_far = _mm256_loadu_si256(input[pos + stride..].as_ptr().cast());
-            // ==========================================================================
-            // -> Pass 1:Vertical calculation.
-            // --------------------------------------------------------------------------
-            upsample_vertical!(load_near, load_far, row_near, row_far);
-
-            // --------------------------------------------------------------------------
-            // Pass 1 : Complete
-            // ==========================================================================
-
-            // ==========================================================================
-            // Pass 2: Horizontal upsampling
-            //---------------------------------------------------------------------------
-
-            upsample_horizontal!(row_near, 0);
-
-            upsample_horizontal!(row_far, (len));
-
-            output_position += 32;
-            // ---------------------------------------------------------------------------
-            // pass 2 complete
-            // ===========================================================================
-            pos += 16;
-            // update previous and next values
-            assert!(input.len() >= pos + stride + 16);
-            // Safety , the assert statement above ensures none of these goes out of bounds.
-            prev = (3 * (*input.get(pos).unwrap_or(&0))
-                .wrapping_add (*input.get(pos + stride).unwrap_or(&0))
-                .wrapping_add(2)) >> 2;
-
-            pixel_far = (3 * (*input.get(pos + 16).unwrap_or(&0))
-                .wrapping_add (*input.get(pos + stride + 16).unwrap_or(&0))
-                .wrapping_add( 2)) >> 2;
-        }
-        // now there are some more data left, since we actually don't write
-        // to the end of the array.
-
-        // those whe handle using scalar code
-       
-        let (a,b )=  output.split_at_mut(output_position+v);
-        
-        let c = a.len()-v;
-    
-        // areas the vector code didn't touch
-        let unwritten = &mut a[c..];
-        let unwritten_stride = &mut b[len-v..len];
-     
-        
-        for (input_window,output_window) in input[pos-v/2-2..pos].windows(3).zip(unwritten.chunks_exact_mut(2)){
-            let input_window: &[i16; 3] = input_window.try_into().unwrap();
-
-            let sample = 3 * input_window[1] + 2;
-    
-            output_window[0] = (sample + input_window[0]) >> 2;
-    
-            output_window[1] = (sample + input_window[2]) >> 2;
-        }
-        *unwritten.last_mut().unwrap() = input[pos];
-        
-        for (input_window,output_window) in input[pos-v/2+stride-2..pos+stride].windows(3).zip(unwritten_stride.chunks_exact_mut(2)){
-            let input_window: &[i16; 3] = input_window.try_into().unwrap();
-
-            let sample = 3 * input_window[1] + 2;
-    
-            output_window[0] = (sample + input_window[0]) >> 2;
-    
-            output_window[1] = (sample + input_window[2]) >> 2;
-        }
-        
-        *unwritten_stride.last_mut().unwrap() = input[pos+stride];
-        
-    
-
-        output_position += len+v;
-        pos+=v/2;
-        
-        if modify_stride
-        {
-            stride = input.len() / 8;
-            modify_stride = false;
-
-        }
-        if j == 6
-        {
-            // when j is 6 it means we are at position 14, and 15, here we
-            // need to revert stride to be zero to get a nearest neighbour
-
-            // since there is no more row to look ahead using stride.
-            stride = 0;
-
-        }
-        // set some manually
-        output[output_position - len] = output[output_position - len + 1];
-
-        output[output_position - len - 2] = output[output_position - len - 4];
-
-        output[output_position - len - 1] = output[output_position - len - 3];
-
-        output[output_position - 2] = output[output_position - 4];
-
-        output[output_position - 1] = output[output_position - 3];
+        out.extend_from_slice(&upsample_horizontal_sse(row, stride * 2));
     }
 
-    return output;
-}
-
-#[inline]
-const fn shuffle(z: i32, y: i32, x: i32, w: i32) -> i32
-{
-    ((z << 6) | (y << 4) | (x << 2) | w) as i32
+    return out;
 }
diff --git a/src/upsampler/scalar.rs b/src/upsampler/scalar.rs
index a932b00..6c85e0b 100644
--- a/src/upsampler/scalar.rs
+++ b/src/upsampler/scalar.rs
@@ -52,69 +52,38 @@ pub fn upsample_horizontal(input: &[i16], output_len: usize) -> Vec<i16>
     let i_last: &[i16; 2] = input.get(input_len..).unwrap().try_into().unwrap();
 
     // write out manually..
-    f_out[0] = (3 * i_last[0] + i_last[1] + 2) >> 2;
+    f_out[0] = (3 * i_last[1] + i_last[0] + 2) >> 2;
 
     f_out[1] = i_last[1];
 
     return out;
 }
-/// Vertical upsampling (which I don't trust but it works anyway)
+/// Vertical upsampling of eight rows to sixteen.
 ///
-/// The algorithm is still a bi-linear filter with some caveats.
+/// The algorithm is still a bi-linear filter, the first and the last row have no
+/// neighbour on one side and are copied.
 pub fn upsample_vertical(input: &[i16], output_len: usize) -> Vec<i16>
 {
-    // the caveats, row_near and row_far for the first row point to the same
-    // array, that boils to a nearest neighbour upsampling?
-
-    // if row_near doesn't have data (next returns None), it uses it's
-    // previous row, so this again becomes a nearest neighbour
-
-    // How many pixels we need to skip to the next MCU row.
+    // How many pixels we need to skip to the next row.
     let stride = input.len() >> 3;
 
-    // We have 8 rows and we want 16 rows
-    let mut row_near = input.chunks_exact(stride);
-
-    // row far should point one row below row_near, if row near is in row 3, row far is in
-    // row 4.
-    let mut row_far = input.chunks_exact(stride);
-
     let mut out = vec![0; output_len];
-    // nearest row
-    let mut rw_n = row_near.next().unwrap();
-    // farthest row;
-    let mut rw_f = row_far.next().unwrap();
-    // previous row, for out of edge cases, e.g if we reach a row and
-    // we don't have data for that row, we use the previous row
-    let mut previous;
-
-    let mut i = 0;
 
-    let mut next_row = true;
+    out[..stride].copy_from_slice(&input[..stride]);
 
-    for _ in 0..8
+    // every pair of adjacent rows makes the two output rows between them.
+    for ((row_near, row_far), rows_out) in input
+        .chunks_exact(stride)
+        .zip(input[stride..].chunks_exact(stride))
+        .zip(out[stride..].chunks_exact_mut(stride * 2))
     {
-        // A bit of cheat here.
-        //
-        // Let me explain, split at mut will return two slices, one containing 0..stride
-        // and another containing what remains.
-        //
-        // The length of out_near => stride, remainder will ALWAYS be greater than or equal to stride.
-        // now this is important with the loop below, we are using zip iterators which have an interesting
-        // property, they stop if any iterator doesn't have elements
-        //
-        // So we know remainder will be >= stride but out_near will be stride, therefore the zip will
-        // effectively stop when we write two rows.
-        //
-        // Ideally all of this is done to eliminate bounds check, the compiler will vectorize this
-        // better without the bounds check.
-        let (out_near, remainder) = out[i..].split_at_mut(stride);
-
-        for (((near, far), on), of) in rw_n
+        let (out_near, out_far) = rows_out.split_at_mut(stride);
+
+        for (((near, far), on), of) in row_near
             .iter()
-            .zip(rw_f.iter())
+            .zip(row_far.iter())
             .zip(out_near.iter_mut())
-            .zip(remainder.iter_mut())
+            .zip(out_far.iter_mut())
         {
             // Yes this can be easily accelerated, with SSE or AVX,
             // but it's a maintenance overhead and the compiler does an amazing work
@@ -125,42 +94,25 @@ pub fn upsample_vertical(input: &[i16], output_len: usize) -> Vec<i16>
             // far row
             *of = ((*far) * 3 + (*near) + 2) >> 2;
         }
-        // we wrote two adjacent lines update i to point to next position
-        // in output buffer.
-        i += stride * 2;
-
-        previous = rw_n;
+    }
 
-        rw_n = row_near.next().unwrap_or(previous);
+    out[stride * 15..].copy_from_slice(&input[stride * 7..]);
 
-        rw_f = row_far.next().unwrap_or(rw_n);
-        // okay here I'm lazy. Ideally what i want s simply this.
-        // for the first row, keep row_near and row_far to the same, row, but for sub-sequent rows,
-        // row_far should point to the next row(1 row further than this row_near).
-        if next_row
-        {
-            rw_f = row_far.next().unwrap_or(rw_n);
-            next_row = false;
-        }
-    }
     return out;
 }
+/// Upsample eight rows vertically and then each of the sixteen rows horizontally
 pub fn upsample_hv(input: &[i16], output_len: usize) -> Vec<i16>
 {
-    //  a hv upsample is simply a two pass sample, first sample vertically, then sample horizontally
-    // because we spent too much time writing our horizontal and vertical sub sampling  to
-    // create outputs twice their inputs, we can just do this and we know they will work
-    // Furthermore, we know it will be fast, upsample vertical and horizontal are super optimized
-    // to eliminate bounds check.
-
-    // But there is an AVX version obviously
-
-    // But this is a good place for optimization if one wants to tackle that.
-
+    let stride = input.len() >> 3;
     // first pass, do vertical sampling
     let first_pass = upsample_vertical(input, input.len() * 2);
-    //second pass, do horizontal sampling
-    let second_pass = upsample_horizontal(&first_pass, output_len);
+    // second pass, do horizontal sampling
+    let mut out = Vec::with_capacity(output_len);
 
-    return second_pass;
+    for row in first_pass.chunks_exact(stride)
+    {
+        out.extend_from_slice(&upsample_horizontal(row, stride * 2));
+    }
+
+    return out;
 }
diff --git a/src/upsampler/sse.rs b/src/upsampler/sse.rs
index fc2feb3..0a420c8 100644
--- a/src/upsampler/sse.rs
+++ b/src/upsampler/sse.rs
@@ -120,13 +120,13 @@ pub unsafe fn upsample_horizontal_sse_u(input: &[i16], output_len: usize) -> Vec
 
     l_out[2] = (input[il + 1] * 3 + input[il] + 2) >> 2;
 
-    l_out[3] = (input[il + 1] * 3 + input[il + 1] + 2) >> 2;
+    l_out[3] = (input[il + 1] * 3 + input[il + 2] + 2) >> 2;
 
-    l_out[4] = (input[il + 2] * 3 + input[il + 2] + 2) >> 2;
+    l_out[4] = (input[il + 2] * 3 + input[il + 1] + 2) >> 2;
 
-    l_out[5] = (input[il + 2] * 3 + input[il + 1] + 2) >> 2;
+    l_out[5] = (input[il + 2] * 3 + input[il + 3] + 2) >> 2;
 
-    l_out[6] = (input[il + 2] * 3 + input[il + 3] + 2) >> 2;
+    l_out[6] = (input[il + 3] * 3 + input[il + 2] + 2) >> 2;
 
     l_out[7] = input[il + 3];
 
diff --git a/src/worker.rs b/src/worker.rs
index 12a36e4..2b32607 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -105,7 +105,16 @@ pub(crate) fn post_process_inner(
         // carry out upsampling , the return vector overwrites the original vector
         for i in 1..x
         {
-            unprocessed[i] = (component_data[i].up_sampler)(&unprocessed[i], unprocessed[0].len());
+            // rows are upsampled one by one, unless the filter needs the rows of an MCU.
+            let rows = if v_samp == 1 { 1 } else { 8 };
+            let mut upsampled = Vec::with_capacity(unprocessed[0].len());
+
+            for chunk in unprocessed[i].chunks_exact(component_data[i].width_stride * rows)
+            {
+                upsampled.extend_from_slice(
+                    &(component_data[i].up_sampler)(chunk, chunk.len() * h_samp * v_samp));
+            }
+            unprocessed[i] = upsampled;
         }
     }
 
-- 
2.43.0


From 0e8e66500bf2362b6e9bdeec44099f94036096fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:32 +0000
Subject: [PATCH 10/32] fix: compute blocks with only a DC coefficient without
 wrapping and limit them to 0..=255

---
 src/idct/avx2.rs   | 4 ++--
 src/idct/scalar.rs | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/idct/avx2.rs b/src/idct/avx2.rs
index cf3f671..31c36c9 100644
--- a/src/idct/avx2.rs
+++ b/src/idct/avx2.rs
@@ -161,9 +161,9 @@ unsafe fn dequantize_and_idct_int_avx2(
                     // AC terms all zero, idct of the block is  is (coeff[0] *qt[0])/8 + bias(128)
                     // (and clamped to 255)
                     let idct_value = _mm_set1_epi16(
-                        ((vector[0].wrapping_mul(qt_table.0[0] as i16) >> 3) + 128)
+                        (((i32::from(vector[0]) * qt_table.0[0]) >> 3) + 128)
                             .max(0)
-                            .min(255),
+                            .min(255) as i16,
                     );
                     macro_rules! store {
                         ($pos:tt,$value:tt) => {
diff --git a/src/idct/scalar.rs b/src/idct/scalar.rs
index e58abe1..a121cda 100644
--- a/src/idct/scalar.rs
+++ b/src/idct/scalar.rs
@@ -45,7 +45,9 @@ pub fn dequantize_and_idct_int(
             if &vector[1..] == &[0_i16; 63]
             {
                 // okay then if you work, yaay, let's write you really quick
-                let coeff = [((vector[0].wrapping_mul(qt_table.0[0] as i16)) >> 3) + 128; 8];
+                // and limit to what a sample can hold.
+                let dc = (i32::from(vector[0]) * qt_table.0[0]) >> 3;
+                let coeff = [(dc + 128).max(0).min(255) as i16; 8];
 
                 macro_rules! store {
                     ($index:tt) => {
-- 
2.43.0


From 4cac824e611a4e9ab3479771c88ca7b42fe4f0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:11 +0000
Subject: [PATCH 11/32] fix: do not assume that coefficients are aligned to 16
 bytes

---
 src/idct/avx2.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/idct/avx2.rs b/src/idct/avx2.rs
index 31c36c9..326e2c0 100644
--- a/src/idct/avx2.rs
+++ b/src/idct/avx2.rs
@@ -104,19 +104,19 @@ unsafe fn dequantize_and_idct_int_avx2(
             // We sign extend i16's to i32's and calculate them with extended precision and
             // later reduce them to i16's when we are done carrying out IDCT
 
-            let rw0 = _mm_load_si128(vector[0..=7].as_ptr().cast());
+            let rw0 = _mm_loadu_si128(vector[0..=7].as_ptr().cast());
 
-            let rw1 = _mm_load_si128(vector[8..=15].as_ptr().cast());
+            let rw1 = _mm_loadu_si128(vector[8..=15].as_ptr().cast());
 
-            let rw2 = _mm_load_si128(vector[16..=23].as_ptr().cast());
+            let rw2 = _mm_loadu_si128(vector[16..=23].as_ptr().cast());
 
-            let rw3 = _mm_load_si128(vector[24..=31].as_ptr().cast());
+            let rw3 = _mm_loadu_si128(vector[24..=31].as_ptr().cast());
 
-            let rw4 = _mm_load_si128(vector[32..=39].as_ptr().cast());
+            let rw4 = _mm_loadu_si128(vector[32..=39].as_ptr().cast());
 
-            let rw5 = _mm_load_si128(vector[40..=47].as_ptr().cast());
+            let rw5 = _mm_loadu_si128(vector[40..=47].as_ptr().cast());
 
-            let rw6 = _mm_load_si128(vector[48..=55].as_ptr().cast());
+            let rw6 = _mm_loadu_si128(vector[48..=55].as_ptr().cast());
 
             let rw7 = _mm_loadu_si128(vector[56..=63].as_ptr().cast());
 
-- 
2.43.0


From 99c408897a06b2c265fb9c077b91c30660d92a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:52 +0000
Subject: [PATCH 12/32] fix: count restart intervals in MCUs and synchronise at
 the restart marker

---
 src/mcu.rs      | 96 +++++++++++++++++++++++++------------------------
 src/mcu_prog.rs | 43 ++++++++++------------
 2 files changed, 67 insertions(+), 72 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 9ff8f86..48fabcf 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -61,6 +61,7 @@ use crate::bitstream::BitStream;
 use crate::components::{ComponentID, SubSampRatios};
 use crate::errors::DecodeErrors;
 use crate::marker::Marker;
+use crate::mcu_prog::get_marker;
 use crate::worker::post_process;
 use crate::{ColorSpace, Decoder};
 
@@ -219,6 +220,7 @@ impl Decoder
         let hv_width_stride = width_stride >> 1;
 
         let mut stream = BitStream::new();
+        self.todo = self.restart_interval;
         // Space needed for the pixels of an MCU width
         let chunk_size = width * output.num_components() * 8 * h_max * v_max;
         // Storage for decoded pixels
@@ -325,32 +327,33 @@ impl Decoder
                                     }
                                 }
                             }
-                            self.todo = self.todo.wrapping_sub(1);
-                            // after every interleaved MCU that's a mcu, count down restart markers.
-                            if self.todo == 0
-                            {
-                                self.handle_rst(&mut stream)?;
-                            }
+                        }
+                        self.todo = self.todo.wrapping_sub(1);
+                        // after every MCU, count down restart markers, there is none after
+                        // the last one.
+                        if self.todo == 0 && mcus_left != 0
+                        {
+                            self.handle_rst(reader, &mut stream)?;
+                        }
 
-                            // In some corrupt images, it may occur that header markers occur in the stream.
-                            // The spec EXPLICITLY FORBIDS this, specifically, in
-                            // routine F.2.2.5  it says
-                            // `The only valid marker which may occur within the Huffman coded data is the RSTm marker.`
-                            //
-                            // But libjpeg-turbo allows it because of some weird reason. so I'll also
-                            // allow it because of some weird reason.
-                            if let Some(m) = stream.marker
-                            {
-                                // The end of the image is seen by look-ahead before the
-                                // last blocks are decoded, their bits are still in the stream.
-                                if let Marker::EOI | Marker::RST(_) = m { continue }
+                        // In some corrupt images, it may occur that header markers occur in the stream.
+                        // The spec EXPLICITLY FORBIDS this, specifically, in
+                        // routine F.2.2.5  it says
+                        // `The only valid marker which may occur within the Huffman coded data is the RSTm marker.`
+                        //
+                        // But libjpeg-turbo allows it because of some weird reason. so I'll also
+                        // allow it because of some weird reason.
+                        if let Some(m) = stream.marker
+                        {
+                            // The end of the image is seen by look-ahead before the
+                            // last blocks are decoded, their bits are still in the stream.
+                            if let Marker::EOI | Marker::RST(_) = m { continue }
 
-                                // don't see it again.
-                                stream.marker = None;
+                            // don't see it again.
+                            stream.marker = None;
 
-                                error!("Marker `{:?}` Found within Huffman Stream, possibly corrupt jpeg",m);
-                                self.parse_marker_inner(m, reader)?;
-                            }
+                            error!("Marker `{:?}` Found within Huffman Stream, possibly corrupt jpeg",m);
+                            self.parse_marker_inner(m, reader)?;
                         }
                     }
                 }
@@ -388,35 +391,34 @@ impl Decoder
     // No-op if not using restarts
     // this routine is shared with mcu_prog
     #[cold]
-    pub(crate) fn handle_rst(&mut self, stream: &mut BitStream) -> Result<(), DecodeErrors>
+    pub(crate) fn handle_rst(
+        &mut self, reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream,
+    ) -> Result<(), DecodeErrors>
     {
         self.todo = self.restart_interval;
 
-        if let Some(marker) = stream.marker
+        // What is left before the marker is padding, look-ahead may not have seen the marker.
+        match get_marker(reader, stream)
         {
-            // Found a marker
-            // Read stream and see what marker is stored there
-            match marker
+            Some(Marker::RST(_)) =>
             {
-                Marker::RST(_) =>
-                {
-                    // reset stream
-                    stream.reset();
-                    // Initialize dc predictions to zero for all components
-                    self.components.iter_mut().for_each(|x| x.dc_pred = 0);
-                    // Start iterating again. from position.
-                }
-                Marker::EOI =>
-                {
-                    // silent pass
-                }
-                _ =>
-                {
-                    return Err(DecodeErrors::MCUError(format!(
-                        "Marker {:?} found in bitstream, possibly corrupt jpeg",
-                        marker
-                    )));
-                }
+                // reset stream
+                stream.reset();
+                // Initialize dc predictions to zero for all components
+                self.components.iter_mut().for_each(|x| x.dc_pred = 0);
+                // Start iterating again. from position.
+            }
+            Some(Marker::EOI) | None =>
+            {
+                // nothing more to read
+                stream.marker = Some(Marker::EOI);
+            }
+            Some(marker) =>
+            {
+                return Err(DecodeErrors::MCUError(format!(
+                    "Marker {:?} found in bitstream, possibly corrupt jpeg",
+                    marker
+                )));
             }
         }
         Ok(())
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 552670d..05bcaaa 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -255,6 +255,7 @@ impl Decoder
     {
         self.check_component_dimensions()?;
         stream.reset();
+        self.todo = self.restart_interval;
         self.components.iter_mut().for_each(|x| x.dc_pred = 0);
 
         if usize::from(self.num_scans) > self.input_colorspace.num_components() {
@@ -293,6 +294,7 @@ impl Decoder
             }
             let mut i = 0;
             let mut j = 0;
+            let mut mcus_left = mcu_width * mcu_height;
 
             while i < mcu_height
             {
@@ -300,10 +302,6 @@ impl Decoder
                 {
                     let start = 64 * (j + i * (self.components[k].width_stride / 8));
 
-                    if i >= mcu_height {
-                        break;
-                    }
-
                     let data: &mut [i16; 64] = buffer.get_mut(k)
                         .unwrap().get_mut(start..start + 64)
                         .unwrap().try_into().unwrap();
@@ -341,16 +339,7 @@ impl Decoder
                                 // EOB runs indicate the whole block is empty, but unlike for baseline
                                 // EOB in progressive tell us the number of proceeding blocks currently zero.
 
-                                // other decoders use a check in decode_mcu_first decrement and return if it's an
-                                // eob run(since the array is expected to contain zeroes). but that's a function call overhead(if not inlined) and a branch check
-                                // we do it a bit differently
-                                // we can use divisors to determine how many MCU's to skip
-                                // which is more faster than a decrement and return since EOB runs can be
-                                // as big as 10,000
-
-                                i += (j + stream.eob_run as usize - 1) / mcu_width;
-                                j = (j + stream.eob_run as usize - 1) % mcu_width;
-                                stream.eob_run = 0;
+                                stream.eob_run -= 1;
                             } else {
                                 stream.decode_mcu_ac_first(reader, ac_table, data)?;
                             }
@@ -360,11 +349,12 @@ impl Decoder
                         }
                     }
                     j += 1;
-                    self.todo -= 1;
+                    mcus_left -= 1;
+                    self.todo = self.todo.wrapping_sub(1);
 
-                    if self.todo == 0
+                    if self.todo == 0 && mcus_left != 0
                     {
-                        self.handle_rst(stream)?;
+                        self.handle_rst(reader, stream)?;
                     }
                 }
                 j = 0;
@@ -381,6 +371,8 @@ impl Decoder
 
             // Components shall not be interleaved in progressive mode, except for
             // the DC coefficients in the first scan for each component of a progressive frame.
+            let mut mcus_left = self.mcu_x * self.mcu_y;
+
             for i in 0..self.mcu_y
             {
                 for j in 0..self.mcu_x
@@ -418,13 +410,14 @@ impl Decoder
                                 }
                             }
                         }
-                        // We want wrapping subtraction here because it means
-                        // we get a higher number in the case this underflows
-                        self.todo = self.todo.wrapping_sub(1);
-                        // after every scan that's a mcu, count down restart markers.
-                        if self.todo == 0 {
-                            self.handle_rst(stream)?;
-                        }
+                    }
+                    mcus_left -= 1;
+                    // We want wrapping subtraction here because it means
+                    // we get a higher number in the case this underflows
+                    self.todo = self.todo.wrapping_sub(1);
+                    // after every scan that's a mcu, count down restart markers.
+                    if self.todo == 0 && mcus_left != 0 {
+                        self.handle_rst(reader, stream)?;
                     }
                 }
             }
@@ -436,7 +429,7 @@ impl Decoder
 ///Get a marker from the bit-stream.
 ///
 /// This reads until it gets a marker or end of file is encountered
-fn get_marker(reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream) -> Option<Marker>
+pub(crate) fn get_marker(reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream) -> Option<Marker>
 {
     if let Some(marker) = stream.marker
     {
-- 
2.43.0


From 82880a849a19d9d829e5a52cda3bb0cda083b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:53 +0000
Subject: [PATCH 13/32] fix: decode progressive AC scans whose Huffman table
 precedes the frame header

---
 src/bitstream.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index bd8f394..9bdbe2a 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -458,7 +458,9 @@ impl BitStream
             fac = fast_ac[symbol as usize];
             symbol = ac_table.lookup[symbol as usize];
 
-            if fac != 0
+            // entries made for a baseline image mark an EOB with a value of zero, but here
+            // that is a run.
+            if fac >> 10 != 0
             {
                 // fast ac path
                 k += ((fac >> 4) & 63) as usize; // run
-- 
2.43.0


From 480bdcbf7cc39637a1ee4873b3f144187a445388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:53 +0000
Subject: [PATCH 14/32] fix: decode every image as a new decoder with the same
 options would

---
 src/decoder.rs  | 10 +++++++++-
 src/headers.rs  |  5 ++---
 src/mcu.rs      |  9 ++++-----
 src/mcu_prog.rs |  6 +++---
 4 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 421a87c..69af851 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -240,6 +240,9 @@ impl Decoder
     where
         R: Read + BufRead,
     {
+        // nothing of a previous image should be left.
+        *self = Decoder::default(self.options);
+
         // First two bytes should be jpeg soi marker
         let magic_bytes = read_u16_be(buf)?;
 
@@ -414,6 +417,11 @@ impl Decoder
     #[must_use]
     pub fn get_output_colorspace(&self) -> ColorSpace
     {
+        // images with one component are always decoded to grayscale
+        if self.input_colorspace == ColorSpace::GRAYSCALE
+        {
+            return ColorSpace::GRAYSCALE;
+        }
         return self.options.get_out_colorspace();
     }
 
@@ -468,7 +476,7 @@ impl Decoder
     /// Choose the color conversion function for the output colorspace the image will be decoded to.
     fn set_color_convert(&mut self) -> Result<(), DecodeErrors>
     {
-        match self.options.get_out_colorspace()
+        match self.get_output_colorspace()
         {
             // no function needed, components are copied.
             ColorSpace::GRAYSCALE | ColorSpace::YCbCr =>
diff --git a/src/headers.rs b/src/headers.rs
index 03ab65e..214bd3f 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -278,10 +278,9 @@ where
     if num_components == 1
     {
         // SOF sets the number of image components
-        // and that to us translates to setting input and output
-        // colorspaces to zero
+        // and that to us translates to setting the input colorspace,
+        // which also determines the output colorspace.
         img.input_colorspace = ColorSpace::GRAYSCALE;
-        img.options = img.options.set_out_colorspace(ColorSpace::GRAYSCALE);
     }
 
     // set number of components
diff --git a/src/mcu.rs b/src/mcu.rs
index 48fabcf..a979327 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -186,7 +186,6 @@ impl Decoder
 
             mcu_width = (usize::from(self.info.width) + 7) / 8;
             self.h_max = 1;
-            self.options = self.options.set_out_colorspace(ColorSpace::GRAYSCALE);
             self.v_max = 1;
             self.sub_sample_ratio = SubSampRatios::None;
             self.components[0].vertical_sample = 1;
@@ -209,7 +208,7 @@ impl Decoder
         let is_hv = self.sub_sample_ratio == SubSampRatios::HV;
         // things needed for post processing that we can remove out of the loop
         let input = self.input_colorspace;
-        let output = self.options.get_out_colorspace();
+        let output = self.get_output_colorspace();
         let idct_func = self.idct_func;
         let color_convert_16 = self.color_convert_16;
         let width = usize::from(self.width());
@@ -245,7 +244,7 @@ impl Decoder
                 {
                     // multiply capacity with sampling factor, it  should be 1*1 for un-sampled images
                     // Allocate only needed components.
-                    if min(self.options.get_out_colorspace().num_components() - 1, pos) == pos
+                    if min(output.num_components() - 1, pos) == pos
                     {
                         let len = component_capacity * comp.vertical_sample * comp.horizontal_sample * bias;
 
@@ -291,7 +290,7 @@ impl Decoder
                                 for h_samp in 0..component.horizontal_sample
                                 {
                                     // only decode needed components
-                                    if min(self.options.get_out_colorspace().num_components() - 1, pos) == pos
+                                    if min(output.num_components() - 1, pos) == pos
                                     {
                                         // The spec  https://www.w3.org/Graphics/JPEG/itu-t81.pdf page 26
 
@@ -383,7 +382,7 @@ impl Decoder
         global_channel.truncate(
             usize::from(self.width())
                 * usize::from(self.height())
-                * self.options.get_out_colorspace().num_components(),
+                * output.num_components(),
         );
         return Ok(global_channel);
     }
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 05bcaaa..904f3c5 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -181,12 +181,12 @@ impl Decoder
         let v_max = self.v_max;
         let components = Arc::new(self.components.clone());
         let input = self.input_colorspace;
-        let output = self.options.get_out_colorspace();
+        let output = self.get_output_colorspace();
         let idct_func = self.idct_func;
         let color_convert_16 = self.color_convert_16;
         let width = usize::from(self.width());
         // Divide the output into small blocks and send to threads/
-        let chunks_size = width * self.options.get_out_colorspace().num_components() * 8 * h_max * v_max;
+        let chunks_size = width * output.num_components() * 8 * h_max * v_max;
         // Chunk sizes. Each determine how many pixels go per thread.
         let y_chunk_size =
             mcu_width * self.components[0].vertical_sample * self.components[0].horizontal_sample * bias;
@@ -240,7 +240,7 @@ impl Decoder
         out_vector.truncate(
             usize::from(self.width())
                 * usize::from(self.height())
-                * self.options.get_out_colorspace().num_components(),
+                * output.num_components(),
         );
 
         return Ok(out_vector);
-- 
2.43.0


From 02f0d29f82a4b85a302b7bb5e03766254383b230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:32 +0000
Subject: [PATCH 15/32] fix: reject a second start of frame

---
 src/headers.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/headers.rs b/src/headers.rs
index 214bd3f..9b776f5 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -203,6 +203,12 @@ pub(crate) fn parse_start_of_frame<R>(
 where
     R: Read,
 {
+    if !img.components.is_empty()
+    {
+        return Err(DecodeErrors::SofError(
+            "Found more than one start of frame".to_string(),
+        ));
+    }
     // Get length of the frame header
     let length = read_u16_be(buf)
         .map_err(|_| DecodeErrors::Format("Cannot read SOF length, exhausted data".to_string()))?;
-- 
2.43.0


From 9f51935f94b21c6030adb850d9a19f83cf10b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:43 +0000
Subject: [PATCH 16/32] fix: reject frames whose components are not Y or Y, Cb
 and Cr

---
 src/headers.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/headers.rs b/src/headers.rs
index 9b776f5..cf01d5b 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -281,6 +281,14 @@ where
 
     info!("Image components : {}", num_components);
 
+    if num_components != 1 && num_components != 3
+    {
+        return Err(DecodeErrors::SofError(format!(
+            "Images with {} components are not supported",
+            num_components
+        )));
+    }
+
     if num_components == 1
     {
         // SOF sets the number of image components
@@ -295,7 +303,7 @@ where
     let mut components = Vec::with_capacity(num_components as usize);
     let mut temp = [0; 3];
 
-    for _ in 0..num_components
+    for i in 0..num_components
     {
         // read 3 bytes for each component
         buf.read_exact(&mut temp)
@@ -303,6 +311,17 @@ where
         // create a component.
         let component = Components::from(temp)?;
 
+        // components are Y, or Y,Cb and Cr.
+        if component.id != i + 1
+        {
+            return Err(DecodeErrors::SofError(format!(
+                "Expected component {} to have an id of {}, found {}",
+                i,
+                i + 1,
+                component.id
+            )));
+        }
+
         components.push(component);
     }
 
-- 
2.43.0


From 5f54d6528beea49812772cddc78b018120e16e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:20 +0000
Subject: [PATCH 17/32] fix: reject baseline scans that do not contain every
 component

---
 src/mcu.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mcu.rs b/src/mcu.rs
index a979327..8e7133b 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -133,6 +133,14 @@ impl Decoder
         // check dc and AC tables
         self.check_tables()?;
 
+        if usize::from(self.num_scans) != self.components.len()
+        {
+            return Err(DecodeErrors::SosError(format!(
+                "Baseline images with components in different scans are not supported, expected {} components in the scan, found {}",
+                self.components.len(), self.num_scans
+            )));
+        }
+
         let  mut scoped_pools = scoped_threadpool::Pool::new(
             self.options.get_threads());
         info!("Created {} worker threads", scoped_pools.thread_count());
-- 
2.43.0


From 457ca17b3ebb1a218500d968fc7a1bd81e7a5b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:55 +0000
Subject: [PATCH 18/32] fix: skip fill bytes before a marker

---
 src/decoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 69af851..96fa56b 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -261,6 +261,11 @@ impl Decoder
             // like OxFF(some marker data)
             if last_byte == 0xFF
             {
+                if m == 0xFF
+                {
+                    // Any marker may be preceded by any number of fill bytes
+                    continue;
+                }
                 let marker = Marker::from_u8(m);
 
                 bytes_before_marker = 0;
-- 
2.43.0


From c2951390b90b78570dffa5a9d3f41afd0bd27efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:54 +0000
Subject: [PATCH 19/32] fix: decode progressive grayscale images with sampling
 factors

---
 src/mcu_prog.rs | 50 ++++++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 904f3c5..cc6389b 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -59,6 +59,31 @@ impl Decoder
 
         let mut seen_scans = 1;
 
+        self.set_upsampling()?;
+
+        if self.input_colorspace == ColorSpace::GRAYSCALE && self.interleaved {
+            /*
+            Apparently, grayscale images which can be down sampled exists, which is weird in the sense
+            that it has one component Y, which is not usually down sampled.
+
+            This means some calculations will be wrong, so for that we explicitly reset params
+            for such occurrences, warn and reset the image info to appear as if it were
+            a non-sampled image to ensure decoding works
+            */
+            if self.options.get_strict_mode(){
+                return Err(DecodeErrors::FormatStatic("[strict-mode]: Grayscale image with down-sampled component."))
+            }
+            warn!("Grayscale image with down-sampled component, resetting component details");
+
+            self.interleaved = false;
+            self.h_max = 1;
+            self.v_max = 1;
+            self.sub_sample_ratio = SubSampRatios::None;
+            self.components[0].vertical_sample = 1;
+            self.components[0].width_stride = (usize::from(self.info.width) + 7) / 8 * 8;
+            self.components[0].horizontal_sample = 1;
+        }
+
         if self.interleaved
         {
             mcu_width = self.mcu_x;
@@ -136,8 +161,6 @@ impl Decoder
 
     #[rustfmt::skip]
     fn finish_progressive_decoding(&mut self, block: &[Vec<i16>; 3], mcu_width: usize) -> Result<Vec<u8>, DecodeErrors> {
-        self.set_upsampling()?;
-
         let mut mcu_width = mcu_width;
         let mut bias = 1;
 
@@ -149,29 +172,6 @@ impl Decoder
             bias = 2;
         }
 
-        if self.input_colorspace == ColorSpace::GRAYSCALE && self.interleaved {
-            /*
-            Apparently, grayscale images which can be down sampled exists, which is weird in the sense
-            that it has one component Y, which is not usually down sampled.
-
-            This means some calculations will be wrong, so for that we explicitly reset params
-            for such occurrences, warn and reset the image info to appear as if it were
-            a non-sampled image to ensure decoding works
-
-            NOTE: not tested on progressive images as I couldn't find such an image.
-            */
-            if self.options.get_strict_mode(){
-                return Err(DecodeErrors::FormatStatic("[strict-mode]: Grayscale image with down-sampled component."))
-            }
-            warn!("Grayscale image with down-sampled component, resetting component details");
-            self.h_max = 1;
-            self.v_max = 1;
-            self.sub_sample_ratio = SubSampRatios::None;
-            self.components[0].vertical_sample = 1;
-            self.components[0].width_stride = mcu_width * 8;
-            self.components[0].horizontal_sample = mcu_width;
-            bias = 1;
-        }
         // remove items from  top block
         let y = &block[0];
         let cb = &block[1];
-- 
2.43.0


From 0240cec1e81557a1170c66c082ada7a1ce68b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:28 +0000
Subject: [PATCH 20/32] fix: look for the marker after the first progressive
 scan where look-ahead did not reach it

---
 src/mcu_prog.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index cc6389b..aac637c 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -116,7 +116,7 @@ impl Decoder
         self.parse_entropy_coded_data(reader, &mut stream, &mut block)?;
 
         // extract marker
-        let mut marker = stream.marker.take().ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
+        let mut marker = get_marker(reader, &mut stream).ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
         // if marker is EOI, we are done, otherwise continue scanning.
         'eoi: while marker != Marker::EOI
         {
-- 
2.43.0


From 887247179c4d2abccd5116852eea4d6683230439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 21/32] fix: accept application segments, comments, DQT and DRI
 between progressive scans

---
 src/marker.rs   |  4 +---
 src/mcu_prog.rs | 10 ++++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/marker.rs b/src/marker.rs
index 6e44034..0e604f8 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -70,9 +70,7 @@ impl Marker
             0xDB => Some(DQT),
             0xDC => Some(DNL),
             0xDD => Some(DRI),
-            0xE0 => Some(APP(0)),
-            0xE1 => Some(APP(1)),
-            0xEE => Some(APP(14)),
+            0xE0..=0xEF => Some(APP(n - 0xE0)),
             _ => None,
         }
     }
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index aac637c..06a643a 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -34,7 +34,7 @@ use crate::components::{ComponentID, SubSampRatios};
 use crate::decoder::MAX_COMPONENTS;
 use crate::errors::DecodeErrors;
 use crate::errors::DecodeErrors::Format;
-use crate::headers::{parse_huffman, parse_sos};
+use crate::headers::parse_sos;
 use crate::marker::Marker;
 use crate::misc::read_byte;
 use crate::worker::post_process;
@@ -123,9 +123,6 @@ impl Decoder
 
             match marker
             {
-                Marker::DHT => {
-                    parse_huffman(self, reader)?;
-                }
                 Marker::SOS =>
                     {
                         parse_sos(reader, self)?;
@@ -147,6 +144,11 @@ impl Decoder
                         stream.reset();
                         continue 'eoi;
                     }
+                Marker::DHT | Marker::DQT | Marker::DRI | Marker::COM | Marker::APP(_) =>
+                    {
+                        // tables and miscellaneous segments may precede every scan.
+                        self.parse_marker_inner(marker, reader)?;
+                    }
                 _ =>
                     {
                         break 'eoi;
-- 
2.43.0


From b5ad6ef84d80ad6861d9334e4a28b1125e26f24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:58 +0000
Subject: [PATCH 22/32] fix: return an error for a number of threads that does
 not fit in a u32

---
 src/decoder.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 96fa56b..f2e8fb8 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -614,7 +614,7 @@ impl Decoder
     /// This allows the end user to manually set decoding threads
     ///
     /// # Errors
-    /// Errors when value is `0`
+    /// Errors when value is `0` or does not fit in a `u32`
     ///
     /// # Example
     /// ```
@@ -624,18 +624,16 @@ impl Decoder
     /// img.set_num_threads(3).unwrap(); // spawn only three threads
     /// ```
     #[deprecated(since = "0.2.0", note = "Use new_with_options to set options")]
-    #[allow(clippy::cast_possible_truncation)]
     pub fn set_num_threads(&mut self, threads: usize) -> Result<(), DecodeErrors>
     {
-        if threads == 0
-        {
-            return Err(DecodeErrors::FormatStatic(
-                "Cannot set zero threads to decode image",
-            ));
-        }
-        self.options = self
-            .options
-            .set_num_threads(NonZeroU32::new(threads as u32).unwrap());
+        let threads = u32::try_from(threads)
+            .ok()
+            .and_then(NonZeroU32::new)
+            .ok_or_else(|| {
+                DecodeErrors::Format(format!("Cannot set {} threads to decode image", threads))
+            })?;
+
+        self.options = self.options.set_num_threads(threads);
         Ok(())
     }
     /// Check that all components have the correct width and height
-- 
2.43.0


From 9322f98d13d2dc8c85a03ab1c1ef5a16f4bc1ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:34 +0000
Subject: [PATCH 23/32] fix: make the AVX2 IDCT round in the same order as the
 scalar one

---
 src/idct/avx2.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/idct/avx2.rs b/src/idct/avx2.rs
index 326e2c0..adc645d 100644
--- a/src/idct/avx2.rs
+++ b/src/idct/avx2.rs
@@ -330,12 +330,8 @@ unsafe fn dequantize_and_idct_int_avx2(
                 };
             }
 
-            transpose(
-                &mut row0, &mut row1, &mut row2, &mut row3, &mut row4, &mut row5, &mut row6,
-                &mut row7,
-            );
-
-            // Process rows
+            // Process columns, like the scalar code does, intermediate values are rounded hence
+            // the order matters.
             dct_pass!(512, 10);
 
             transpose(
@@ -343,10 +339,14 @@ unsafe fn dequantize_and_idct_int_avx2(
                 &mut row7,
             );
 
-            // process columns
+            // process rows
             dct_pass!(SCALE_BITS, 17);
 
             // transpose to original
+            transpose(
+                &mut row0, &mut row1, &mut row2, &mut row3, &mut row4, &mut row5, &mut row6,
+                &mut row7,
+            );
 
             // Pack i32 to i16's,
             // clamp them to be between 0-255
-- 
2.43.0


From d877254822b22ab0b4f5c68e2ec93a379eaf8f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:52 +0000
Subject: [PATCH 24/32] fix: use the quantization table in effect at the first
 scan of a component

Tables defined between the frame header and the scan were ignored (if an
earlier definition existed) or rejected.
---
 src/components.rs |  5 ++++-
 src/headers.rs    | 36 ++++++++++++++++++++----------------
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index e76339a..16ff788 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -31,6 +31,8 @@ pub(crate) struct Components
     pub quantization_table_number: u8,
     /// Specifies quantization table to use with this component
     pub quantization_table:        Aligned32<[i32; 64]>,
+    /// True if `quantization_table` was set, by the first scan of this component
+    pub quantization_table_set:    bool,
     /// dc prediction for the component
     pub dc_pred:                   i32,
     /// An up-sampling function, can be basic or SSE, depending
@@ -101,10 +103,11 @@ impl Components
             vertical_sample,
             horizontal_sample,
             quantization_table_number,
-            // These two will be set with sof marker
+            // These will be set with the sos marker
             dc_huff_table: 0,
             ac_huff_table: 0,
             quantization_table: Aligned32([0; 64]),
+            quantization_table_set: false,
             dc_pred: 0,
             up_sampler: upsample_no_op,
             // set later
diff --git a/src/headers.rs b/src/headers.rs
index cf01d5b..504bd40 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -347,24 +347,10 @@ where
             // not equal to 1.
             img.interleaved = true;
         }
-        // Extract quantization tables from the arrays into components
-        let qt_table = *img.qt_tables[component.quantization_table_number as usize]
-            .as_ref()
-            .ok_or_else(|| {
-                DecodeErrors::DqtError(format!(
-                    "No quantization table for component {:?}",
-                    component.component_id
-                ))
-            })?;
-
-        component.quantization_table = Aligned32(qt_table);
         // initially stride contains its horizontal sub-sampling
         component.width_stride *= img.mcu_x * 8;
     }
 
-    // delete quantization tables, we'll extract them from the components when
-    // needed
-    img.qt_tables = [None, None, None, None];
     img.components = components;
 
     Ok(())
@@ -456,8 +442,26 @@ where
             )));
         }
 
-        image.components[usize::from(j)].dc_huff_table = usize::from((y >> 4) & 0xF);
-        image.components[usize::from(j)].ac_huff_table = usize::from(y & 0xF);
+        let component = &mut image.components[usize::from(j)];
+
+        component.dc_huff_table = usize::from((y >> 4) & 0xF);
+        component.ac_huff_table = usize::from(y & 0xF);
+
+        // The quantization table of a component is the one in effect at its first scan.
+        if !component.quantization_table_set
+        {
+            let qt_table = image.qt_tables[usize::from(component.quantization_table_number)]
+                .ok_or_else(|| {
+                    DecodeErrors::DqtError(format!(
+                        "No quantization table for component {:?}",
+                        component.component_id
+                    ))
+                })?;
+
+            component.quantization_table = Aligned32(qt_table);
+            component.quantization_table_set = true;
+        }
+
         image.z_order[i as usize] = j as usize;
     }
 
-- 
2.43.0


From 09cb34136aa0eda49d5bd42afe0a98a706beaaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:12 +0000
Subject: [PATCH 25/32] fix: decode components of baseline scans in the order
 of the scan header

---
 src/mcu.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 8e7133b..a0a6b10 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -270,8 +270,10 @@ impl Decoder
                         mcus_left -= 1;
                         // iterate over components
 
-                        for pos in 0..self.input_colorspace.num_components()
+                        // in the order the scan header lists them
+                        for k in 0..self.input_colorspace.num_components()
                         {
+                            let pos = self.z_order[k];
                             let component = &mut self.components[pos];
                             let dc_table = self.dc_huffman_tables[component.dc_huff_table & 3]
                                 .as_ref()
-- 
2.43.0


From 384021fa255a2d31607d760d879f691079fdd9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:16 +0000
Subject: [PATCH 26/32] fix: reject out of range DC table selectors in
 progressive scans

---
 src/mcu_prog.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 06a643a..1a49a8c 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -31,7 +31,6 @@ use std::sync::Arc;
 
 use crate::bitstream::BitStream;
 use crate::components::{ComponentID, SubSampRatios};
-use crate::decoder::MAX_COMPONENTS;
 use crate::errors::DecodeErrors;
 use crate::errors::DecodeErrors::Format;
 use crate::headers::parse_sos;
@@ -310,7 +309,7 @@ impl Decoder
 
                     if self.spec_start == 0
                     {
-                        let pos = self.components[k].dc_huff_table & (MAX_COMPONENTS - 1);
+                        let pos = self.components[k].dc_huff_table;
                         let dc_table = self.dc_huffman_tables.get(pos)
                             .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", pos)))?
                             .as_ref()
-- 
2.43.0


From 224cc4199f6ae7b317e3aecb4e98ae0d1a3d00fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:48 +0000
Subject: [PATCH 27/32] fix: DC refinement scans need no Huffman table

---
 src/mcu_prog.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 1a49a8c..9f23046 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -309,19 +309,18 @@ impl Decoder
 
                     if self.spec_start == 0
                     {
-                        let pos = self.components[k].dc_huff_table;
-                        let dc_table = self.dc_huffman_tables.get(pos)
-                            .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", pos)))?
-                            .as_ref()
-                            .ok_or_else(|| DecodeErrors::Format(format!("Huffman table at index  {} not initialized", pos)))?;
-                        let dc_pred = &mut self.components[k].dc_pred;
-
                         if self.succ_high == 0
                         {
+                            let pos = self.components[k].dc_huff_table;
+                            let dc_table = self.dc_huffman_tables.get(pos)
+                                .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", pos)))?
+                                .as_ref()
+                                .ok_or_else(|| DecodeErrors::Format(format!("Huffman table at index  {} not initialized", pos)))?;
+                            let dc_pred = &mut self.components[k].dc_pred;
                             // first scan for this mcu
                             stream.decode_prog_dc_first(reader, dc_table, &mut data[0], dc_pred)?;
                         } else {
-                            // refining scans for this MCU
+                            // refining scans for this MCU, these use no table
                             stream.decode_prog_dc_refine(reader, &mut data[0])?;
                         }
 
@@ -388,11 +387,6 @@ impl Decoder
                         }
 
                         let component = &mut self.components[n];
-                        let huff_table = self.dc_huffman_tables.get(component.dc_huff_table)
-                            .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", component.dc_huff_table)))?
-                            .as_ref()
-                            .ok_or_else(|| DecodeErrors::Format(format!("Huffman table at index  {} not initialized", component.dc_huff_table)))?;
-
                         for v_samp in 0..component.vertical_sample
                         {
                             for h_samp in 0..component.horizontal_sample
@@ -405,6 +399,11 @@ impl Decoder
 
                                 if self.succ_high == 0
                                 {
+                                    let huff_table = self.dc_huffman_tables.get(component.dc_huff_table)
+                                        .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", component.dc_huff_table)))?
+                                        .as_ref()
+                                        .ok_or_else(|| DecodeErrors::Format(format!("Huffman table at index  {} not initialized", component.dc_huff_table)))?;
+
                                     stream.decode_prog_dc_first(reader, huff_table, data, &mut component.dc_pred)?;
                                 } else {
                                     stream.decode_prog_dc_refine(reader, data)?;
-- 
2.43.0


From 4798490d328e3683b5309f154841a31728721bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:26 +0000
Subject: [PATCH 28/32] fix: reject scans with out of range Huffman table
 selectors

---
 src/headers.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/headers.rs b/src/headers.rs
index 504bd40..79fce28 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -442,6 +442,15 @@ where
             )));
         }
 
+        if usize::from(y >> 4) >= MAX_COMPONENTS || usize::from(y & 0xF) >= MAX_COMPONENTS
+        {
+            return Err(DecodeErrors::SosError(format!(
+                "Invalid Huffman table selectors {} and {}, expected between 0 and 3",
+                y >> 4,
+                y & 0xF
+            )));
+        }
+
         let component = &mut image.components[usize::from(j)];
 
         component.dc_huff_table = usize::from((y >> 4) & 0xF);
-- 
2.43.0


From 6160b34fc71f0d8cb55b5107468e744166b68a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:45 +0000
Subject: [PATCH 29/32] fix: a progressive file cut in a scan with restarts is
 an error

---
 src/mcu.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index a0a6b10..abc9bb2 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -417,11 +417,13 @@ impl Decoder
                 self.components.iter_mut().for_each(|x| x.dc_pred = 0);
                 // Start iterating again. from position.
             }
-            Some(Marker::EOI) | None =>
+            Some(Marker::EOI) =>
             {
                 // nothing more to read
                 stream.marker = Some(Marker::EOI);
             }
+            // the data is cut, the end of the image wasn't seen.
+            None => {}
             Some(marker) =>
             {
                 return Err(DecodeErrors::MCUError(format!(
-- 
2.43.0


From a8daaed830a1b3c6902a88285b245a2cf1ed77e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:11 +0000
Subject: [PATCH 30/32] fix: IDCT of corrupt coefficients overflowed in builds
 with overflow checks

---
 src/idct/scalar.rs | 85 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 73 insertions(+), 12 deletions(-)

diff --git a/src/idct/scalar.rs b/src/idct/scalar.rs
index a121cda..99a8859 100644
--- a/src/idct/scalar.rs
+++ b/src/idct/scalar.rs
@@ -1,10 +1,71 @@
 //! Platform independent IDCT algorithm
 //!
 //! Not as fast as AVX one.
+use std::ops::{Add, AddAssign, Mul, MulAssign, Shr, Sub};
+
 use crate::misc::Aligned32;
 
 const SCALE_BITS: i32 = 512 + 65536 + (128 << 17);
 
+/// An integer which wraps on overflow.
+///
+/// Coefficients of corrupt images may be too large for the calculations below,
+/// they should neither panic nor differ from the vectorized ones.
+#[derive(Copy, Clone)]
+struct Int(i32);
+
+macro_rules! wrapping_op {
+    ($name:ident,$func:ident,$wrapping:ident) => {
+        impl $name for Int
+        {
+            type Output = Int;
+            #[inline]
+            fn $func(self, rhs: Int) -> Int
+            {
+                Int(self.0.$wrapping(rhs.0))
+            }
+        }
+        impl $name<i32> for Int
+        {
+            type Output = Int;
+            #[inline]
+            fn $func(self, rhs: i32) -> Int
+            {
+                Int(self.0.$wrapping(rhs))
+            }
+        }
+    };
+}
+wrapping_op!(Add, add, wrapping_add);
+wrapping_op!(Sub, sub, wrapping_sub);
+wrapping_op!(Mul, mul, wrapping_mul);
+
+impl AddAssign for Int
+{
+    #[inline]
+    fn add_assign(&mut self, rhs: Int)
+    {
+        *self = *self + rhs;
+    }
+}
+impl MulAssign<i32> for Int
+{
+    #[inline]
+    fn mul_assign(&mut self, rhs: i32)
+    {
+        *self = *self * rhs;
+    }
+}
+impl Shr<i32> for Int
+{
+    type Output = Int;
+    #[inline]
+    fn shr(self, rhs: i32) -> Int
+    {
+        Int(self.0 >> rhs)
+    }
+}
+
 /// Perform Integer IDCT
 /// and level shift (by adding 128 to each element)
 /// This is a modified version of one in [`stbi_image.h`]
@@ -25,7 +86,7 @@ pub fn dequantize_and_idct_int(
 
     let mut out_vector = vec![0; vector.len()];
 
-    let mut tmp = [0; 64];
+    let mut tmp = [Int(0); 64];
 
     let chunks = vector.len() * v_samp / samp_factors;
     // calculate position
@@ -84,7 +145,7 @@ pub fn dequantize_and_idct_int(
 
                     let p3 = dequantize(vector[ptr + 48], qt_table.0[ptr + 48]);
 
-                    let p1 = (p2 + p3).wrapping_mul(2217);
+                    let p1 = (p2 + p3) * 2217;
 
                     let t2 = p1 + p3 * -7567;
 
@@ -225,13 +286,13 @@ pub fn dequantize_and_idct_int(
 
                     let p5 = (p3 + p4) * f2f(1.175875602);
 
-                    t0 = t0.wrapping_mul(1223);
+                    t0 *= 1223;
 
-                    t1 = t1.wrapping_mul(8410);
+                    t1 *= 8410;
 
-                    t2 = t2.wrapping_mul(12586);
+                    t2 *= 12586;
 
-                    t3 = t3.wrapping_mul(6149);
+                    t3 *= 6149;
 
                     let p1 = p5 + p1 * -3685;
 
@@ -293,21 +354,21 @@ fn f2f(x: f32) -> i32
 
 #[inline]
 /// Multiply a number by 4096
-fn fsh(x: i32) -> i32
+fn fsh(x: Int) -> Int
 {
-    x << 12
+    Int(x.0 << 12)
 }
 
 /// Clamp values between 0 and 255
 #[inline]
 #[allow(clippy::cast_possible_truncation)]
-fn clamp(a: i32) -> i16
+fn clamp(a: Int) -> i16
 {
-    a.max(0).min(255) as i16
+    a.0.max(0).min(255) as i16
 }
 
 #[inline]
-fn dequantize(a: i16, b: i32) -> i32
+fn dequantize(a: i16, b: i32) -> Int
 {
-    i32::from(a) * b
+    Int(i32::from(a) * b)
 }
-- 
2.43.0


From b0733d67d4f397f9d1f783bbb13b641c843a818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:50 +0000
Subject: [PATCH 31/32] fix: refining a corrupt coefficient overflowed in
 builds with overflow checks

---
 src/bitstream.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index 9bdbe2a..2cdf43f 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -575,11 +575,11 @@ impl BitStream
                         {
                             if *coefficient >= 0
                             {
-                                *coefficient += bit;
+                                *coefficient = coefficient.wrapping_add(bit);
                             }
                             else
                             {
-                                *coefficient -= bit;
+                                *coefficient = coefficient.wrapping_sub(bit);
                             }
                         }
 
@@ -636,11 +636,11 @@ impl BitStream
                         {
                             if *coefficient >= 0
                             {
-                                *coefficient += bit;
+                                *coefficient = coefficient.wrapping_add(bit);
                             }
                             else
                             {
-                                *coefficient -= bit;
+                                *coefficient = coefficient.wrapping_sub(bit);
                             }
                         }
                     }
-- 
2.43.0


From 5f77d326a8d45e160488aaa0903a35834c19d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:26 +0000
Subject: [PATCH 32/32] fix: report unsupported coding processes as such

Every SOFn byte is a frame header marker; the unsupported ones yield
DecodeErrors::Unsupported naming the process instead of being skipped
as unknown segments or read with a wrong offset.
---
 src/decoder.rs  | 2 +-
 src/marker.rs   | 3 +--
 src/mcu_prog.rs | 5 +++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index f2e8fb8..2bec497 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -338,7 +338,7 @@ impl Decoder
             // Start of Frame Segments not supported
             Marker::SOF(v) =>
             {
-                let feature = UnsupportedSchemes::from_int(v);
+                let feature = UnsupportedSchemes::from_int(0xC0 + v);
 
                 if let Some(feature) = feature
                 {
diff --git a/src/marker.rs b/src/marker.rs
index 0e604f8..9e28d1e 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -52,8 +52,7 @@ impl Marker
         match n
         {
             0xFE => Some(COM),
-            0xC0 => Some(SOF(0)),
-            0xC2 => Some(SOF(2)),
+            0xC0..=0xC3 | 0xC5..=0xC7 | 0xC9..=0xCB | 0xCD..=0xCF => Some(SOF(n - 0xC0)),
             0xC4 => Some(DHT),
             0xCC => Some(DAC),
             0xD0 => Some(RST(0)),
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 9f23046..02d31d6 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -143,9 +143,10 @@ impl Decoder
                         stream.reset();
                         continue 'eoi;
                     }
-                Marker::DHT | Marker::DQT | Marker::DRI | Marker::COM | Marker::APP(_) =>
+                Marker::DHT | Marker::DQT | Marker::DRI | Marker::COM | Marker::APP(_) | Marker::SOF(_) =>
                     {
-                        // tables and miscellaneous segments may precede every scan.
+                        // tables and miscellaneous segments may precede every scan,
+                        // another frame is an error.
                         self.parse_marker_inner(marker, reader)?;
                     }
                 _ =>
-- 
2.43.0

