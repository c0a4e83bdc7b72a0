From a51f257700864f4b73345737fbac6ec5b3ba36cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 01/22] fix: report write errors for the last buffered bytes in
 encode_to_file

---
 d10-codecs/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index 87dac10..52693d5 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -248,7 +248,12 @@ where
 
     let mut w = BufWriter::new(File::create(path)?);
 
-    encode(&mut w, buffer, format)
+    encode(&mut w, buffer, format)?;
+
+    // Dropping the writer would ignore errors while writing the remaining bytes
+    w.flush()?;
+
+    Ok(())
 }
 
 pub fn encode<W>(
-- 
2.43.0


From 7c75f491e1f8263ae326b9a6f5dd548cb433a01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 02/22] fix: report errors while writing the end of a png file

---
 d10-codecs/src/png.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/d10-codecs/src/png.rs b/d10-codecs/src/png.rs
index 4731f9a..f83fa9f 100644
--- a/d10-codecs/src/png.rs
+++ b/d10-codecs/src/png.rs
@@ -162,6 +162,7 @@ where
 
     let mut writer = encoder.write_header().map_err(encode_error)?;
     writer.write_image_data(&out).map_err(encode_error)?;
+    writer.finish().map_err(encode_error)?;
 
     Ok(())
 }
-- 
2.43.0


From 995743b7de9fadeb7f6373e096da07fa0b7955bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 03/22] fix: report errors while writing the trailer of a gif
 file

---
 d10-codecs/src/gif.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index 1c2277d..1240e38 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -43,6 +43,7 @@ where
     let mut encoder = Encoder::new(w, frame.width, frame.height, &[]).map_err(encode_error)?;
 
     encoder.write_frame(&frame).map_err(encode_error)?;
+    encoder.into_inner()?;
 
     Ok(())
 }
-- 
2.43.0


From a6edb4d510a0d8b56e5f41ef85593fa09c4307ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 04/22] fix: encode 16 bit grayscale samples as u16 instead of
 f32

---
 d10-codecs/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 51d8329..50cc3a3 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -92,7 +92,7 @@ pub(crate) fn to_l16_be_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
 
     for color in buffer.data().iter() {
         let color = color.to_gray().to_srgb();
-        out.extend_from_slice(&color.red().to_be_bytes());
+        out.extend_from_slice(&as_u16(color.red()).to_be_bytes());
     }
 
     out
-- 
2.43.0


From 9fd0535be1a5ff6a2cf9e67d9070ae8f9d1c031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 05/22] fix: decode 16 bit rgb images without alpha channel as
 opaque

---
 d10-codecs/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 50cc3a3..96d965d 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -202,7 +202,7 @@ pub fn read_into_buffer(img: DynamicImage) -> Result<PixelBuffer<Rgb>, DecodingE
                         f32::from(pixel[0]) / 65535.0,
                         f32::from(pixel[1]) / 65535.0,
                         f32::from(pixel[2]) / 65535.0,
-                        0.0,
+                        1.0,
                     ],
                 }
                 .to_rgb()
-- 
2.43.0


From 342747f49e9f54ff1aa846b96a6e8abeb2a612f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 06/22] fix: scale cmyk samples to the full 0.0 to 1.0 range

---
 d10-codecs/src/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 96d965d..70f85a2 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -315,9 +315,9 @@ pub fn cmyk_to_rgb(c: u8, m: u8, y: u8, k: u8) -> Rgb {
     let y = 255.0 - y as f32;
     let k = 255.0 - k as f32;
 
-    let r = c * k / 65536.0;
-    let g = m * k / 65536.0;
-    let b = y * k / 65536.0;
+    let r = c * k / 65025.0;
+    let g = m * k / 65025.0;
+    let b = y * k / 65025.0;
 
     Srgb::new(r, g, b).to_rgb()
 }
-- 
2.43.0


From bb1309e23dcffcaab1f5d269de3fd6b2fd692d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 07/22] fix: use a valid level for the lossless webp preset

---
 d10-codecs/src/webp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/webp.rs b/d10-codecs/src/webp.rs
index 1b08a44..8c54ddd 100644
--- a/d10-codecs/src/webp.rs
+++ b/d10-codecs/src/webp.rs
@@ -149,7 +149,12 @@ where
             WebPPreset::Lossless => {
                 let mut config = WebPConfig::new();
                 if let Ok(config) = &mut config {
-                    WebPConfigLosslessPreset(config, 100);
+                    // Valid levels are between 0 and 9
+                    if WebPConfigLosslessPreset(config, 9) == 0 {
+                        return Err(EncodingError::Encoding(
+                            "Unable to init webp lossless preset".to_owned(),
+                        ));
+                    }
                 }
                 config
             }
-- 
2.43.0


From 01bd99e3678718bd13e8bf941a3daa15ddaaa9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 08/22] fix: return an error for jpeg files exceeding the
 maximum buffer size

---
 d10-codecs/src/jpeg.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/d10-codecs/src/jpeg.rs b/d10-codecs/src/jpeg.rs
index 7000557..9973a3c 100644
--- a/d10-codecs/src/jpeg.rs
+++ b/d10-codecs/src/jpeg.rs
@@ -1,6 +1,6 @@
 use d10_core::color::{Color, Rgb, Srgb};
 use d10_core::errors::ParseEnumError;
-use d10_core::pixelbuffer::PixelBuffer;
+use d10_core::pixelbuffer::{is_valid_buffer_size, PixelBuffer};
 
 use std::io::{BufRead, Read, Seek, Write};
 use std::str::FromStr;
@@ -169,16 +169,20 @@ where
     }
 }
 
+fn decode_error(err: DecoderError) -> DecodingError {
+    match err {
+        DecoderError::Io(err) => DecodingError::IoError(err),
+        err => DecodingError::Decoding(err.to_string()),
+    }
+}
+
 pub(crate) fn decode_jpeg<T>(reader: T) -> Result<DecodedImage, DecodingError>
 where
     T: Read + Seek + BufRead,
 {
     let mut decoder = Decoder::new(reader);
 
-    let data = decoder.decode().map_err(|err| match err {
-        DecoderError::Io(err) => DecodingError::IoError(err),
-        err => DecodingError::Decoding(err.to_string()),
-    })?;
+    decoder.read_info().map_err(decode_error)?;
 
     let info = decoder
         .info()
@@ -187,6 +191,12 @@ where
     let width = info.width as u32;
     let height = info.height as u32;
 
+    if !is_valid_buffer_size(width, height) {
+        return Err(DecodingError::InvalidBufferSize { width, height });
+    }
+
+    let data = decoder.decode().map_err(decode_error)?;
+
     let data = match info.pixel_format {
         PixelFormat::L8 => data
             .iter()
-- 
2.43.0


From 4ec31905c6d431d3caa0719e1c0ce38020fa2893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 09/22] fix: keep alpha in Rgb::with_vibrance

---
 d10-core/src/color/rgb.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/d10-core/src/color/rgb.rs b/d10-core/src/color/rgb.rs
index 58eafbb..011402d 100644
--- a/d10-core/src/color/rgb.rs
+++ b/d10-core/src/color/rgb.rs
@@ -278,7 +278,13 @@ impl Rgb {
 
         let s = s + (s * std::f32::consts::PI).sin() * scale;
 
-        Hsl::new(hsl.hue(), s.min(1.0).max(0.0), hsl.lightness()).to_rgb()
+        Hsl::new_with_alpha(
+            hsl.hue(),
+            s.min(1.0).max(0.0),
+            hsl.lightness(),
+            hsl.alpha(),
+        )
+        .to_rgb()
     }
 
     pub fn with_sepia(&self) -> Rgb {
-- 
2.43.0


From a7ced06a923658c0673961d59d800e04363725c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 10/22] fix: seal the Color trait against implementations in
 other crates

---
 d10-core/src/color/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/d10-core/src/color/mod.rs b/d10-core/src/color/mod.rs
index 61e200e..2e3f581 100644
--- a/d10-core/src/color/mod.rs
+++ b/d10-core/src/color/mod.rs
@@ -365,12 +365,17 @@ pub(crate) fn apply_matrix_clamped(color: &[f32; 4], matrix: &[[f32; 3]; 3]) ->
 }
 
 mod private {
-    use crate::color::Color;
-
     // Using a private to make it impossible for other crates to implement their own color type
     pub trait Sealed {}
 
-    impl<T: Color> Sealed for T {}
+    impl Sealed for crate::color::Rgb {}
+    impl Sealed for crate::color::Srgb {}
+    impl Sealed for crate::color::Hsl {}
+    impl Sealed for crate::color::Hsv {}
+    impl Sealed for crate::color::Yuv {}
+    impl Sealed for crate::color::Xyz {}
+    impl<I: crate::color::Illuminant, O: crate::color::Observer> Sealed for crate::color::Lab<I, O> {}
+    impl<I: crate::color::Illuminant, O: crate::color::Observer> Sealed for crate::color::Lch<I, O> {}
 }
 
 #[cfg(test)]
-- 
2.43.0


From 39210be4b6269c923431d10d57121fd2ea9e66b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:00 +0000
Subject: [PATCH 11/22] fix: import four channel lch numpy arrays as lch

---
 d10-python/src/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 1df7e4f..3630d78 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -953,7 +953,7 @@ mod numpy_helper {
                         .collect(),
                     "lcha" | "lch" => chunked::<4>(&mut iter)
                         .map(|chunk| {
-                            D10LabD65O2::new_with_alpha(chunk[0], chunk[1], chunk[2], chunk[3])
+                            D10LchD65O2::new_with_alpha(chunk[0], chunk[1], chunk[2], chunk[3])
                                 .to_rgb()
                         })
                         .collect(),
-- 
2.43.0


From 012cc9d61c54cabe0c5145f7475089f3efefe25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:00 +0000
Subject: [PATCH 12/22] fix: return an error for numpy arrays with less than
 two dimensions

---
 d10-python/src/image.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 3630d78..fb2863f 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -909,6 +909,13 @@ mod numpy_helper {
         mut iter: I,
         colorspace: Option<&str>,
     ) -> PyResult<Image> {
+        if ndims != 2 && ndims != 3 {
+            return Err(PyOSError::new_err(format!(
+                "Bad number of dimensions: {}",
+                ndims
+            )));
+        }
+
         let width = dims[1];
         let height = dims[0];
 
@@ -1012,7 +1019,7 @@ mod numpy_helper {
                     dims[2]
                 )));
             }
-        } else if ndims == 2 {
+        } else {
             if colorspace != "gray" && colorspace != "auto" {
                 return Err(PyOSError::new_err(format!(
                     "Bad colorspace {} for dimensions: {}",
@@ -1021,11 +1028,6 @@ mod numpy_helper {
             }
             iter.map(|value| D10Rgb::new_with_alpha(value, value, value, 1.0))
                 .collect()
-        } else {
-            return Err(PyOSError::new_err(format!(
-                "Bad number of dimensions: {}",
-                ndims
-            )));
         };
 
         assert!(width * height == data.len());
-- 
2.43.0


From f27b85af722dbc519342444b20854669dad423b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:00 +0000
Subject: [PATCH 13/22] fix: import true values of bool numpy arrays as one

---
 d10-python/src/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index fb2863f..078648d 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -683,7 +683,7 @@ impl Image {
                         .readonly()
                         .as_array()
                         .iter()
-                        .map(|v| if *v { 0.0f32 } else { 1.0f32 }),
+                        .map(|v| if *v { 1.0f32 } else { 0.0f32 }),
                     colorspace,
                 )
             }
-- 
2.43.0


From e197b93735e25f643290f908a340f04d9cfb2b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 14/22] fix: import numpy arrays of all supported data types

---
 d10-python/src/image.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 078648d..dd1a729 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -12,7 +12,7 @@ use d10::{
 #[cfg(feature = "numpy")]
 use {
     d10::Color,
-    numpy::{PyArray, PyArrayDyn},
+    numpy::{IxDyn, PyArray, PyArrayDyn, PyUntypedArray},
     numpy_helper::*,
 };
 
@@ -644,27 +644,23 @@ impl Image {
     #[cfg(feature = "numpy")]
     #[staticmethod]
     pub fn from_np_array(array: &PyAny, colorspace: Option<&str>) -> PyResult<Image> {
-        /* WARNING: In order to find out what data type this numpy array has, we
-         *         blindly cast it into a f32 one, which might result into an
-         *         array with broken data. This seems to be "save" on the rust side
-         *         but might still cause undefined behavior...
-         */
-        //TODO: Find a way to not use this hackish way to do it
+        let untyped: &PyUntypedArray = array.downcast()?;
 
-        let py_array: &PyArrayDyn<f32> = array.downcast()?;
+        let data_type = extract_data_type(Some(untyped.dtype().typeobj()))?;
 
-        let data_type = extract_data_type(Some(py_array.dtype().typeobj()))?;
-
-        let ndims = py_array.ndim();
-        let dims = py_array.dims();
+        let ndims = untyped.ndim();
+        let dims = IxDyn(untyped.shape());
 
         match data_type {
-            DataType::Float32 => from_np_array_iter(
-                ndims,
-                dims,
-                py_array.readonly().as_array().iter().copied(),
-                colorspace,
-            ),
+            DataType::Float32 => {
+                let py_array: &PyArrayDyn<f32> = array.downcast()?;
+                from_np_array_iter(
+                    ndims,
+                    dims,
+                    py_array.readonly().as_array().iter().copied(),
+                    colorspace,
+                )
+            }
             DataType::Float64 => {
                 let py_array: &PyArrayDyn<f64> = array.downcast()?;
                 from_np_array_iter(
-- 
2.43.0


From b43457585712a0540a421d0ea9135d8f64e00f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 15/22] fix: return hue 0 instead of NaN when converting gray
 colors to hsv

---
 d10-core/src/color/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-core/src/color/mod.rs b/d10-core/src/color/mod.rs
index 2e3f581..3fa497d 100644
--- a/d10-core/src/color/mod.rs
+++ b/d10-core/src/color/mod.rs
@@ -119,7 +119,7 @@ pub trait Color:
 
         let delta = max - min;
 
-        if delta >= EPSILON || max >= EPSILON {
+        if delta >= EPSILON && max >= EPSILON {
             saturation = delta / max;
 
             if red >= max {
-- 
2.43.0


From 705dabe23cd0d1786c429352f2334c19025ecc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 16/22] fix: change_color_temperature divided by zero for
 temperatures without a blue part

Black pixels became NaN (0 * inf) for target temperatures below 1900K.
---
 d10-ops/src/temperature.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/d10-ops/src/temperature.rs b/d10-ops/src/temperature.rs
index 0a078c5..d526ed0 100644
--- a/d10-ops/src/temperature.rs
+++ b/d10-ops/src/temperature.rs
@@ -54,10 +54,11 @@ fn calculate_factors(orig_temp: f32, new_temp: f32) -> [f32; 3] {
     let orig = convert_kelvin_to_rgb(orig_temp);
     let new = convert_kelvin_to_rgb(new_temp);
 
+    // Very low temperatures don't contain any blue
     [
-        orig.data()[0] / new.data()[0],
-        orig.data()[1] / new.data()[1],
-        orig.data()[2] / new.data()[2],
+        orig.data()[0] / new.data()[0].max(f32::EPSILON),
+        orig.data()[1] / new.data()[1].max(f32::EPSILON),
+        orig.data()[2] / new.data()[2].max(f32::EPSILON),
     ]
 }
 
-- 
2.43.0


From 32202ff9e0138b38fcb9be7b97c2692d3e243374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 17/22] fix: despeckle divided by zero for areas without bright
 pixels

An amount of 9 or more turned uniformly dark areas into NaN.
---
 d10-ops/src/despeckle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-ops/src/despeckle.rs b/d10-ops/src/despeckle.rs
index beac5ba..15f7a88 100644
--- a/d10-ops/src/despeckle.rs
+++ b/d10-ops/src/despeckle.rs
@@ -14,7 +14,8 @@ pub fn despeckle(img: &PixelBuffer<Rgb>, threshold: f32, amount: u8) -> PixelBuf
                 }
             }
 
-            if count <= amount {
+            // There is nothing to average without bright pixels in the neighborhood
+            if count <= amount && count < 9 {
                 let mut data = [0f32; 3];
 
                 for c in k.iter().flat_map(|row| row.iter()) {
-- 
2.43.0


From 658a40e761c20066764e2095ffcba74a365a08b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 18/22] fix: symmetric_nearest_neighbor divided by zero for
 radius 0 without center

---
 d10-ops/src/symmetric_nearest_neighbor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/d10-ops/src/symmetric_nearest_neighbor.rs b/d10-ops/src/symmetric_nearest_neighbor.rs
index 14c779f..0c0f2f1 100644
--- a/d10-ops/src/symmetric_nearest_neighbor.rs
+++ b/d10-ops/src/symmetric_nearest_neighbor.rs
@@ -51,6 +51,10 @@ pub fn symmetric_nearest_neighbor(
             }
         }
 
+        if len == 0.0 {
+            return *center;
+        }
+
         for c in &colors {
             for (i, value) in accumulate.iter_mut().enumerate() {
                 *value += c.data[i];
-- 
2.43.0


From adbfa1f04d5d7e1008b535ccf0d9fe11bd6b7a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 19/22] fix: gaussian kernels with a sigma of zero contained
 NaN

This is also the default sigma of gaussian_blur and unsharp for radius 0.
---
 d10-core/src/kernel.rs     | 3 ++-
 d10-core/src/kernel_dyn.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/d10-core/src/kernel.rs b/d10-core/src/kernel.rs
index 115b467..1cbb79e 100644
--- a/d10-core/src/kernel.rs
+++ b/d10-core/src/kernel.rs
@@ -35,7 +35,8 @@ impl<const N: usize> Kernel<N> {
             let size = N as isize;
             let offset = size / 2;
 
-            let s = 2.0 * sigma * sigma;
+            // A sigma of zero results in an identity kernel
+            let s = (2.0 * sigma * sigma).max(f32::EPSILON);
 
             let mut sum = 0.0;
 
diff --git a/d10-core/src/kernel_dyn.rs b/d10-core/src/kernel_dyn.rs
index 36d2e67..4adb3a2 100644
--- a/d10-core/src/kernel_dyn.rs
+++ b/d10-core/src/kernel_dyn.rs
@@ -45,7 +45,8 @@ impl KernelDyn {
             let size = size as isize;
             let offset = size / 2;
 
-            let s = 2.0 * sigma * sigma;
+            // A sigma of zero results in an identity kernel
+            let s = (2.0 * sigma * sigma).max(f32::EPSILON);
 
             let mut sum = 0.0;
 
-- 
2.43.0


From d8fc3ac99ff2de2167ce6d05eaa6df982ab47b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 20/22] fix: optimize_saturation raised a saturation of zero to
 a negative power

Gray pixels became NaN for offsets below -2/3.
---
 d10-ops/src/saturation.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/d10-ops/src/saturation.rs b/d10-ops/src/saturation.rs
index ba162f3..c96bbe6 100644
--- a/d10-ops/src/saturation.rs
+++ b/d10-ops/src/saturation.rs
@@ -73,6 +73,12 @@ fn avg_saturation(buffer: &PixelBuffer<Rgb>, mode: SaturationMode) -> f32 {
 
 fn saturate_hsl(c: &Rgb, gamma: f32) -> Rgb {
     let hsl = c.to_hsl();
+
+    // Gray stays gray
+    if hsl.saturation() <= 0.0 {
+        return *c;
+    }
+
     let pow = get_gamma_pow(gamma, hsl.lightness());
 
     Hsl {
@@ -88,6 +94,12 @@ fn saturate_hsl(c: &Rgb, gamma: f32) -> Rgb {
 
 fn saturate_hsv(c: &Rgb, gamma: f32) -> Rgb {
     let hsv = c.to_hsv();
+
+    // Gray stays gray
+    if hsv.saturation() <= 0.0 {
+        return *c;
+    }
+
     let pow = get_gamma_pow(gamma, hsv.value());
 
     Hsv {
-- 
2.43.0


From f9c29b4e5d86d739d675fb6923cb77ffaf8159a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 21/22] fix: optimize_saturation raised a chroma of zero to a
 negative power

---
 d10-ops/src/saturation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/d10-ops/src/saturation.rs b/d10-ops/src/saturation.rs
index c96bbe6..9f02e32 100644
--- a/d10-ops/src/saturation.rs
+++ b/d10-ops/src/saturation.rs
@@ -115,6 +115,12 @@ fn saturate_hsv(c: &Rgb, gamma: f32) -> Rgb {
 
 fn saturate_lch(c: &Rgb, gamma: f32) -> Rgb {
     let lch = c.to_lch::<D65, O2>();
+
+    // Gray stays gray
+    if lch.c() <= 0.0 {
+        return *c;
+    }
+
     let pow = get_gamma_pow(gamma, lch.l());
 
     Lch::<D65, O2>::new_with_alpha(
-- 
2.43.0


From a3a6f2e535f7499460778871e9f5d4280f219507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 22/22] fix: return read errors when probing the format of a
 file

decode_file fell back to the file extension when reading the header failed,
so opening e.g. a directory reported an unknown format.
---
 d10-codecs/src/lib.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index 52693d5..dc1caf0 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -203,12 +203,13 @@ where
     let path = path.as_ref();
     let file = File::open(path)?;
     let mut reader = BufReader::new(file);
-    if let Ok(format) = Format::from_reader(&mut reader) {
-        decode(reader, format)
-    } else if let Some(format) = Format::from_path(path) {
-        decode(reader, format)
-    } else {
-        Err(DecodingError::UnknownFormat)
+    match Format::from_reader(&mut reader) {
+        Ok(format) => decode(reader, format),
+        Err(DecodingError::IoError(err)) => Err(err.into()),
+        Err(_) => match Format::from_path(path) {
+            Some(format) => decode(reader, format),
+            None => Err(DecodingError::UnknownFormat),
+        },
     }
 }
 
-- 
2.43.0

