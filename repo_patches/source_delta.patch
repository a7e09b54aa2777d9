From 73540e320d37ef02617eab4c8a281e315b1ffea8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:04:07 +0000
Subject: [PATCH 01/22] fix: cloned Image must not point into pixels owned by
 the original

---
 src/rows.rs   | 5 +++--
 src/seacow.rs | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rows.rs b/src/rows.rs
index 80254a1..2b48b8b 100644
--- a/src/rows.rs
+++ b/src/rows.rs
@@ -51,11 +51,12 @@ impl Clone for DynamicRows<'_, '_> {
             height: self.height,
             f_pixels: self.f_pixels.clone(),
             pixels: match &self.pixels {
-                PixelsSource::Pixels { rows, pixels } => PixelsSource::Pixels {
+                // row pointers can be shared only if they don't point into memory owned by this object
+                PixelsSource::Pixels { rows, pixels } if rows.as_slice().is_empty() || pixels.as_ref().map_or(true, |p| p.is_borrowed()) => PixelsSource::Pixels {
                     rows: rows.clone(),
                     pixels: pixels.clone(),
                 },
-                PixelsSource::Callback(_) => {
+                PixelsSource::Pixels { .. } | PixelsSource::Callback(_) => {
                     let area = self.width as usize * self.height as usize;
                     let mut out = Vec::with_capacity(area);
                     let out_rows = out.spare_capacity_mut()[..area].chunks_exact_mut(self.width as usize);
diff --git a/src/seacow.rs b/src/seacow.rs
index 3914ba4..dbe87c2 100644
--- a/src/seacow.rs
+++ b/src/seacow.rs
@@ -97,6 +97,11 @@ impl<T> Drop for SeaCowInner<'_, T> {
 }
 
 impl<T> SeaCow<'_, T> {
+    #[must_use]
+    pub const fn is_borrowed(&self) -> bool {
+        matches!(self.inner, SeaCowInner::Borrowed(_))
+    }
+
     #[must_use]
     pub fn as_slice(&self) -> &[T] {
         match &self.inner {
-- 
2.43.0


From f378438b39aba0c9b1303b6bfc9b02a7cf143a18 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:04:22 +0000
Subject: [PATCH 02/22] fix: dithered remapping must not overwrite user's
 importance map

---
 src/image.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 9c17ed9..41a34d6 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -243,10 +243,7 @@ impl<'pixels> Image<'pixels> {
             return Ok(()); // shrug
         }
 
-        let noise = if let Some(n) = self.importance_map.as_deref_mut() { n } else {
-            let vec = try_zero_vec(width * height)?;
-            self.importance_map.get_or_insert_with(move || vec.into_boxed_slice())
-        };
+        let mut noise = try_zero_vec(width * height)?;
 
         let edges = if let Some(e) = self.edges.as_mut() { e } else {
             let vec = try_zero_vec(width * height)?;
@@ -289,18 +286,22 @@ impl<'pixels> Image<'pixels> {
         }
         // noise areas are shrunk and then expanded to remove thin edges from the map
         let mut tmp = try_zero_vec(width * height)?;
-        liq_max3(noise, &mut tmp, width, height);
-        liq_max3(&tmp, noise, width, height);
-        liq_blur(noise, &mut tmp, width, height, 3);
-        liq_max3(noise, &mut tmp, width, height);
-        liq_min3(&tmp, noise, width, height);
-        liq_min3(noise, &mut tmp, width, height);
-        liq_min3(&tmp, noise, width, height);
+        liq_max3(&noise, &mut tmp, width, height);
+        liq_max3(&tmp, &mut noise, width, height);
+        liq_blur(&mut noise, &mut tmp, width, height, 3);
+        liq_max3(&noise, &mut tmp, width, height);
+        liq_min3(&tmp, &mut noise, width, height);
+        liq_min3(&noise, &mut tmp, width, height);
+        liq_min3(&tmp, &mut noise, width, height);
         liq_min3(edges, &mut tmp, width, height);
         liq_max3(&tmp, edges, width, height);
-        for (edges, noise) in edges.iter_mut().zip(noise) {
+        for (edges, noise) in edges.iter_mut().zip(&noise) {
             *edges = (*noise).min(*edges);
         }
+        // don't overwrite map set by the user
+        if self.importance_map.is_none() {
+            self.importance_map = Some(noise.into_boxed_slice());
+        }
         Ok(())
     }
 
-- 
2.43.0


From f43b98752ca56baed00b185fca345ff84d592766 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:04:22 +0000
Subject: [PATCH 03/22] fix: set_output_gamma must reject NaN and invalidate
 cached palette

---
 src/quant.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quant.rs b/src/quant.rs
index be31257..2e299dd 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -144,11 +144,13 @@ impl QuantizationResult {
 
     /// The default is sRGB gamma (~1/2.2)
     pub fn set_output_gamma(&mut self, value: f64) -> Result<(), Error> {
-        if value <= 0. || value >= 1. {
+        // negated, so that NaN is rejected too
+        if !(value > 0. && value < 1.) {
             return Err(ValueOutOfRange);
         }
 
         self.remapped = None;
+        self.int_palette.count = 0; // colors cached for the old gamma
         self.gamma = value;
 
         Ok(())
-- 
2.43.0


From 9492e35ebb171a2e66be6223371597ea46fa781d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:05:00 +0000
Subject: [PATCH 04/22] fix: C API setters must not truncate out-of-range
 values to 8 bits

---
 imagequant-sys/src/ffi.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 42bde26..509bc3a 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -234,7 +234,8 @@ pub extern "C" fn liq_get_max_colors(attr: &liq_attr) -> c_uint {
 #[inline(never)]
 pub extern "C" fn liq_set_min_posterization(attr: &mut liq_attr, bits: c_int) -> liq_error {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
-    attr.inner.set_min_posterization(bits as u8).err().unwrap_or(LIQ_OK)
+    let Ok(bits) = bits.try_into() else { return Error::ValueOutOfRange };
+    attr.inner.set_min_posterization(bits).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
@@ -261,7 +262,8 @@ pub extern "C" fn liq_get_speed(attr: &liq_attr) -> c_uint {
 #[inline(never)]
 pub extern "C" fn liq_set_quality(attr: &mut liq_attr, minimum: c_uint, target: c_uint) -> liq_error {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
-    attr.inner.set_quality(minimum as u8, target as u8).err().unwrap_or(LIQ_OK)
+    let (Ok(minimum), Ok(target)) = (minimum.try_into(), target.try_into()) else { return Error::ValueOutOfRange };
+    attr.inner.set_quality(minimum, target).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
-- 
2.43.0


From a12004ce66514135043af5b596b32b22dae8969b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:05:00 +0000
Subject: [PATCH 05/22] fix: check for NULL attr in liq_set_speed and
 liq_image_create_custom

---
 imagequant-sys/src/ffi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 509bc3a..6b10b28 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -248,6 +248,7 @@ pub extern "C" fn liq_get_min_posterization(attr: &liq_attr) -> c_uint {
 #[no_mangle]
 #[inline(never)]
 pub extern "C" fn liq_set_speed(attr: &mut liq_attr, speed: c_int) -> liq_error {
+    if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
     attr.inner.set_speed(speed).err().unwrap_or(LIQ_OK)
 }
 
@@ -571,6 +572,7 @@ pub(crate) fn check_image_size(attr: &liq_attr, width: u32, height: u32) -> bool
 #[inline(never)]
 pub unsafe extern "C" fn liq_image_create_custom(attr: &liq_attr, row_callback: liq_image_get_rgba_row_callback, user_info: AnySyncSendPtr, width: c_uint, height: c_uint, gamma: f64)
  -> Option<Box<liq_image<'static>>> {
+    if bad_object!(attr, LIQ_ATTR_MAGIC) { return None; }
     let cb: Box<dyn Fn(&mut [MaybeUninit<RGBA>], usize) + Send + Sync> = Box::new(move |row, y| row_callback(row.as_mut_ptr(), y as _, row.len() as _, user_info));
     liq_image_create_custom_impl(&attr.inner, cb, width as _, height as _, gamma)
         .map(move |inner| Box::new(liq_image {
-- 
2.43.0


From 819073f31e2cc24e8be1775d54e368d30d89b00e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:05:00 +0000
Subject: [PATCH 06/22] fix: NULL callback clears the callback in the C API, as
 documented

---
 imagequant-sys/src/ffi.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 6b10b28..f1a4ee5 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -176,16 +176,24 @@ unsafe impl Sync for AnySyncSendPtr {}
 
 #[no_mangle]
 #[inline(never)]
-pub unsafe extern "C" fn liq_attr_set_progress_callback(attr: &mut liq_attr, callback: liq_progress_callback_function, user_info: AnySyncSendPtr) {
+pub unsafe extern "C" fn liq_attr_set_progress_callback(attr: &mut liq_attr, callback: Option<liq_progress_callback_function>, user_info: AnySyncSendPtr) {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return; }
+    let Some(callback) = callback else {
+        attr.inner.set_progress_callback(|_| ControlFlow::Continue);
+        return;
+    };
     let cb = move |f| if callback(f, user_info) == 0 { ControlFlow::Break} else { ControlFlow::Continue};
     attr.inner.set_progress_callback(cb);
 }
 
 #[no_mangle]
 #[inline(never)]
-pub unsafe extern "C" fn liq_result_set_progress_callback(result: &mut liq_result, callback: liq_progress_callback_function, user_info: AnySyncSendPtr) {
+pub unsafe extern "C" fn liq_result_set_progress_callback(result: &mut liq_result, callback: Option<liq_progress_callback_function>, user_info: AnySyncSendPtr) {
     if bad_object!(result, LIQ_RESULT_MAGIC) { return; }
+    let Some(callback) = callback else {
+        result.inner.set_progress_callback(|_| ControlFlow::Continue);
+        return;
+    };
     result.inner.set_progress_callback(move |f| if callback(f, user_info) == 0 { ControlFlow::Break} else { ControlFlow::Continue});
 }
 
@@ -200,8 +208,12 @@ unsafe fn attr_to_liq_attr_ptr(ptr: &Attributes) -> &liq_attr {
 
 #[no_mangle]
 #[inline(never)]
-pub unsafe extern "C" fn liq_set_log_callback(attr: &mut liq_attr, callback: liq_log_callback_function, user_info: AnySyncSendPtr) {
+pub unsafe extern "C" fn liq_set_log_callback(attr: &mut liq_attr, callback: Option<liq_log_callback_function>, user_info: AnySyncSendPtr) {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return; }
+    let Some(callback) = callback else {
+        attr.inner.set_log_callback(|_, _| {});
+        return;
+    };
     attr.inner.set_log_callback(move |attr, msg| {
         if let Ok(tmp) = CString::new(msg) {
             callback(attr_to_liq_attr_ptr(attr), tmp.as_ptr(), user_info);
@@ -211,8 +223,12 @@ pub unsafe extern "C" fn liq_set_log_callback(attr: &mut liq_attr, callback: liq
 
 #[no_mangle]
 #[inline(never)]
-pub unsafe extern "C" fn liq_set_log_flush_callback(attr: &mut liq_attr, callback: liq_log_flush_callback_function, user_info: AnySyncSendPtr) {
+pub unsafe extern "C" fn liq_set_log_flush_callback(attr: &mut liq_attr, callback: Option<liq_log_flush_callback_function>, user_info: AnySyncSendPtr) {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return; }
+    let Some(callback) = callback else {
+        attr.inner.set_log_flush_callback(|_| {});
+        return;
+    };
     attr.inner.set_log_flush_callback(move |attr| callback(attr_to_liq_attr_ptr(attr), user_info));
 }
 
-- 
2.43.0


From bb95a7ea8171f6699b35c3918d1f2f5e99f9ef4b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:05:00 +0000
Subject: [PATCH 07/22] fix: don't take ownership of rows of an image that
 released its source

---
 src/rows.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rows.rs b/src/rows.rs
index 2b48b8b..5f83e4f 100644
--- a/src/rows.rs
+++ b/src/rows.rs
@@ -218,6 +218,11 @@ impl<'pixels, 'rows> DynamicRows<'pixels, 'rows> {
     /// Not recommended
     #[cfg(feature = "_internal_c_ffi")]
     pub(crate) unsafe fn set_memory_ownership(&mut self, own_rows: bool, own_pixels: bool, free_fn: unsafe extern "C" fn(*mut std::os::raw::c_void)) -> Result<(), Error> {
+        // source pixels have been already released, so there's nothing left to own
+        if matches!(&self.pixels, PixelsSource::Pixels { rows, .. } if rows.as_slice().is_empty()) {
+            return Err(Error::Unsupported);
+        }
+
         if own_rows {
             match &mut self.pixels {
                 PixelsSource::Pixels { rows, .. } => rows.make_owned(free_fn),
-- 
2.43.0


From 4f7eb90114925d3dd7b4d6f17074d56e67c2bfff Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:05:00 +0000
Subject: [PATCH 08/22] fix: validate gamma in Histogram::add_fixed_color

---
 src/hist.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hist.rs b/src/hist.rs
index 9ec20e1..72080b0 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -167,6 +167,10 @@ impl Histogram {
             return Err(Unsupported);
         }
 
+        if !(0. ..1.).contains(&gamma) {
+            return Err(ValueOutOfRange);
+        }
+
         if self.gamma.is_none() && gamma > 0. {
             self.gamma = Some(gamma);
         }
-- 
2.43.0


From 07b11374a38a52e321d8a3d6aeca7bb8839acf0e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:05:00 +0000
Subject: [PATCH 09/22] fix: histogram having only fixed colors must have
 non-zero weights

---
 src/hist.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hist.rs b/src/hist.rs
index 72080b0..d7fb014 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -336,8 +336,10 @@ impl Histogram {
             // weight == 0 means it's a fixed color
             let weight = if temp_item.weight > 0. {
                 (temp_item.weight * (1. / 256.)).min(max_perceptual_weight)
-            } else {
+            } else if max_perceptual_weight > 0. {
                 max_perceptual_weight * 10.
+            } else {
+                1. // there are only fixed colors
             };
             total_perceptual_weight += f64::from(weight);
 
-- 
2.43.0


From a03d89288ffc7cbf580a87c5092b12fcd5cd80c0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:05:00 +0000
Subject: [PATCH 10/22] fix: dithered remapping to more than 256 colors is
 unsupported

---
 src/remap.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/remap.rs b/src/remap.rs
index 78fca5b..61afeb5 100644
--- a/src/remap.rs
+++ b/src/remap.rs
@@ -145,6 +145,10 @@ fn get_dithered_pixel(dither_level: f32, max_dither_error: f32, thiserr: f_pixel
 ///  If `output_image_is_remapped` is true, only pixels noticeably changed by error diffusion will be written to output image.
 #[inline(never)]
 pub(crate) fn remap_to_palette_floyd(input_image: &mut Image, mut output_pixels: RowBitmapMut<'_, MaybeUninit<PalIndexRemap>>, palette: &PalF, quant: &QuantizationResult, max_dither_error: f32, output_image_is_remapped: bool) -> Result<(), Error> {
+    if palette.len() > PalIndexRemap::MAX as usize + 1 {
+        return Err(Error::Unsupported);
+    }
+
     let progress_stage1 = if quant.use_dither_map != DitherMapMode::None { 20 } else { 0 };
 
     let width = input_image.width();
-- 
2.43.0


From aebf3b74a1b9f4bd9f98c17a730e05642e0243fe Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:05:00 +0000
Subject: [PATCH 11/22] fix: don't read uninitialized row when warming up
 dithering of a chunk

---
 src/remap.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/remap.rs b/src/remap.rs
index 61afeb5..d6b37a3 100644
--- a/src/remap.rs
+++ b/src/remap.rs
@@ -212,7 +212,8 @@ pub(crate) fn remap_to_palette_floyd(input_image: &mut Image, mut output_pixels:
                     let bg_pixels = background.as_mut().map(|b| b.row_f(&mut temp_row, row as _)).unwrap_or(&[]);
                     let dither_map = dither_map.get(row * width .. row * width + width).unwrap_or(&[]);
                     let scan_forward = row & 1 == 0;
-                    dither_row(row_pixels, &mut discard_row, width as u32, dither_map, base_dithering_level, max_dither_error, n, palette, transparent_index, bg_pixels, guess_from_remapped_pixels, &mut diffusion, scan_forward);
+                    // the discarded row is uninitialized, so it can't be used for guesses
+                    dither_row(row_pixels, &mut discard_row, width as u32, dither_map, base_dithering_level, max_dither_error, n, palette, transparent_index, bg_pixels, false, &mut diffusion, scan_forward);
                 }
             }
             // parallel remap makes progress not very useful
-- 
2.43.0


From a8c18b55a00a6955eb3fd9adbc9260bdc3175512 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:05:00 +0000
Subject: [PATCH 12/22] fix: add up weights of colors merged by posterization

---
 src/hist.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hist.rs b/src/hist.rs
index d7fb014..1426217 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -246,9 +246,11 @@ impl Histogram {
 
         let new_size = (self.hashmap.len()/3).max(self.hashmap.capacity()/5);
         let old_hashmap = std::mem::replace(&mut self.hashmap, HashMap::with_capacity_and_hasher(new_size, U32Hasher(0)));
-        self.hashmap.extend(old_hashmap.into_iter().map(move |(k, v)| {
-            (k & new_posterize_mask, v)
-        }));
+        for (k, v) in old_hashmap {
+            self.hashmap.entry(k & new_posterize_mask)
+                .and_modify(move |e| e.0 = e.0.saturating_add(v.0))
+                .or_insert(v);
+        }
     }
 
     pub(crate) fn add_pixel_rows(&mut self, image: &DynamicRows<'_, '_>, importance_map: Option<&[u8]>, posterize_bits: u8) -> Result<(), Error> {
-- 
2.43.0


From c8497748588cfe0fa69f0b728e3b69715aaddfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:05:00 +0000
Subject: [PATCH 13/22] fix: don't leak background object in
 liq_image_set_background

---
 imagequant-sys/src/ffi.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index f1a4ee5..c961312 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -377,11 +377,13 @@ pub extern "C" fn liq_image_destroy(_: Option<Box<liq_image>>) {}
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_image_set_background<'pixels>(img: &mut liq_image<'pixels>, background: Box<liq_image<'pixels>>) -> liq_error {
+pub extern "C" fn liq_image_set_background<'pixels>(img: &mut liq_image<'pixels>, mut background: Box<liq_image<'pixels>>) -> liq_error {
     if bad_object!(img, LIQ_IMAGE_MAGIC) ||
        bad_object!(background, LIQ_IMAGE_MAGIC) { return Error::InvalidPointer; }
-    let background = unsafe { ManuallyDrop::take(&mut ManuallyDrop::new(background).inner) };
-    img.inner.set_background(background).err().unwrap_or(LIQ_OK)
+    let inner = unsafe { ManuallyDrop::take(&mut background.inner) };
+    background.magic_header = LIQ_FREED_MAGIC; // inner has been moved out, so only the box is left to free
+    drop(background);
+    img.inner.set_background(inner).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
-- 
2.43.0


From bcbba3a702565455db34d6ad859c52d6f0e79c76 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:05:00 +0000
Subject: [PATCH 14/22] fix: the same fixed color must not take more than one
 palette entry

---
 src/hist.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hist.rs b/src/hist.rs
index 1426217..865a7f4 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -421,12 +421,19 @@ impl std::hash::Hasher for U32Hasher {
 }
 
 /// ignores the index
-#[derive(PartialEq, Debug)]
+#[derive(Debug)]
 pub(crate) struct HashColor {
     pub rgba: RGBA,
     pub index: PalIndex,
 }
 
+impl PartialEq for HashColor {
+    #[inline]
+    fn eq(&self, other: &Self) -> bool {
+        self.rgba == other.rgba
+    }
+}
+
 #[allow(clippy::derived_hash_with_manual_eq)]
 impl Hash for HashColor {
     #[inline]
-- 
2.43.0


From fee351b92df2779ca8e047f62eaaf6788742b796 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:05:00 +0000
Subject: [PATCH 15/22] fix: Histogram::add_image must fail when there are too
 many fixed colors

---
 src/hist.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hist.rs b/src/hist.rs
index 865a7f4..f0d5ce8 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -112,6 +112,12 @@ impl Histogram {
         self.gamma = image.gamma();
 
         if !image.fixed_colors.is_empty() {
+            let new_colors: HashSet<RGBA> = image.fixed_colors.iter().copied()
+                .filter(|&rgba| !self.fixed_colors.contains(&HashColor { rgba, index: 0 }))
+                .collect();
+            if self.fixed_colors.len() + new_colors.len() > MAX_COLORS {
+                return Err(BufferTooSmall);
+            }
             self.fixed_colors.extend(image.fixed_colors.iter().copied().enumerate().map(|(idx, rgba)| {
                HashColor { rgba, index: idx as _ }
             }));
-- 
2.43.0


From f551e4b55093ac67836a4628176b0066ec9ee2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:37 +0000
Subject: [PATCH 16/22] fix: cloned Image must copy pixels owned by the
 original

---
 src/rows.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rows.rs b/src/rows.rs
index 5f83e4f..9a2d4b4 100644
--- a/src/rows.rs
+++ b/src/rows.rs
@@ -56,7 +56,15 @@ impl Clone for DynamicRows<'_, '_> {
                     rows: rows.clone(),
                     pixels: pixels.clone(),
                 },
-                PixelsSource::Pixels { .. } | PixelsSource::Callback(_) => {
+                PixelsSource::Pixels { rows, .. } => {
+                    let mut out = Vec::with_capacity(self.width() * self.height());
+                    for row in rows.as_slice() {
+                        out.extend_from_slice(unsafe { std::slice::from_raw_parts(row.0, self.width()) });
+                    }
+                    let pixels = SeaCow::boxed(out.into_boxed_slice());
+                    PixelsSource::for_pixels(pixels, self.width, self.height, self.width).unwrap()
+                },
+                PixelsSource::Callback(_) => {
                     let area = self.width as usize * self.height as usize;
                     let mut out = Vec::with_capacity(area);
                     let out_rows = out.spare_capacity_mut()[..area].chunks_exact_mut(self.width as usize);
-- 
2.43.0


From 0746839b35d1542bdaa13c63069ef2265f55aefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:27 +0000
Subject: [PATCH 17/22] fix: all fully transparent fixed colors are the same
 color

---
 src/hist.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/hist.rs b/src/hist.rs
index f0d5ce8..f22c92e 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -112,8 +112,8 @@ impl Histogram {
         self.gamma = image.gamma();
 
         if !image.fixed_colors.is_empty() {
-            let new_colors: HashSet<RGBA> = image.fixed_colors.iter().copied()
-                .filter(|&rgba| !self.fixed_colors.contains(&HashColor { rgba, index: 0 }))
+            let new_colors: HashSet<HashColor> = image.fixed_colors.iter().map(|&rgba| HashColor { rgba, index: 0 })
+                .filter(|c| !self.fixed_colors.contains(c))
                 .collect();
             if self.fixed_colors.len() + new_colors.len() > MAX_COLORS {
                 return Err(BufferTooSmall);
@@ -433,10 +433,18 @@ pub(crate) struct HashColor {
     pub index: PalIndex,
 }
 
+impl HashColor {
+    /// All fully transparent colors are the same
+    #[inline]
+    fn key(&self) -> u32 {
+        if self.rgba.a != 0 { unsafe { RGBAInt { rgba: self.rgba }.int } } else { 0 }
+    }
+}
+
 impl PartialEq for HashColor {
     #[inline]
     fn eq(&self, other: &Self) -> bool {
-        self.rgba == other.rgba
+        self.key() == other.key()
     }
 }
 
@@ -444,8 +452,7 @@ impl PartialEq for HashColor {
 impl Hash for HashColor {
     #[inline]
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        let s: &[u8] = self.rgba.as_ref();
-        u32::from_ne_bytes(s.try_into().unwrap()).hash(state);
+        self.key().hash(state);
     }
 }
 
-- 
2.43.0


From d92e3c8bc72b81cbdd2196cca3f7c18e7dbea4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:51 +0000
Subject: [PATCH 18/22] fix: fixed color must not be duplicated in the palette
 when input is posterized

---
 src/hist.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hist.rs b/src/hist.rs
index f22c92e..f8f2e98 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -295,6 +295,12 @@ impl Histogram {
                 unsafe { RGBAInt { rgba }.int }
             } else { 0 };
 
+            // with posterization the same color may be already there under a different key
+            let posterized_px_int = px_int & self.posterize_mask();
+            if self.hashmap.get(&posterized_px_int).map_or(false, |&(_, color)| color == rgba) {
+                self.hashmap.remove(&posterized_px_int);
+            }
+
             self.hashmap.insert(px_int, (0, rgba));
         }
 
-- 
2.43.0


From ce2ab7ac22f78996cd14e6f66d5ed9a2c0f40df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:56 +0000
Subject: [PATCH 19/22] fix: aborted or refused Histogram::add_image must not
 change the histogram

---
 src/hist.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hist.rs b/src/hist.rs
index f8f2e98..a0bc9e3 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -109,7 +109,8 @@ impl Histogram {
             image.contrast_maps()?;
         }
 
-        self.gamma = image.gamma();
+        // check everything that can fail before changing the histogram
+        image.px.rgba_rows_iter()?;
 
         if !image.fixed_colors.is_empty() {
             let new_colors: HashSet<HashColor> = image.fixed_colors.iter().map(|&rgba| HashColor { rgba, index: 0 })
@@ -118,15 +119,18 @@ impl Histogram {
             if self.fixed_colors.len() + new_colors.len() > MAX_COLORS {
                 return Err(BufferTooSmall);
             }
-            self.fixed_colors.extend(image.fixed_colors.iter().copied().enumerate().map(|(idx, rgba)| {
-               HashColor { rgba, index: idx as _ }
-            }));
         }
 
         if attr.progress(f32::from(attr.progress_stage1) * 0.40) {
             return Err(Aborted); // bow can free the RGBA source if copy has been made in f_pixels
         }
 
+        self.gamma = image.gamma();
+
+        self.fixed_colors.extend(image.fixed_colors.iter().copied().enumerate().map(|(idx, rgba)| {
+           HashColor { rgba, index: idx as _ }
+        }));
+
         let posterize_bits = attr.posterize_bits();
         let surface_area = height * width;
         let estimated_colors = (surface_area / (posterize_bits as usize + if surface_area > 512 * 512 { 7 } else { 5 })).min(250_000);
-- 
2.43.0


From 5b1450b38b4dace01a54c5baf66d6063eb142aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:29 +0000
Subject: [PATCH 20/22] fix: weights of colors must not overflow in a long
 search for the palette

---
 src/kmeans.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kmeans.rs b/src/kmeans.rs
index e0c508f..0ed1709 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -8,6 +8,9 @@ use rgb::Argb;
 use rgb::prelude::*;
 use std::cell::RefCell;
 
+/// Weights are multiplied in every iteration of palette search. This keeps them (and sums of them) finite.
+const MAX_ADJUSTED_WEIGHT: f32 = 1e20;
+
 /// K-Means iteration: new palette color is computed from weighted average of colors that map best to that palette entry.
 // avoid false sharing
 pub(crate) struct Kmeans {
@@ -94,7 +97,7 @@ impl Kmeans {
                 let remapped = colors[matched as usize];
                 let (_, new_diff) = n.search(&f_pixel(px.0 + px.0 - remapped.0), matched);
                 diff = new_diff;
-                item.adjusted_weight = 2.0f32.mul_add(item.adjusted_weight, item.perceptual_weight) * (0.5 + diff);
+                item.adjusted_weight = (2.0f32.mul_add(item.adjusted_weight, item.perceptual_weight) * (0.5 + diff)).min(MAX_ADJUSTED_WEIGHT);
             }
             debug_assert!(f64::from(diff) < 1e20);
             self.update_color(px, item.adjusted_weight, matched);
-- 
2.43.0


From 23594dae89feb989f2399d62b50cdcf6f70d21cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:48 +0000
Subject: [PATCH 21/22] fix: colors of alpha exactly 255/256 are opaque when
 sorting the palette

---
 src/quant.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/quant.rs b/src/quant.rs
index 2e299dd..388b4fd 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -316,7 +316,7 @@ fn sort_palette(attr: &Attributes, palette: &mut PalF) {
 
     let mut tmp: ArrayVec<_, { MAX_COLORS }> = palette.iter_mut().map(|(c, p)| (*c, *p)).collect();
     tmp.sort_by_key(|(color, pop)| {
-        let is_transparent = color.a <= MAX_TRANSP_A;
+        let is_transparent = color.a < MAX_TRANSP_A;
         (is_transparent == last_index_transparent, Reverse(OrdFloat::new(pop.popularity())))
     });
     palette.iter_mut().zip(tmp).for_each(|((dcol, dpop), (scol, spop))| {
@@ -326,7 +326,7 @@ fn sort_palette(attr: &Attributes, palette: &mut PalF) {
 
     if last_index_transparent {
         let alpha_index = palette.as_slice().iter().enumerate()
-            .filter(|(_, c)| c.a <= MAX_TRANSP_A)
+            .filter(|(_, c)| c.a < MAX_TRANSP_A)
             .min_by_key(|(_, c)| OrdFloat::new(c.a))
             .map(|(i, _)| i);
         if let Some(alpha_index) = alpha_index {
@@ -335,7 +335,7 @@ fn sort_palette(attr: &Attributes, palette: &mut PalF) {
         }
     } else {
         let num_transparent = palette.as_slice().iter().enumerate()
-            .filter(|(_, c)| c.a <= MAX_TRANSP_A)
+            .filter(|(_, c)| c.a < MAX_TRANSP_A)
             .map(|(i, _)| i + 1) // num entries, not index
             .max();
         if let Some(num_transparent) = num_transparent {
-- 
2.43.0


From 4afe58c1e92217f6aef10774cafabc8206606af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:07 +0000
Subject: [PATCH 22/22] fix: a request to abort the search for a palette must
 not be ignored

---
 src/quant.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quant.rs b/src/quant.rs
index 388b4fd..4502ed0 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -397,7 +397,10 @@ pub(crate) fn find_best_palette(attr: &Attributes, target_mse: f64, target_mse_i
             target_mse_overshoot = 1.;
             trials_left -= 5 + fails_in_a_row;
         }
-        if attr.progress(overall_done) || trials_left <= 0 {
+        if attr.progress(overall_done) {
+            return Err(Aborted);
+        }
+        if trials_left <= 0 {
             break best_palette;
         }
     }.ok_or(ValueOutOfRange)?;
@@ -417,7 +420,7 @@ fn refine_palette(palette: &mut PalF, attr: &Attributes, hist: &mut HistogramInt
             let stage_done = f32::from(i) / f32::from(iterations);
             let overall_done = (stage_done * f32::from(attr.progress_stage3)).mul_add(0.89, f32::from(attr.progress_stage1) + f32::from(attr.progress_stage2));
             if attr.progress(overall_done) {
-                break;
+                return Err(Aborted);
             }
 
             let pal_err = Kmeans::iteration(hist, palette, false)?;
-- 
2.43.0

