From 37f709fb14fb273118ce3bfce9bb9b02f914fc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 01/14] fix: format of the lowest TimePoint overflowed

---
 src/time/time_point.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/time/time_point.rs b/src/time/time_point.rs
index a7b9969..37756fe 100644
--- a/src/time/time_point.rs
+++ b/src/time/time_point.rs
@@ -74,15 +74,16 @@ impl TimePoint {
     ///
     /// Will return error of writing if happen.
     pub fn fmt_separator(&self, f: &mut fmt::Formatter<'_>, separator: char) -> fmt::Result {
-        let t = if self.0 < 0 { -*self } else { *self };
+        // The magnitude is taken on each component, because the `TimePoint` itself
+        // can't always be negated (`i64::MIN` has no opposite).
         write!(
             f,
             "{}{:02}:{:02}:{:02}{separator}{:03}",
             if self.0 < 0 { "-" } else { "" },
-            t.hours(),
-            t.mins_comp(),
-            t.secs_comp(),
-            t.msecs_comp()
+            self.hours().unsigned_abs(),
+            self.mins_comp().unsigned_abs(),
+            self.secs_comp().unsigned_abs(),
+            self.msecs_comp().unsigned_abs()
         )
     }
 }
-- 
2.43.0


From 9dadd7ef534831560e8a4e8ece3a2511868f36fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 02/14] fix: corrupt RLE data of a VobSub image caused a panic

---
 src/vobsub/decoder.rs | 18 +++++++++---------
 src/vobsub/img.rs     | 12 +++++++-----
 src/vobsub/sub.rs     |  2 +-
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/vobsub/decoder.rs b/src/vobsub/decoder.rs
index 6357300..618ca84 100644
--- a/src/vobsub/decoder.rs
+++ b/src/vobsub/decoder.rs
@@ -1,4 +1,4 @@
-use super::{img::VobSubRleImage, VobSubIndexedImage};
+use super::{img::VobSubRleImage, VobSubError, VobSubIndexedImage};
 use crate::time::{TimePoint, TimeSpan};
 
 /// The default length of a subtitle if no end time is provided and no
@@ -17,7 +17,7 @@ pub trait VobSubDecoder<'a> {
         end_time: Option<f64>,
         force: bool,
         image: VobSubRleImage<'a>,
-    ) -> Self::Output;
+    ) -> Result<Self::Output, VobSubError>;
 }
 
 /// Implement creation of a tuple of [`TimeSpan`] and [`VobSubIndexedImage`] from parsing.
@@ -29,14 +29,14 @@ impl<'a> VobSubDecoder<'a> for (TimeSpan, VobSubIndexedImage) {
         end_time: Option<f64>,
         _force: bool,
         rle_image: VobSubRleImage<'a>,
-    ) -> Self::Output {
-        (
+    ) -> Result<Self::Output, VobSubError> {
+        Ok((
             TimeSpan::new(
                 TimePoint::from_secs(start_time),
                 TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
             ),
-            VobSubIndexedImage::from(rle_image),
-        )
+            VobSubIndexedImage::try_from(rle_image)?,
+        ))
     }
 }
 
@@ -49,10 +49,10 @@ impl<'a> VobSubDecoder<'a> for TimeSpan {
         end_time: Option<f64>,
         _force: bool,
         _rle_image: VobSubRleImage<'a>,
-    ) -> Self::Output {
-        Self::new(
+    ) -> Result<Self::Output, VobSubError> {
+        Ok(Self::new(
             TimePoint::from_secs(start_time),
             TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
-        )
+        ))
     }
 }
diff --git a/src/vobsub/img.rs b/src/vobsub/img.rs
index 28615cc..5fbf85f 100644
--- a/src/vobsub/img.rs
+++ b/src/vobsub/img.rs
@@ -270,15 +270,17 @@ impl ImageArea for VobSubIndexedImage {
     }
 }
 
-impl From<VobSubRleImage<'_>> for VobSubIndexedImage {
-    fn from(rle_image: VobSubRleImage) -> Self {
-        let decompressed_image = decompress(rle_image.size(), rle_image.raw_data()).unwrap();
-        Self::new(
+impl TryFrom<VobSubRleImage<'_>> for VobSubIndexedImage {
+    type Error = Error;
+
+    fn try_from(rle_image: VobSubRleImage) -> Result<Self, Self::Error> {
+        let decompressed_image = decompress(rle_image.size(), rle_image.raw_data())?;
+        Ok(Self::new(
             rle_image.area(),
             *rle_image.palette(),
             *rle_image.alpha(),
             decompressed_image,
-        )
+        ))
     }
 }
 
diff --git a/src/vobsub/sub.rs b/src/vobsub/sub.rs
index bc7f414..762928d 100644
--- a/src/vobsub/sub.rs
+++ b/src/vobsub/sub.rs
@@ -395,7 +395,7 @@ where
     let rle_image = VobSubRleImage::new(area, palette, alpha, image_data);
 
     // Return our parsed subtitle.
-    let result = D::from_data(start_time, end_time, force, rle_image);
+    let result = D::from_data(start_time, end_time, force, rle_image)?;
     trace!("Parsed subtitle: {:?}", &result);
     Ok(result)
 }
-- 
2.43.0


From a23c7643ba2b4ebb0d2bb798842992410b55f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 03/14] fix: default VobSub end time was not relative to the
 start time

---
 src/vobsub/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vobsub/decoder.rs b/src/vobsub/decoder.rs
index 618ca84..1d7de2b 100644
--- a/src/vobsub/decoder.rs
+++ b/src/vobsub/decoder.rs
@@ -33,7 +33,7 @@ impl<'a> VobSubDecoder<'a> for (TimeSpan, VobSubIndexedImage) {
         Ok((
             TimeSpan::new(
                 TimePoint::from_secs(start_time),
-                TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
+                TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
             ),
             VobSubIndexedImage::try_from(rle_image)?,
         ))
@@ -52,7 +52,7 @@ impl<'a> VobSubDecoder<'a> for TimeSpan {
     ) -> Result<Self::Output, VobSubError> {
         Ok(Self::new(
             TimePoint::from_secs(start_time),
-            TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
+            TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
         ))
     }
 }
-- 
2.43.0


From 2190b589e9e961028bf0f39cb135be4f2cfc8d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 04/14] fix: size of an Area reaching the coordinate 65535
 overflowed

---
 src/content/area.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/content/area.rs b/src/content/area.rs
index dbfb8d3..4aa89c5 100644
--- a/src/content/area.rs
+++ b/src/content/area.rs
@@ -33,13 +33,13 @@ impl Area {
     /// The width of the subtitle.
     #[must_use]
     pub const fn width(&self) -> u16 {
-        self.0.x2 + 1 - self.0.x1
+        self.0.x2 - self.0.x1 + 1
     }
 
     /// The height of the subtitle.
     #[must_use]
     pub const fn height(&self) -> u16 {
-        self.0.y2 + 1 - self.0.y1
+        self.0.y2 - self.0.y1 + 1
     }
 
     /// The size of the subtitle.
@@ -62,7 +62,12 @@ impl TryFrom<AreaValues> for Area {
         // Later on, we assume that all bounding boxes
         // have non-negative width and height and we'll
         // crash if they don't.
-        if coords_value.x2 <= coords_value.x1 || coords_value.y2 <= coords_value.y1 {
+        if coords_value.x2 <= coords_value.x1
+            || coords_value.y2 <= coords_value.y1
+            // The width or the height could not be stored in a `u16`.
+            || coords_value.x2 - coords_value.x1 == u16::MAX
+            || coords_value.y2 - coords_value.y1 == u16::MAX
+        {
             Err(ContentError::InvalidAreaBounding)
         } else {
             Ok(Self(coords_value))
-- 
2.43.0


From fea39273f2b6a4271af72974a716be90e38d172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 05/14] fix: PDS with an invalid size caused a panic

---
 src/pgs/pds.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pgs/pds.rs b/src/pgs/pds.rs
index fcb5615..fac39fe 100644
--- a/src/pgs/pds.rs
+++ b/src/pgs/pds.rs
@@ -7,6 +7,10 @@ pub enum Error {
     /// Read `PaletteDefinitionSegment` in a buffer failed.
     #[error("failed to read buffer with `PaletteDefinitionSegment`")]
     BufferParse(#[source] io::Error),
+
+    /// The size of the segment doesn't match a whole number of palette entries.
+    #[error("invalid size of `PaletteDefinitionSegment`: {size}")]
+    InvalidSize { size: usize },
 }
 
 #[derive(Debug, Clone)]
@@ -60,11 +64,16 @@ pub(crate) fn read<R: Read>(
         .read_exact(&mut pds_buf)
         .map_err(Error::BufferParse)?;
 
+    if segments_size < 2 || (segments_size - 2) % 5 != 0 {
+        return Err(Error::InvalidSize {
+            size: segments_size,
+        });
+    }
+
     let palette_id = pds_buf[0];
     let palette_version_number = pds_buf[1];
 
     let nb_palette_entry: usize = (segments_size - 2) / 5;
-    assert_eq!((nb_palette_entry * 5) + 2, segments_size);
     let range = 0..nb_palette_entry;
     let palette_entries = range
         .map(|idx| {
-- 
2.43.0


From 00755954ab94920883fdeb2e6f6b71bdb688f6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 06/14] fix: PGS palettes with non contiguous entries gave
 wrong colors

---
 src/pgs/pds.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/pgs/pds.rs b/src/pgs/pds.rs
index fac39fe..bc41aad 100644
--- a/src/pgs/pds.rs
+++ b/src/pgs/pds.rs
@@ -16,27 +16,15 @@ pub enum Error {
 #[derive(Debug, Clone)]
 pub struct Palette {
     entries: Vec<PaletteEntry>,
-    offset: i16,
 }
 impl Palette {
-    fn new(entries: Vec<PaletteEntry>) -> Self {
-        let offset = compute_offset(&entries);
-        Self { entries, offset }
+    const fn new(entries: Vec<PaletteEntry>) -> Self {
+        Self { entries }
     }
 
-    #[expect(clippy::cast_sign_loss)]
     pub fn get(&self, id: u8) -> Option<&PaletteEntry> {
-        let idx = i16::from(id) + self.offset;
-        self.entries.get(idx as usize)
-    }
-}
-
-fn compute_offset(palette: &[PaletteEntry]) -> i16 {
-    //HACK offset is computed only on the first element, should be checked for all entries
-    if palette.is_empty() {
-        0
-    } else {
-        0 - i16::from(palette[0].entry_id)
+        // The ids of the entries are not required to be contiguous or sorted.
+        self.entries.iter().find(|entry| entry.entry_id == id)
     }
 }
 
-- 
2.43.0


From 004a94e6644a838dafae2d380c76798527874a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 07/14] fix: PGS subtitle with an unused palette or an
 incomplete object caused a panic

---
 src/pgs/decoder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pgs/decoder.rs b/src/pgs/decoder.rs
index f4da975..0a4d373 100644
--- a/src/pgs/decoder.rs
+++ b/src/pgs/decoder.rs
@@ -132,8 +132,7 @@ impl PgsDecoder for DecodeTimeImage {
             }
         }
 
-        assert!(palette.is_none()); // palette should be transferred into image before get out of the function.
-        assert!(prev_ods.is_none()); // Ods data should be converted into image before get out of the function.
+        // A palette without image, or an incomplete object, is dropped.
         Ok(subtitle)
     }
 }
-- 
2.43.0


From 94d08d18b7553bbf154da5bb72ba42bea6b5a881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 08/14] fix: inconsistent ODS caused a panic or a partially
 read image

---
 src/pgs/ods.rs | 54 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/pgs/ods.rs b/src/pgs/ods.rs
index f78a608..8ae2f02 100644
--- a/src/pgs/ods.rs
+++ b/src/pgs/ods.rs
@@ -28,6 +28,10 @@ pub enum Error {
     #[error("read `Object Data Length` field")]
     ReadObjectDataLength(#[source] io::Error),
 
+    /// The sizes in the segment are not consistent with each other.
+    #[error("the segment size ({segment_size}) and the object data length are not consistent")]
+    InvalidSize { segment_size: usize },
+
     /// Failed during read `Width` of the image.
     #[error("read With of the image incarried by the `Object Definition Segment`(s)")]
     ReadWidth(#[source] io::Error),
@@ -130,17 +134,29 @@ pub fn read<Reader: BufRead + Seek>(
 
     match current_ods {
         None => {
-            assert!(
-                last_in_sequence_flag == LastInSequenceFlag::First
-                    || last_in_sequence_flag == LastInSequenceFlag::FirstAndLast
-            );
+            if last_in_sequence_flag == LastInSequenceFlag::Last {
+                return Err(Error::LastInSequenceFlagNotManaged(last_in_sequence_flag));
+            }
 
             let data_size = read_obj_data_length(reader)?;
             let (width, height) = read_img_size(reader)?;
-            let data_size = data_size - 4; // don't know why for now !!! Object Data Length include Width + Height ?
-            let mut object_data = vec![0; data_size]; // Create a `Vec` for contain data of object (image)
+            let invalid_size = Error::InvalidSize {
+                segment_size: segments_size,
+            };
+            // don't know why for now !!! Object Data Length include Width + Height ?
+            let Some(data_size) = data_size.checked_sub(4) else {
+                return Err(invalid_size);
+            };
+            // Only read data from this segment, additional data are in the next segment, if there are any.
+            let Some(read_data_size) = segments_size.checked_sub(11) else {
+                return Err(invalid_size);
+            };
+            let is_complete = last_in_sequence_flag == LastInSequenceFlag::FirstAndLast;
+            if read_data_size > data_size || (is_complete && read_data_size != data_size) {
+                return Err(invalid_size);
+            }
 
-            let read_data_size = segments_size - 11; // Only read data from this segment, additional data are in the next segment, if there are any.
+            let mut object_data = vec![0; data_size]; // Create a `Vec` for contain data of object (image)
             let data_buff = &mut object_data.as_mut_slice()[0..read_data_size];
             read_object_data(reader, data_buff)?;
 
@@ -150,29 +166,31 @@ pub fn read<Reader: BufRead + Seek>(
                 object_data,
             };
 
-            if last_in_sequence_flag == LastInSequenceFlag::FirstAndLast {
-                assert!(read_data_size == data_size);
-                assert!(segments_size == 11 + data_size);
-
+            if is_complete {
                 Ok(ObjectDefinitionSegment::Complete(data))
-            } else if last_in_sequence_flag == LastInSequenceFlag::First {
+            } else {
                 Ok(ObjectDefinitionSegment::Partial {
                     data,
                     amount_of_data_read: read_data_size,
                 })
-            } else {
-                Err(Error::LastInSequenceFlagNotManaged(last_in_sequence_flag))
             }
         }
         Some(ObjectDefinitionSegment::Partial {
             mut data,
             amount_of_data_read,
         }) => {
-            assert!(last_in_sequence_flag == LastInSequenceFlag::Last); //TODO: not first and not last ?
+            //TODO: not first and not last ?
+            if last_in_sequence_flag != LastInSequenceFlag::Last {
+                return Err(Error::LastInSequenceFlagNotManaged(last_in_sequence_flag));
+            }
 
-            let start_idx = amount_of_data_read;
-            let end_idx = start_idx + (segments_size - 4);
-            let read_slice = &mut data.object_data.as_mut_slice()[start_idx..end_idx];
+            let read_slice = &mut data.object_data.as_mut_slice()[amount_of_data_read..];
+            // The last segment have to contain all the missing data of the object.
+            if segments_size.checked_sub(4) != Some(read_slice.len()) {
+                return Err(Error::InvalidSize {
+                    segment_size: segments_size,
+                });
+            }
             read_object_data(reader, read_slice)?;
             Ok(ObjectDefinitionSegment::Complete(data))
         }
-- 
2.43.0


From 626095abc5259240ce2b8fea5078171f13bfe91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 09/14] fix: truncated PGS RLE data or an empty run caused a
 panic

---
 src/pgs/pgs_image.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pgs/pgs_image.rs b/src/pgs/pgs_image.rs
index ac4c144..90a2bad 100644
--- a/src/pgs/pgs_image.rs
+++ b/src/pgs/pgs_image.rs
@@ -234,7 +234,7 @@ impl<C> RlePixelIterator<'_, C> {
             let next = color[0];
             if next == MARKER {
                 let mut l2 = [0; 1];
-                self.raw_data.read_exact(&mut l2).unwrap();
+                self.raw_data.read_exact(&mut l2).ok()?;
 
                 if l2[0] == MARKER {
                     //break; // End of line
@@ -243,7 +243,7 @@ impl<C> RlePixelIterator<'_, C> {
                     let nb_pixels = match CountMarker::from(byte) {
                         CountMarker::Long => {
                             let mut l3 = [0; 1];
-                            self.raw_data.read_exact(&mut l3).unwrap();
+                            self.raw_data.read_exact(&mut l3).ok()?;
                             let count_bytes = [byte & 0b0011_1111, l3[0]];
                             u16::from_be_bytes(count_bytes)
                         }
@@ -258,12 +258,15 @@ impl<C> RlePixelIterator<'_, C> {
                         ColorMarker::Color0 => COLOR_0,
                         ColorMarker::ColorN => {
                             let mut color = [0; 1];
-                            self.raw_data.read_exact(&mut color).unwrap();
+                            self.raw_data.read_exact(&mut color).ok()?;
                             color[0]
                         }
                     };
 
-                    return Some((color, nb_pixels));
+                    // An empty run gives no pixels
+                    if nb_pixels > 0 {
+                        return Some((color, nb_pixels));
+                    }
                 }
             } else {
                 return Some((next, 1));
-- 
2.43.0


From 59eebd69f9c2518abe3c81c42d780645fa1ecd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 10/14] fix: number of PGS pixels could differ from the size of
 the image

---
 src/pgs/pgs_image.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/pgs/pgs_image.rs b/src/pgs/pgs_image.rs
index 90a2bad..cd8098f 100644
--- a/src/pgs/pgs_image.rs
+++ b/src/pgs/pgs_image.rs
@@ -29,6 +29,11 @@ impl RleEncodedImage {
         }
     }
 
+    /// Number of pixels of the image.
+    const fn nb_pixels(&self) -> usize {
+        self.width as usize * self.height as usize
+    }
+
     /// Iterate on image pixels converted with a specified function.
     pub fn pixels<D: Primitive>(
         &self,
@@ -40,6 +45,7 @@ impl RleEncodedImage {
             current_color: LumaA([D::DEFAULT_MIN_VALUE, D::DEFAULT_MAX_VALUE]),
             default_color: LumaA([D::DEFAULT_MAX_VALUE, D::DEFAULT_MIN_VALUE]), // Default: white + transparent
             nb_remaining_pixels: 0,
+            nb_pixels_to_yield: self.nb_pixels(),
             convert,
         }
     }
@@ -80,6 +86,7 @@ impl<'a> IntoIterator for &'a RleEncodedImage {
                 <u8 as Primitive>::DEFAULT_MIN_VALUE,
             ]), // Default: white + transparent
             nb_remaining_pixels: 0,
+            nb_pixels_to_yield: self.nb_pixels(),
             convert: pe_to_luma_a,
         }
     }
@@ -167,12 +174,16 @@ where
 }
 
 /// struct to iterate on pixel of an `Rle` image.
+///
+/// The number of pixels is always the one indicated by the size of the image : missing data
+/// are replaced by the default color, and additional data are ignored.
 pub struct RlePixelIterator<'a, C> {
     rle_image: &'a RleEncodedImage,
     raw_data: &'a [u8],
     current_color: C,
     default_color: C,
     nb_remaining_pixels: u16,
+    nb_pixels_to_yield: usize,
     convert: PixelConversion<C>,
 }
 
@@ -185,6 +196,7 @@ where
     type Item = Pix;
 
     fn next(&mut self) -> Option<Self::Item> {
+        self.nb_pixels_to_yield = self.nb_pixels_to_yield.checked_sub(1)?;
         if self.nb_remaining_pixels > 0 {
             self.nb_remaining_pixels -= 1;
             Some(self.current_color)
@@ -200,13 +212,12 @@ where
             self.nb_remaining_pixels = nb_pixel - 1;
             Some(self.current_color)
         } else {
-            None // End of pixels
+            Some(self.default_color) // End of data
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let nb_pixels = (self.rle_image.width() * self.rle_image.height()) as usize;
-        (nb_pixels, Some(nb_pixels))
+        (self.nb_pixels_to_yield, Some(self.nb_pixels_to_yield))
     }
 }
 
-- 
2.43.0


From fb62a2eda9bbcb1d339d7a29241482f6919d49d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 11/14] fix: VobSub packets with a PTS and a DTS were skipped

The tags of the time stamps are 0011 and 0001 when both are present.
---
 src/vobsub/mpeg2/pes.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vobsub/mpeg2/pes.rs b/src/vobsub/mpeg2/pes.rs
index 488ed18..fcaa81e 100644
--- a/src/vobsub/mpeg2/pes.rs
+++ b/src/vobsub/mpeg2/pes.rs
@@ -70,9 +70,10 @@ fn pts_only(input: &[u8]) -> IResult<&[u8], PtsDts> {
 /// Helper for `pts_dts`.  Parses the `PTS` and `DTS` case.
 fn pts_and_dts(input: &[u8]) -> IResult<&[u8], PtsDts> {
     bits(|input| {
-        let parse_tag = tag_bits(0b0010, 4u8);
+        let pts_tag = tag_bits(0b0011, 4u8);
+        let dts_tag = tag_bits(0b0001, 4u8);
         let (input, (_, pts, _, dts)): ((&[u8], usize), (_, _, _, _)) =
-            (&parse_tag, clock, &parse_tag, clock).parse(input)?;
+            (pts_tag, clock, dts_tag, clock).parse(input)?;
         Ok((
             input,
             PtsDts {
-- 
2.43.0


From a449eb0002d652b023f1968b90c5ded64c1da5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:12 +0000
Subject: [PATCH 12/14] fix: report the failure of the write of a dumped image

`ImageBuffer::save` drops a buffered writer without flushing it: on a full
device `dump_images` returned `Ok` and left an empty file.
---
 src/image/utils.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/image/utils.rs b/src/image/utils.rs
index da24b27..e96bce4 100644
--- a/src/image/utils.rs
+++ b/src/image/utils.rs
@@ -1,9 +1,9 @@
 use crate::SubtileError;
-use image::{EncodableLayout, Pixel, PixelWithColorType};
+use image::{EncodableLayout, ImageFormat, Pixel, PixelWithColorType};
 use std::{
     borrow::Borrow,
-    fs::create_dir_all,
-    io,
+    fs::{self, create_dir_all},
+    io::{self, Cursor},
     ops::Deref,
     path::{Path, PathBuf},
 };
@@ -85,5 +85,9 @@ where
     [Pix::Subpixel]: EncodableLayout,
     Container: Deref<Target = [Pix::Subpixel]>,
 {
-    image.save(filename)
+    // Write the encoded file at once, `ImageBuffer::save` doesn't report the failure of the last writes.
+    let mut encoded = Cursor::new(Vec::new());
+    image.write_to(&mut encoded, ImageFormat::Png)?;
+    fs::write(filename, encoded.into_inner())?;
+    Ok(())
 }
-- 
2.43.0


From 49d5b792a6e84bfdd66fd6ee3b13e4a48c0a191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:01 +0000
Subject: [PATCH 13/14] fix: a failing PGS reader made the parser panic when
 the standard output is closed

---
 src/pgs/segment.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pgs/segment.rs b/src/pgs/segment.rs
index 52f8b68..873f604 100644
--- a/src/pgs/segment.rs
+++ b/src/pgs/segment.rs
@@ -1,4 +1,5 @@
 use super::{PgsError, ReadExt as _};
+use log::warn;
 use std::{
     fmt,
     io::{BufRead, ErrorKind, Seek},
@@ -96,7 +97,7 @@ pub fn read_header<R: BufRead>(reader: &mut R) -> Result<Option<SegmentHeader>,
             Ok(None)
         }
         Err(err) => {
-            println!("{err:?}");
+            warn!("failed to read the segment header: {err:?}");
             Err(PgsError::SegmentFailReadHeader)
         }
     }
-- 
2.43.0


From e1fe70ae5934ed3728c3db12a56ec1955d69c8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:04 +0000
Subject: [PATCH 14/14] fix: `SupParser` doesn't give items after its end, as
 its `FusedIterator` states

---
 src/pgs/sup.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pgs/sup.rs b/src/pgs/sup.rs
index 38e1b4b..e6a23df 100644
--- a/src/pgs/sup.rs
+++ b/src/pgs/sup.rs
@@ -14,6 +14,7 @@ where
     Decoder: PgsDecoder,
 {
     reader: Reader,
+    ended: bool,
     phantom_data: PhantomData<Decoder>,
 }
 
@@ -26,6 +27,7 @@ where
     pub const fn new(reader: Reader) -> Self {
         Self {
             reader,
+            ended: false,
             phantom_data: PhantomData,
         }
     }
@@ -55,7 +57,12 @@ where
     type Item = Result<Decoder::Output, PgsError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        Decoder::parse_next(&mut self.reader).transpose()
+        if self.ended {
+            return None;
+        }
+        let next = Decoder::parse_next(&mut self.reader).transpose();
+        self.ended = next.is_none();
+        next
     }
 
     // Set lower bound to promote the allocation of a minimum number of elements.
-- 
2.43.0

