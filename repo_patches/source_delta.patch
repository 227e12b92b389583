From 5e6b66e7bb58f1fb1d771f7aad3650ce3b1297fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 01/36] fix: report read errors inside PNM header tokens,
 comments and ASCII samples

---
 src/codecs/pnm/decoder.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/codecs/pnm/decoder.rs b/src/codecs/pnm/decoder.rs
index 07f042e..1677051 100644
--- a/src/codecs/pnm/decoder.rs
+++ b/src/codecs/pnm/decoder.rs
@@ -382,20 +382,24 @@ trait HeaderReader: Read {
             Some((cur_enabled, Ok(byte)))
         });
 
-        for (_, byte) in mark_comments.filter(|e| e.0) {
+        for (enabled, byte) in mark_comments {
+            // Errors are reported even if they occur within a comment.
+            let byte = byte?;
+            if !enabled {
+                continue;
+            }
             match byte {
-                Ok(b'\t' | b'\n' | b'\x0b' | b'\x0c' | b'\r' | b' ') => {
+                b'\t' | b'\n' | b'\x0b' | b'\x0c' | b'\r' | b' ' => {
                     if !bytes.is_empty() {
                         break; // We're done as we already have some content
                     }
                 }
-                Ok(byte) if !byte.is_ascii() => {
+                byte if !byte.is_ascii() => {
                     return Err(DecoderError::NonAsciiByteInHeader(byte).into())
                 }
-                Ok(byte) => {
+                byte => {
                     bytes.push(byte);
                 }
-                Err(_) => break,
             }
         }
 
@@ -690,13 +694,17 @@ fn read_separated_ascii<T: TryFrom<u16>>(reader: &mut dyn Read) -> ImageResult<T
     let is_separator = |v: &u8| matches!(*v, b'\t' | b'\n' | b'\x0b' | b'\x0c' | b'\r' | b' ');
 
     let mut v: u16 = 0;
+    let mut any_digit = false;
     #[allow(clippy::unbuffered_bytes)]
-    for rc in reader
-        .bytes()
-        .skip_while(|v| v.as_ref().ok().is_some_and(is_separator))
-        .take_while(|v| v.as_ref().ok().is_some_and(|c| !is_separator(c)))
-    {
+    for rc in reader.bytes() {
         let c = rc?;
+        if is_separator(&c) {
+            if any_digit {
+                break;
+            }
+            continue;
+        }
+        any_digit = true;
         let digit = match c {
             b'0'..=b'9' => (c - b'0') as u16,
             _ => return Err(DecoderError::InvalidDigit(ErrorDataSource::Sample).into()),
-- 
2.43.0


From 0eda6346951b4b4529573a29f51c22d02ea82ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 02/36] fix: reject truncated ASCII PNM rasters

---
 src/codecs/pnm/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codecs/pnm/decoder.rs b/src/codecs/pnm/decoder.rs
index 1677051..5434946 100644
--- a/src/codecs/pnm/decoder.rs
+++ b/src/codecs/pnm/decoder.rs
@@ -712,6 +712,9 @@ fn read_separated_ascii<T: TryFrom<u16>>(reader: &mut dyn Read) -> ImageResult<T
         v = v.checked_mul(10).ok_or(DecoderError::Overflow)?;
         v = v.checked_add(digit).ok_or(DecoderError::Overflow)?;
     }
+    if !any_digit {
+        return Err(DecoderError::InputTooShort.into());
+    }
     Ok(T::try_from(v).or(Err(DecoderError::Overflow))?)
 }
 
-- 
2.43.0


From 520dfe63e062e722e701249a176f999b73072cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 03/36] fix: report I/O errors while reading the TIFF colour
 profile

---
 src/codecs/tiff.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/codecs/tiff.rs b/src/codecs/tiff.rs
index 9a46a79..8f99096 100644
--- a/src/codecs/tiff.rs
+++ b/src/codecs/tiff.rs
@@ -202,7 +202,11 @@ impl<R: BufRead + Seek> ImageDecoder for TiffDecoder<R> {
 
     fn icc_profile(&mut self) -> ImageResult<Option<Vec<u8>>> {
         if let Some(decoder) = &mut self.inner {
-            Ok(decoder.get_tag_u8_vec(tiff::tags::Tag::Unknown(34675)).ok())
+            match decoder.get_tag_u8_vec(tiff::tags::Tag::Unknown(34675)) {
+                Ok(profile) => Ok(Some(profile)),
+                Err(err @ tiff::TiffError::IoError(_)) => Err(ImageError::from_tiff_decode(err)),
+                Err(_) => Ok(None),
+            }
         } else {
             Ok(None)
         }
-- 
2.43.0


From ebf8742b845b2364d628afc46509a6c1ed2919d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 04/36] fix: report errors while writing the GIF trailer

---
 src/codecs/gif.rs                  | 8 ++++++++
 src/dynimage.rs                    | 2 +-
 src/image_reader/free_functions.rs | 6 +++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/codecs/gif.rs b/src/codecs/gif.rs
index f67a161..42bc7a5 100644
--- a/src/codecs/gif.rs
+++ b/src/codecs/gif.rs
@@ -536,6 +536,14 @@ impl<W: Write> GifEncoder<W> {
         Ok(())
     }
 
+    /// Write the trailer of the file, which dropping the encoder would do without reporting errors.
+    pub(crate) fn finish(self) -> ImageResult<()> {
+        if let Some(encoder) = self.gif_encoder {
+            encoder.into_inner()?;
+        }
+        Ok(())
+    }
+
     pub(crate) fn convert_frame(
         &mut self,
         img_frame: animation::Frame,
diff --git a/src/dynimage.rs b/src/dynimage.rs
index 32da8c7..a013238 100644
--- a/src/dynimage.rs
+++ b/src/dynimage.rs
@@ -1002,7 +1002,7 @@ impl DynamicImage {
             ImageFormat::Gif => {
                 let mut g = gif::GifEncoder::new(w);
                 g.encode_frame(crate::animation::Frame::new(self.to_rgba8()))?;
-                Ok(())
+                g.finish()
             }
 
             format => write_buffer_with_format(w, bytes, width, height, color, format),
diff --git a/src/image_reader/free_functions.rs b/src/image_reader/free_functions.rs
index 57fbb72..5e84bdf 100644
--- a/src/image_reader/free_functions.rs
+++ b/src/image_reader/free_functions.rs
@@ -75,7 +75,11 @@ pub(crate) fn write_buffer_impl<W: std::io::Write + Seek>(
             pnm::PnmEncoder::new(buffered_write).write_image(buf, width, height, color)
         }
         #[cfg(feature = "gif")]
-        ImageFormat::Gif => gif::GifEncoder::new(buffered_write).encode(buf, width, height, color),
+        ImageFormat::Gif => {
+            let mut encoder = gif::GifEncoder::new(buffered_write);
+            encoder.encode(buf, width, height, color)?;
+            encoder.finish()
+        }
         #[cfg(feature = "ico")]
         ImageFormat::Ico => {
             ico::IcoEncoder::new(buffered_write).write_image(buf, width, height, color)
-- 
2.43.0


From 5f1384516b0bbf3438621c2287773dc8f064dad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 05/36] fix: report the error of the final flush when saving to
 a file

---
 src/image_reader/free_functions.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/image_reader/free_functions.rs b/src/image_reader/free_functions.rs
index 5e84bdf..6886127 100644
--- a/src/image_reader/free_functions.rs
+++ b/src/image_reader/free_functions.rs
@@ -1,5 +1,5 @@
 use std::fs::File;
-use std::io::{BufRead, BufWriter, Seek};
+use std::io::{BufRead, BufWriter, Seek, Write};
 use std::iter;
 use std::path::Path;
 
@@ -48,7 +48,10 @@ pub(crate) fn save_buffer_with_format_impl(
     format: ImageFormat,
 ) -> ImageResult<()> {
     let buffered_file_write = &mut BufWriter::new(File::create(path)?); // always seekable
-    write_buffer_impl(buffered_file_write, buf, width, height, color, format)
+    write_buffer_impl(buffered_file_write, buf, width, height, color, format)?;
+    // dropping the writer would discard the error of the final flush
+    buffered_file_write.flush()?;
+    Ok(())
 }
 
 #[allow(unused_variables)]
-- 
2.43.0


From 8a91241639688b97b5ab980c7177a5a109de1c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 06/36] fix: reject TGA run-length packets whose pixel is cut
 short

---
 src/codecs/tga/decoder.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index 3ad28e7..3ec8516 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -239,10 +239,8 @@ impl<R: Read> TgaDecoder<R> {
             if (run_packet & 0x80) != 0 {
                 // high bit set, so we will repeat the data
                 let repeat_count = ((run_packet & !0x80) + 1) as usize;
-                self.r
-                    .by_ref()
-                    .take(self.bytes_per_pixel as u64)
-                    .read_to_end(&mut repeat_buf)?;
+                repeat_buf.resize(self.bytes_per_pixel, 0);
+                self.r.read_exact(&mut repeat_buf)?;
 
                 // get the repeating pixels from the bytes of the pixel stored in `repeat_buf`
                 let data = repeat_buf
-- 
2.43.0


From c64a19e0dc961e70ce2226822cf751a0e2ad8de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 07/36] fix: report errors while writing the PNG trailer

---
 src/codecs/png.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codecs/png.rs b/src/codecs/png.rs
index de6cfbd..101bb9a 100644
--- a/src/codecs/png.rs
+++ b/src/codecs/png.rs
@@ -626,7 +626,8 @@ impl<W: Write> PngEncoder<W> {
             .map_err(|e| ImageError::IoError(e.into()))?;
         writer
             .write_image_data(data)
-            .map_err(|e| ImageError::IoError(e.into()))
+            .map_err(|e| ImageError::IoError(e.into()))?;
+        writer.finish().map_err(|e| ImageError::IoError(e.into()))
     }
 }
 
-- 
2.43.0


From 423da3464109c2230754300dcc9f42c9ee8546d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:34 +0000
Subject: [PATCH 08/36] fix: QOI decoder refuses a buffer that is not exactly
 total_bytes long

QoiDecoder::read_image only rejected buffers that were too short; a longer one
was filled with pixels (and zeros) before the call failed or panicked inside the
qoi crate, although ImageDecoder::read_image requires an exact length and a
refusal up front.
---
 src/codecs/qoi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/codecs/qoi.rs b/src/codecs/qoi.rs
index f42d21a..bc0b311 100644
--- a/src/codecs/qoi.rs
+++ b/src/codecs/qoi.rs
@@ -35,6 +35,8 @@ impl<R: Read> ImageDecoder for QoiDecoder<R> {
     }
 
     fn read_image(mut self, buf: &mut [u8]) -> ImageResult<()> {
+        assert_eq!(u64::try_from(buf.len()), Ok(self.total_bytes()));
+
         self.decoder.decode_to_buf(buf).map_err(decoding_error)?;
         Ok(())
     }
-- 
2.43.0


From baf8bf934ebf711c84f55f7301145426a3ef5357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 09/36] fix: HDR encoder refuses a buffer of the wrong length

HdrEncoder::write_image and HdrEncoder::encode accepted buffers with too much
data: trailing bytes were dropped and, for images outside the run-length width
range, surplus pixels were written after the image.
---
 src/codecs/hdr/encoder.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/codecs/hdr/encoder.rs b/src/codecs/hdr/encoder.rs
index 9358cda..ce5bd54 100644
--- a/src/codecs/hdr/encoder.rs
+++ b/src/codecs/hdr/encoder.rs
@@ -20,12 +20,19 @@ impl<W: Write> ImageEncoder for HdrEncoder<W> {
     ) -> ImageResult<()> {
         match color_type {
             ExtendedColorType::Rgb32F => {
+                let expected_buffer_len = color_type.buffer_size(width, height);
+                assert_eq!(
+                    expected_buffer_len,
+                    unaligned_bytes.len() as u64,
+                    "Invalid buffer length: expected {expected_buffer_len} got {} for {width}x{height} image",
+                    unaligned_bytes.len(),
+                );
+
                 let bytes_per_pixel = color_type.bits_per_pixel() as usize / 8;
                 let rgbe_pixels = unaligned_bytes
                     .chunks_exact(bytes_per_pixel)
                     .map(|bytes| to_rgbe8(Rgb::<f32>(bytemuck::pod_read_unaligned(bytes))));
 
-                // the length will be checked inside encode_pixels
                 self.encode_pixels(rgbe_pixels, width as usize, height as usize)
             }
 
@@ -58,9 +65,10 @@ impl<W: Write> HdrEncoder<W> {
         width: usize,
         height: usize,
     ) -> ImageResult<()> {
-        assert!(
-            flattened_rgbe_pixels.len() >= width * height,
-            "not enough pixels provided"
+        assert_eq!(
+            flattened_rgbe_pixels.len(),
+            width * height,
+            "wrong number of pixels provided"
         ); // bonus: this might elide some bounds checks
 
         let w = &mut self.w;
-- 
2.43.0


From 2ae5f6ef83b74e863bdd8638043c2290359ddb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:24 +0000
Subject: [PATCH 10/36] fix: refuse unsupported colour types before writing the
 TIFF header

---
 src/codecs/tiff.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/codecs/tiff.rs b/src/codecs/tiff.rs
index 8f99096..0a413f9 100644
--- a/src/codecs/tiff.rs
+++ b/src/codecs/tiff.rs
@@ -359,6 +359,24 @@ impl<W: Write + Seek> TiffEncoder<W> {
             buf.len(),
         );
 
+        // Refuse unsupported color types before the file header is written.
+        if !matches!(
+            color_type,
+            ExtendedColorType::L8
+                | ExtendedColorType::Rgb8
+                | ExtendedColorType::Rgba8
+                | ExtendedColorType::L16
+                | ExtendedColorType::Rgb16
+                | ExtendedColorType::Rgba16
+        ) {
+            return Err(ImageError::Unsupported(
+                UnsupportedError::from_format_and_kind(
+                    ImageFormat::Tiff.into(),
+                    UnsupportedErrorKind::Color(color_type),
+                ),
+            ));
+        }
+
         let mut encoder =
             tiff::encoder::TiffEncoder::new(self.w).map_err(ImageError::from_tiff_encode)?;
         match color_type {
@@ -386,14 +404,7 @@ impl<W: Write + Seek> TiffEncoder<W> {
                 height,
                 u8_slice_as_u16(buf)?,
             ),
-            _ => {
-                return Err(ImageError::Unsupported(
-                    UnsupportedError::from_format_and_kind(
-                        ImageFormat::Tiff.into(),
-                        UnsupportedErrorKind::Color(color_type),
-                    ),
-                ))
-            }
+            _ => unreachable!("color type was checked above"),
         }
         .map_err(ImageError::from_tiff_encode)?;
 
-- 
2.43.0


From dc55a14c802cc37d1c785c1dfbd6b31c0bcc4690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:20 +0000
Subject: [PATCH 11/36] fix: JpegEncoder::encode_image refuses pixels that are
 not 8 bits per sample

---
 src/codecs/jpeg/encoder.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/codecs/jpeg/encoder.rs b/src/codecs/jpeg/encoder.rs
index d61951a..0bd2a28 100644
--- a/src/codecs/jpeg/encoder.rs
+++ b/src/codecs/jpeg/encoder.rs
@@ -492,6 +492,22 @@ impl<W: Write> JpegEncoder<W> {
         let color_type = I::Pixel::COLOR_TYPE;
         let num_components = if n == 1 || n == 2 { 1 } else { 3 };
 
+        // Only 8-bit samples can be encoded.
+        if !matches!(
+            color_type,
+            ExtendedColorType::L8
+                | ExtendedColorType::La8
+                | ExtendedColorType::Rgb8
+                | ExtendedColorType::Rgba8
+        ) {
+            return Err(ImageError::Unsupported(
+                UnsupportedError::from_format_and_kind(
+                    ImageFormat::Jpeg.into(),
+                    UnsupportedErrorKind::Color(color_type),
+                ),
+            ));
+        }
+
         self.writer.write_marker(SOI)?;
 
         let mut buf = Vec::new();
-- 
2.43.0


From 4c6b269ebc5b5e399aad0513ff3d7282aa60ff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:15 +0000
Subject: [PATCH 12/36] fix: PNM encoder refuses a chosen header with another
 channel count or sample width

---
 src/codecs/pnm/encoder.rs | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 4b6cc18..0fdc14a 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -408,6 +408,13 @@ impl<'a> CheckedDimensions<'a> {
                     }),
                 ..
             } => match (tupltype, color) {
+                _ if depth != components => {
+                    return Err(ImageError::Parameter(ParameterError::from_kind(
+                        ParameterErrorKind::Generic(format!(
+                            "Depth mismatch: header {depth} vs. color {components}"
+                        )),
+                    )))
+                }
                 (&Some(ArbitraryTuplType::BlackAndWhite), ExtendedColorType::L1) => (),
                 (&Some(ArbitraryTuplType::BlackAndWhiteAlpha), ExtendedColorType::La8) => (),
 
@@ -419,15 +426,8 @@ impl<'a> CheckedDimensions<'a> {
                 (&Some(ArbitraryTuplType::RGB), ExtendedColorType::Rgb8) => (),
                 (&Some(ArbitraryTuplType::RGBAlpha), ExtendedColorType::Rgba8) => (),
 
-                (&None, _) if depth == components => (),
-                (&Some(ArbitraryTuplType::Custom(_)), _) if depth == components => (),
-                _ if depth != components => {
-                    return Err(ImageError::Parameter(ParameterError::from_kind(
-                        ParameterErrorKind::Generic(format!(
-                            "Depth mismatch: header {depth} vs. color {components}"
-                        )),
-                    )))
-                }
+                (&None, _) => (),
+                (&Some(ArbitraryTuplType::Custom(_)), _) => (),
                 _ => {
                     return Err(ImageError::Parameter(ParameterError::from_kind(
                         ParameterErrorKind::Generic(
@@ -494,6 +494,27 @@ impl<'a> CheckedHeaderColor<'a> {
 
         let encoding = image.encoding_for(&self.dimensions.unchecked.header.decoded);
 
+        // Binary samples take two bytes exactly if the header's maximum value exceeds 255.
+        let fits_header = match encoding {
+            TupleEncoding::Bytes {
+                samples: FlatSamples::U8(_),
+            } => header_maxval <= 0xff,
+            TupleEncoding::Bytes {
+                samples: FlatSamples::U16(_),
+            } => header_maxval > 0xff,
+            _ => true,
+        };
+        if !fits_header {
+            return Err(ImageError::Unsupported(
+                UnsupportedError::from_format_and_kind(
+                    ImageFormat::Pnm.into(),
+                    UnsupportedErrorKind::GenericFeature(
+                        "Sample width does not match the chosen header".to_owned(),
+                    ),
+                ),
+            ));
+        }
+
         let image = CheckedImageBuffer::check(
             image,
             self.dimensions.width,
-- 
2.43.0


From eee94f242a03910fabe3f7b9cc90a1509b67a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 13/36] fix: BMP encoder refuses dimensions that do not fit its
 header

---
 src/codecs/bmp/encoder.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/codecs/bmp/encoder.rs b/src/codecs/bmp/encoder.rs
index 457e5d9..cec3e1d 100644
--- a/src/codecs/bmp/encoder.rs
+++ b/src/codecs/bmp/encoder.rs
@@ -78,7 +78,7 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
         let image_size = width
             .checked_mul(height)
             .and_then(|v| v.checked_mul(written_pixel_size))
-            .and_then(|v| v.checked_add(height * row_pad_size))
+            .and_then(|v| v.checked_add(height.checked_mul(row_pad_size)?))
             .ok_or_else(|| {
                 ImageError::Parameter(ParameterError::from_kind(
                     ParameterErrorKind::DimensionMismatch,
@@ -96,6 +96,14 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
                 ))
             })?;
 
+        // the dimensions are stored as signed integers
+        let (Ok(signed_width), Ok(signed_height)) = (i32::try_from(width), i32::try_from(height))
+        else {
+            return Err(ImageError::Parameter(ParameterError::from_kind(
+                ParameterErrorKind::DimensionMismatch,
+            )));
+        };
+
         // write BMP header
         self.writer.write_u8(b'B')?;
         self.writer.write_u8(b'M')?;
@@ -107,8 +115,8 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
 
         // write DIB header
         self.writer.write_u32::<LittleEndian>(dib_header_size)?;
-        self.writer.write_i32::<LittleEndian>(width as i32)?;
-        self.writer.write_i32::<LittleEndian>(height as i32)?;
+        self.writer.write_i32::<LittleEndian>(signed_width)?;
+        self.writer.write_i32::<LittleEndian>(signed_height)?;
         self.writer.write_u16::<LittleEndian>(1)?; // color planes
         self.writer
             .write_u16::<LittleEndian>((written_pixel_size * 8) as u16)?; // bits per pixel
-- 
2.43.0


From 9c86fbaba767eb60b863d817ba7ceff6dbbf22c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 14/36] fix: JPEG encoder checks dimensions before writing
 anything

---
 src/codecs/jpeg/encoder.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/codecs/jpeg/encoder.rs b/src/codecs/jpeg/encoder.rs
index 0bd2a28..800cabd 100644
--- a/src/codecs/jpeg/encoder.rs
+++ b/src/codecs/jpeg/encoder.rs
@@ -508,6 +508,18 @@ impl<W: Write> JpegEncoder<W> {
             ));
         }
 
+        // TODO: not idiomatic yet. Should be an EncodingError and mention jpg.
+        let width = u16::try_from(image.width()).map_err(|_| {
+            ImageError::Parameter(ParameterError::from_kind(
+                ParameterErrorKind::DimensionMismatch,
+            ))
+        })?;
+        let height = u16::try_from(image.height()).map_err(|_| {
+            ImageError::Parameter(ParameterError::from_kind(
+                ParameterErrorKind::DimensionMismatch,
+            ))
+        })?;
+
         self.writer.write_marker(SOI)?;
 
         let mut buf = Vec::new();
@@ -521,18 +533,8 @@ impl<W: Write> JpegEncoder<W> {
         build_frame_header(
             &mut buf,
             8,
-            // TODO: not idiomatic yet. Should be an EncodingError and mention jpg. Further it
-            // should check dimensions prior to writing.
-            u16::try_from(image.width()).map_err(|_| {
-                ImageError::Parameter(ParameterError::from_kind(
-                    ParameterErrorKind::DimensionMismatch,
-                ))
-            })?,
-            u16::try_from(image.height()).map_err(|_| {
-                ImageError::Parameter(ParameterError::from_kind(
-                    ParameterErrorKind::DimensionMismatch,
-                ))
-            })?,
+            width,
+            height,
             &self.components[..num_components],
         );
         self.writer.write_segment(SOF0, &buf)?;
-- 
2.43.0


From 6746cb871ab1f2df948266b1c9d8d7c3cb57e59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:12 +0000
Subject: [PATCH 15/36] fix: read 16-bit TGA colour map indices as
 little-endian

---
 src/codecs/tga/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index 3ec8516..3709392 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -195,7 +195,7 @@ impl<R: Read> TgaDecoder<R> {
         #[inline]
         fn bytes_to_index(bytes: &[u8]) -> usize {
             let mut result = 0usize;
-            for byte in bytes {
+            for byte in bytes.iter().rev() {
                 result = (result << 8) | *byte as usize;
             }
             result
-- 
2.43.0


From b9abb02dc06ee54eb0bf491f558dc2e848e14a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:34 +0000
Subject: [PATCH 16/36] fix: forward orientation through boxed decoders

---
 src/image.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/image.rs b/src/image.rs
index a38fee9..1045423 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -749,6 +749,9 @@ impl<T: ?Sized + ImageDecoder> ImageDecoder for Box<T> {
     fn exif_metadata(&mut self) -> ImageResult<Option<Vec<u8>>> {
         (**self).exif_metadata()
     }
+    fn orientation(&mut self) -> ImageResult<Orientation> {
+        (**self).orientation()
+    }
     fn total_bytes(&self) -> u64 {
         (**self).total_bytes()
     }
-- 
2.43.0


From 0daba1a3583ef797fcf7eecfca992963fbb1f2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:15 +0000
Subject: [PATCH 17/36] fix: get_pixel_checked returns None below the image

ImageBuffer::from_raw accepts a container with more samples than the
image needs. get_pixel_checked and get_pixel_mut_checked then returned
trailing samples for y >= height instead of None.
---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 8ad6930..3346afa 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -780,7 +780,7 @@ where
     /// Gets a reference to the pixel at location `(x, y)` or returns `None` if
     /// the index is out of the bounds `(width, height)`.
     pub fn get_pixel_checked(&self, x: u32, y: u32) -> Option<&P> {
-        if x >= self.width {
+        if x >= self.width || y >= self.height {
             return None;
         }
         let num_channels = <P as Pixel>::CHANNEL_COUNT as usize;
@@ -958,7 +958,7 @@ where
     /// Gets a reference to the mutable pixel at location `(x, y)` or returns
     /// `None` if the index is out of the bounds `(width, height)`.
     pub fn get_pixel_mut_checked(&mut self, x: u32, y: u32) -> Option<&mut P> {
-        if x >= self.width {
+        if x >= self.width || y >= self.height {
             return None;
         }
         let num_channels = <P as Pixel>::CHANNEL_COUNT as usize;
-- 
2.43.0


From 18712fdd8e1d8c205e5c40c7f4dcf7235072d34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:50 +0000
Subject: [PATCH 18/36] fix: sub-image pixel access panics outside of the view

GenericImageView::get_pixel and the GenericImage accessors document a
panic out of bounds. A SubImage forwarded such coordinates to the image
behind it, and so read and wrote pixels outside of the view.
---
 src/image.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/image.rs b/src/image.rs
index 1045423..2cb2f89 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1287,6 +1287,18 @@ where
     }
 }
 
+/// Panics if `(x, y)` is outside of the view, even where it is inside of the image behind it.
+#[inline]
+#[track_caller]
+fn assert_in_bounds<I: GenericImageView>(view: &I, x: u32, y: u32) {
+    assert!(
+        view.in_bounds(x, y),
+        "Image index {:?} out of bounds {:?}",
+        (x, y),
+        view.dimensions()
+    );
+}
+
 #[allow(deprecated)]
 impl<I> GenericImageView for SubImageInner<I>
 where
@@ -1300,6 +1312,7 @@ where
     }
 
     fn get_pixel(&self, x: u32, y: u32) -> Self::Pixel {
+        assert_in_bounds(self, x, y);
         self.image.get_pixel(x + self.xoffset, y + self.yoffset)
     }
 }
@@ -1311,16 +1324,19 @@ where
     I::Target: GenericImage + Sized,
 {
     fn get_pixel_mut(&mut self, x: u32, y: u32) -> &mut Self::Pixel {
+        assert_in_bounds(self, x, y);
         self.image.get_pixel_mut(x + self.xoffset, y + self.yoffset)
     }
 
     fn put_pixel(&mut self, x: u32, y: u32, pixel: Self::Pixel) {
+        assert_in_bounds(self, x, y);
         self.image
             .put_pixel(x + self.xoffset, y + self.yoffset, pixel);
     }
 
     /// DEPRECATED: This method will be removed. Blend the pixel directly instead.
     fn blend_pixel(&mut self, x: u32, y: u32, pixel: Self::Pixel) {
+        assert_in_bounds(self, x, y);
         self.image
             .blend_pixel(x + self.xoffset, y + self.yoffset, pixel);
     }
-- 
2.43.0


From ef9e2ecd66b4d0e3ddf9836c83dd4366606a9ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:53 +0000
Subject: [PATCH 19/36] fix: adjusting contrast leaves alpha alone

contrast and contrast_in_place also applied the curve to the alpha
channel, so that reducing the contrast of an opaque image made it
translucent.
---
 src/imageops/colorops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 7289c09..846ad1a 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -100,7 +100,7 @@ where
     let percent = ((100.0 + contrast) / 100.0).powi(2);
 
     for (x, y, pixel) in image.pixels() {
-        let f = pixel.map(|b| {
+        let f = pixel.map_without_alpha(|b| {
             let c: f32 = NumCast::from(b).unwrap();
 
             let d = ((c / max - 0.5) * percent + 0.5) * max;
@@ -133,7 +133,7 @@ where
     // TODO find a way to use pixels?
     for y in 0..height {
         for x in 0..width {
-            let f = image.get_pixel(x, y).map(|b| {
+            let f = image.get_pixel(x, y).map_without_alpha(|b| {
                 let c: f32 = NumCast::from(b).unwrap();
 
                 let d = ((c / max - 0.5) * percent + 0.5) * max;
-- 
2.43.0


From 9234d3a6d628eadbbfa7526381f2fbdb6b8ad971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 20/36] fix: rotating hue leaves alpha alone

huerotate and huerotate_in_place limited alpha to 255 whatever the
component type, making 16-bit images transparent, and rotated the alpha
channel of gray images as if it were green.
---
 src/imageops/colorops.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 846ad1a..6cec89b 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -248,13 +248,18 @@ where
     for (x, y, pixel) in out.enumerate_pixels_mut() {
         let p = image.get_pixel(x, y);
 
+        // Gray has no hue, and its second channel is alpha.
+        if P::CHANNEL_COUNT < 3 {
+            *pixel = p;
+            continue;
+        }
+
         #[allow(deprecated)]
         let (k1, k2, k3, k4) = p.channels4();
-        let vec: (f64, f64, f64, f64) = (
+        let vec: (f64, f64, f64) = (
             NumCast::from(k1).unwrap(),
             NumCast::from(k2).unwrap(),
             NumCast::from(k3).unwrap(),
-            NumCast::from(k4).unwrap(),
         );
 
         let r = vec.0;
@@ -271,7 +276,7 @@ where
             NumCast::from(clamp(new_r, 0.0, max)).unwrap(),
             NumCast::from(clamp(new_g, 0.0, max)).unwrap(),
             NumCast::from(clamp(new_b, 0.0, max)).unwrap(),
-            NumCast::from(clamp(vec.3, 0.0, max)).unwrap(),
+            k4,
         );
         *pixel = outpixel;
     }
@@ -315,14 +320,18 @@ where
         for x in 0..width {
             let pixel = image.get_pixel(x, y);
 
+            // Gray has no hue, and its second channel is alpha.
+            if I::Pixel::CHANNEL_COUNT < 3 {
+                continue;
+            }
+
             #[allow(deprecated)]
             let (k1, k2, k3, k4) = pixel.channels4();
 
-            let vec: (f64, f64, f64, f64) = (
+            let vec: (f64, f64, f64) = (
                 NumCast::from(k1).unwrap(),
                 NumCast::from(k2).unwrap(),
                 NumCast::from(k3).unwrap(),
-                NumCast::from(k4).unwrap(),
             );
 
             let r = vec.0;
@@ -339,7 +348,7 @@ where
                 NumCast::from(clamp(new_r, 0.0, max)).unwrap(),
                 NumCast::from(clamp(new_g, 0.0, max)).unwrap(),
                 NumCast::from(clamp(new_b, 0.0, max)).unwrap(),
-                NumCast::from(clamp(vec.3, 0.0, max)).unwrap(),
+                k4,
             );
 
             image.put_pixel(x, y, outpixel);
-- 
2.43.0


From 3d576e581f60b7f35f7f9a60ae2adec46855aa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:09 +0000
Subject: [PATCH 21/36] fix: GenericImageView::pixels on a zero-width image
 ends instead of reading pixel (0, 1)

---
 src/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image.rs b/src/image.rs
index 2cb2f89..03687a2 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -858,7 +858,7 @@ impl<I: GenericImageView> Iterator for Pixels<'_, I> {
             self.y += 1;
         }
 
-        if self.y >= self.height {
+        if self.x >= self.width || self.y >= self.height {
             None
         } else {
             let pixel = self.image.get_pixel(self.x, self.y);
-- 
2.43.0


From 3f6f306b75b814a79010934efdd46a906c011712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:20 +0000
Subject: [PATCH 22/36] fix: GenericImage::copy_from reports an error for
 offsets where the sum overflows u32

---
 src/image.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/image.rs b/src/image.rs
index 03687a2..2e6afc7 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1032,7 +1032,9 @@ pub trait GenericImage: GenericImageView {
     {
         // Do bounds checking here so we can use the non-bounds-checking
         // functions to copy pixels.
-        if self.width() < other.width() + x || self.height() < other.height() + y {
+        if u64::from(self.width()) < u64::from(other.width()) + u64::from(x)
+            || u64::from(self.height()) < u64::from(other.height()) + u64::from(y)
+        {
             return Err(ImageError::Parameter(ParameterError::from_kind(
                 ParameterErrorKind::DimensionMismatch,
             )));
-- 
2.43.0


From a3c0ce58753c456f74e6a505b753b9f0f5562e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:20 +0000
Subject: [PATCH 23/36] fix: ImageBuffer::copy_within accepts a source
 rectangle of zero width

---
 src/buffer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index 3346afa..9734448 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -1230,6 +1230,9 @@ where
         if self.width() - dx.max(sx) < width || self.height() - dy.max(sy) < height {
             return false;
         }
+        if width == 0 {
+            return true;
+        }
 
         if sy < dy {
             for y in (0..height).rev() {
-- 
2.43.0


From fc856043e76ba1283cd190b018d662a832e1db7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:20 +0000
Subject: [PATCH 24/36] fix: imageops::tile with an empty image leaves the
 bottom image as it is

---
 src/imageops/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/imageops/mod.rs b/src/imageops/mod.rs
index ccd398a..17bb337 100644
--- a/src/imageops/mod.rs
+++ b/src/imageops/mod.rs
@@ -258,6 +258,11 @@ where
     I: GenericImage,
     J: GenericImageView<Pixel = I::Pixel>,
 {
+    // An empty image has no pixels to repeat
+    if top.width() == 0 || top.height() == 0 {
+        return;
+    }
+
     for x in (0..bottom.width()).step_by(top.width() as usize) {
         for y in (0..bottom.height()).step_by(top.height() as usize) {
             overlay(bottom, top, i64::from(x), i64::from(y));
-- 
2.43.0


From 49e5a1881f6bc9da9d43214837df0918cbb71d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:47 +0000
Subject: [PATCH 25/36] fix: filter3x3 underflowed on images without width or
 height

---
 src/imageops/sample.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index dc79552..cc1b6f6 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -880,8 +880,8 @@ where
     };
     let sum = (sum, sum, sum, sum);
 
-    for y in 1..height - 1 {
-        for x in 1..width - 1 {
+    for y in 1..height.saturating_sub(1) {
+        for x in 1..width.saturating_sub(1) {
             let mut t = (0.0, 0.0, 0.0, 0.0);
 
             // TODO: There is no need to recalculate the kernel for each pixel.
-- 
2.43.0


From 82a35ff5d360a9e3f1f605bcc9c1b570f0116bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:47 +0000
Subject: [PATCH 26/36] fix: resize_to_fill of an empty image asked for an
 intermediate image of unlimited size

---
 src/dynimage.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dynimage.rs b/src/dynimage.rs
index a013238..8b52ea9 100644
--- a/src/dynimage.rs
+++ b/src/dynimage.rs
@@ -808,6 +808,11 @@ impl DynamicImage {
         nheight: u32,
         filter: imageops::FilterType,
     ) -> DynamicImage {
+        if self.width() == 0 || self.height() == 0 {
+            // There is nothing to scale and no ratio to keep.
+            return self.resize_exact(nwidth, nheight, filter);
+        }
+
         let (width2, height2) =
             resize_dimensions(self.width(), self.height(), nwidth, nheight, true);
 
-- 
2.43.0


From 169dc46d5facba1ecb9b7246b8dc0f6e5a6eabb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:47 +0000
Subject: [PATCH 27/36] fix: JpegEncoder carried left-over padding bits into
 the next image

---
 src/codecs/jpeg/encoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/codecs/jpeg/encoder.rs b/src/codecs/jpeg/encoder.rs
index 800cabd..2ee5acb 100644
--- a/src/codecs/jpeg/encoder.rs
+++ b/src/codecs/jpeg/encoder.rs
@@ -214,7 +214,11 @@ impl<W: Write> BitWriter<W> {
     }
 
     fn pad_byte(&mut self) -> io::Result<()> {
-        self.write_bits(0x7F, 7)
+        self.write_bits(0x7F, 7)?;
+        // Whatever remains of the padding must not end up in the next image.
+        self.accumulator = 0;
+        self.nbits = 0;
+        Ok(())
     }
 
     fn huffman_encode(&mut self, val: u8, table: &[(u8, u16); 256]) -> io::Result<()> {
-- 
2.43.0


From af52c6316f95cc0eb0ed20f83d9e7e0fafa63aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:47 +0000
Subject: [PATCH 28/36] fix: gradients panicked on images one pixel high or
 wide

---
 src/imageops/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/imageops/mod.rs b/src/imageops/mod.rs
index 17bb337..c82c0b1 100644
--- a/src/imageops/mod.rs
+++ b/src/imageops/mod.rs
@@ -293,7 +293,8 @@ where
     for y in 0..img.height() {
         let pixel = start.map2(stop, |a, b| {
             let y = <S::Ratio as num_traits::NumCast>::from(y).unwrap();
-            let height = <S::Ratio as num_traits::NumCast>::from(img.height() - 1).unwrap();
+            let height =
+                <S::Ratio as num_traits::NumCast>::from((img.height() - 1).max(1)).unwrap();
             S::lerp(a, b, y / height)
         });
 
@@ -326,7 +327,7 @@ where
     for x in 0..img.width() {
         let pixel = start.map2(stop, |a, b| {
             let x = <S::Ratio as num_traits::NumCast>::from(x).unwrap();
-            let width = <S::Ratio as num_traits::NumCast>::from(img.width() - 1).unwrap();
+            let width = <S::Ratio as num_traits::NumCast>::from((img.width() - 1).max(1)).unwrap();
             S::lerp(a, b, x / width)
         });
 
-- 
2.43.0


From 0faf293d489fd8b21563d5e17172e3000c657510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:10 +0000
Subject: [PATCH 29/36] fix: blending LumaA pixels changed the background under
 a transparent pixel and the alpha of an opaque one

---
 src/color.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/color.rs b/src/color.rs
index a83ca8c..6cde10c 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -752,6 +752,14 @@ pub(crate) trait Blend {
 
 impl<T: Primitive> Blend for LumaA<T> {
     fn blend(&mut self, other: &LumaA<T>) {
+        if other.0[1].is_zero() {
+            return;
+        }
+        if other.0[1] == T::DEFAULT_MAX_VALUE {
+            *self = *other;
+            return;
+        }
+
         let max_t = T::DEFAULT_MAX_VALUE;
         let max_t = max_t.to_f32().unwrap();
         let (bg_luma, bg_a) = (self.0[0], self.0[1]);
-- 
2.43.0


From 950ab094b40980d35dcc8797d522349c1e32a8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:45 +0000
Subject: [PATCH 30/36] fix: APNG disposal to previous restored what the frame
 before had yet to clear

---
 src/codecs/png.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codecs/png.rs b/src/codecs/png.rs
index 101bb9a..32c3647 100644
--- a/src/codecs/png.rs
+++ b/src/codecs/png.rs
@@ -320,7 +320,6 @@ impl<R: BufRead + Seek> ApngDecoder<R> {
                 previous.clone_from(current);
             }
             DisposeOp::Background => {
-                previous.clone_from(current);
                 if let Some((px, py, width, height)) = self.dispose_region {
                     let mut region_current = current.sub_image(px, py, width, height);
 
@@ -336,6 +335,9 @@ impl<R: BufRead + Seek> ApngDecoder<R> {
                         *pixel = Rgba::from([0, 0, 0, 0]);
                     });
                 }
+                // What a later frame with dispose op previous restores is the canvas before that
+                // frame is drawn, that is after this one's region was cleared.
+                previous.clone_from(current);
             }
             DisposeOp::Previous => {
                 let (px, py, width, height) = self
-- 
2.43.0


From d3431a4954f28336f9180760756463423e8566fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:45 +0000
Subject: [PATCH 31/36] fix: Delay::from_saturating_duration overflowed beyond
 the longest delay

---
 src/animation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/animation.rs b/src/animation.rs
index f6dac64..673808a 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -181,7 +181,7 @@ impl Delay {
         let millis = millis as u32;
 
         let (a, b) = Self::closest_bounded_fraction(max_b, submillis, 1_000_000);
-        Self::from_numer_denom_ms(a + b * millis, b)
+        Self::from_numer_denom_ms((b * millis).saturating_add(a), b)
     }
 
     /// The numerator and denominator of the delay in milliseconds.
-- 
2.43.0


From 04f351a53eea4aa641ce89476a23eae9c3ad6b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:55 +0000
Subject: [PATCH 32/36] fix: brighten overflowed for large amounts and
 truncated floating-point samples

---
 src/imageops/colorops.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 6cec89b..343ca30 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -162,13 +162,14 @@ where
     let mut out = ImageBuffer::new(width, height);
 
     let max = S::DEFAULT_MAX_VALUE;
-    let max: i32 = NumCast::from(max).unwrap();
+    let max: f64 = NumCast::from(max).unwrap();
+    let value: f64 = NumCast::from(value).unwrap();
 
     for (x, y, pixel) in image.pixels() {
         let e = pixel.map_with_alpha(
             |b| {
-                let c: i32 = NumCast::from(b).unwrap();
-                let d = clamp(c + value, 0, max);
+                let c: f64 = NumCast::from(b).unwrap();
+                let d = clamp(c + value, 0.0, max);
 
                 NumCast::from(d).unwrap()
             },
@@ -192,15 +193,16 @@ where
     let (width, height) = image.dimensions();
 
     let max = <I::Pixel as Pixel>::Subpixel::DEFAULT_MAX_VALUE;
-    let max: i32 = NumCast::from(max).unwrap(); // TODO what does this do for f32? clamp at 1??
+    let max: f64 = NumCast::from(max).unwrap();
+    let value: f64 = NumCast::from(value).unwrap();
 
     // TODO find a way to use pixels?
     for y in 0..height {
         for x in 0..width {
             let e = image.get_pixel(x, y).map_with_alpha(
                 |b| {
-                    let c: i32 = NumCast::from(b).unwrap();
-                    let d = clamp(c + value, 0, max);
+                    let c: f64 = NumCast::from(b).unwrap();
+                    let d = clamp(c + value, 0.0, max);
 
                     NumCast::from(d).unwrap()
                 },
-- 
2.43.0


From 08a707245b9aa405b5f2dd87fd7a4d9ef4599066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:21 +0000
Subject: [PATCH 33/36] fix: huerotate clamped 16-bit samples to 255 and
 altered pixels by a full turn

---
 src/imageops/colorops.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 343ca30..ec7c81d 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -1,6 +1,6 @@
 //! Functions for altering and converting the color of pixelbufs
 
-use num_traits::NumCast;
+use num_traits::{Bounded, NumCast};
 
 use crate::color::{FromColor, IntoColor, Luma, LumaA};
 use crate::image::{GenericImage, GenericImageView};
@@ -229,7 +229,8 @@ where
     let (width, height) = image.dimensions();
     let mut out = ImageBuffer::new(width, height);
 
-    let angle: f64 = NumCast::from(value).unwrap();
+    // The sine of a full turn is not exactly zero.
+    let angle: f64 = NumCast::from(value % 360).unwrap();
 
     let cosv = angle.to_radians().cos();
     let sinv = angle.to_radians().sin();
@@ -271,7 +272,7 @@ where
         let new_r = matrix[0] * r + matrix[1] * g + matrix[2] * b;
         let new_g = matrix[3] * r + matrix[4] * g + matrix[5] * b;
         let new_b = matrix[6] * r + matrix[7] * g + matrix[8] * b;
-        let max = 255f64;
+        let max: f64 = NumCast::from(S::max_value()).unwrap();
 
         #[allow(deprecated)]
         let outpixel = Pixel::from_channels(
@@ -298,7 +299,8 @@ where
 {
     let (width, height) = image.dimensions();
 
-    let angle: f64 = NumCast::from(value).unwrap();
+    // The sine of a full turn is not exactly zero.
+    let angle: f64 = NumCast::from(value % 360).unwrap();
 
     let cosv = angle.to_radians().cos();
     let sinv = angle.to_radians().sin();
@@ -343,7 +345,7 @@ where
             let new_r = matrix[0] * r + matrix[1] * g + matrix[2] * b;
             let new_g = matrix[3] * r + matrix[4] * g + matrix[5] * b;
             let new_b = matrix[6] * r + matrix[7] * g + matrix[8] * b;
-            let max = 255f64;
+            let max: f64 = NumCast::from(<I::Pixel as Pixel>::Subpixel::max_value()).unwrap();
 
             #[allow(deprecated)]
             let outpixel = Pixel::from_channels(
-- 
2.43.0


From 15d46128612186ebc775a6fb117f8a37b5014cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:25 +0000
Subject: [PATCH 34/36] fix: write plain PBM samples as 0 and 1

The ASCII bitmap encoding wrote the raw sample values, so that a white pixel
became the token 255, which no PBM reader accepts. Like the binary encoding,
it now writes 1 for black (zero) samples and 0 for all others.
---
 src/codecs/pnm/encoder.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 0fdc14a..5797c04 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -70,6 +70,9 @@ enum TupleEncoding<'a> {
         samples: FlatSamples<'a>,
         width: u32,
     },
+    PbmAscii {
+        samples: FlatSamples<'a>,
+    },
     Ascii {
         samples: FlatSamples<'a>,
     },
@@ -617,7 +620,7 @@ impl<'a> FlatSamples<'a> {
             HeaderRecord::Bitmap(BitmapHeader {
                 encoding: SampleEncoding::Ascii,
                 ..
-            }) => TupleEncoding::Ascii { samples: *self },
+            }) => TupleEncoding::PbmAscii { samples: *self },
 
             HeaderRecord::Arbitrary(_) => TupleEncoding::Bytes { samples: *self },
 
@@ -670,6 +673,18 @@ impl TupleEncoding<'_> {
                 .write_pbm_bits(samples, width)
                 .map_err(ImageError::IoError),
 
+            // Black pixels are encoded as 1s
+            TupleEncoding::PbmAscii {
+                samples: FlatSamples::U8(samples),
+            } => SampleWriter(writer)
+                .write_samples_ascii(samples.iter().map(|&v| u8::from(v == 0)))
+                .map_err(ImageError::IoError),
+            TupleEncoding::PbmAscii {
+                samples: FlatSamples::U16(samples),
+            } => SampleWriter(writer)
+                .write_samples_ascii(samples.iter().map(|&v| u8::from(v == 0)))
+                .map_err(ImageError::IoError),
+
             TupleEncoding::Bytes {
                 samples: FlatSamples::U8(samples),
             } => writer.write_all(samples).map_err(ImageError::IoError),
-- 
2.43.0


From 094dc0da8b1e415a590b588ab53292aac761eaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:05 +0000
Subject: [PATCH 35/36] fix: test PNM sample values against the header the
 right way round

all_smaller returned whether any sample was too large, so that images within
the range of a chosen header were refused and images outside of it written.
Samples of a bitmap have no upper bound: everything but zero is white, and
an all-black image is no exception.
---
 src/codecs/pnm/encoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 5797c04..10cf0a6 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -451,7 +451,8 @@ impl<'a> CheckedDimensions<'a> {
 impl<'a> CheckedHeaderColor<'a> {
     fn check_sample_values(self, image: FlatSamples<'a>) -> ImageResult<CheckedHeader<'a>> {
         let header_maxval = match self.dimensions.unchecked.header.decoded {
-            HeaderRecord::Bitmap(_) => 1,
+            // All samples are allowed, everything but zero is written as white.
+            HeaderRecord::Bitmap(_) => u32::from(u16::MAX),
             HeaderRecord::Graymap(GraymapHeader { maxwhite, .. }) => maxwhite,
             HeaderRecord::Pixmap(PixmapHeader { maxval, .. }) => maxval,
             HeaderRecord::Arbitrary(ArbitraryHeader { maxval, .. }) => maxval,
@@ -601,8 +602,8 @@ impl<'a> FlatSamples<'a> {
 
     fn all_smaller(&self, max_val: u32) -> bool {
         match *self {
-            FlatSamples::U8(arr) => arr.iter().any(|&val| u32::from(val) > max_val),
-            FlatSamples::U16(arr) => arr.iter().any(|&val| u32::from(val) > max_val),
+            FlatSamples::U8(arr) => arr.iter().all(|&val| u32::from(val) <= max_val),
+            FlatSamples::U16(arr) => arr.iter().all(|&val| u32::from(val) <= max_val),
         }
     }
 
-- 
2.43.0


From ebbf450539106fde753eb84730304c40ec9be3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:08 +0000
Subject: [PATCH 36/36] fix: binary PBM encoding of images without columns does
 not panic

---
 src/codecs/pnm/encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 10cf0a6..2c09169 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -565,6 +565,10 @@ impl SampleWriter<'_> {
     where
         V: Default + Eq + Copy,
     {
+        if width == 0 {
+            return Ok(());
+        }
+
         // The length of an encoded scanline
         let line_width = (width - 1) / 8 + 1;
 
-- 
2.43.0

