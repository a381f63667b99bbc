From 7b38022707d0cd7a5c5f28664d943b240d791b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:21 +0000
Subject: [PATCH 01/23] fix: refuse a cel whose layer index equals the layer
 count

The bounds check let `layer_index == layers.len()` through to an
indexing panic.
---
 src/binary/file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/file.rs b/src/binary/file.rs
index 153018a..fa6de72 100644
--- a/src/binary/file.rs
+++ b/src/binary/file.rs
@@ -104,7 +104,7 @@ pub fn parse_file(input: &[u8]) -> Result<File<'_>, nom::Err<ParseError<'_>>> {
                     }
                     for cel in frame_cels {
                         let layer_index: usize = cel.layer_index.into();
-                        if layer_index > layers.len() {
+                        if layer_index >= layers.len() {
                             return Err(nom::Err::Failure(ParseError::LayerIndexOutOfBounds));
                         }
                         cels[layer_index] = Some(cel);
-- 
2.43.0


From e95f3f891c801ee5539cb388e4720b51c0362fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:23 +0000
Subject: [PATCH 02/23] fix: refuse a properties block smaller than its own
 header

The size of the block includes the two size fields; a smaller value made
`size_maps - 8` underflow.
---
 src/binary/chunks/user_data.rs | 10 ++++++++--
 src/binary/errors.rs           |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 102e94b..be91c8e 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -144,8 +144,14 @@ pub fn parse_properties_maps(
 ) -> ParseResult<'_, ParseResult<'_, Vec<PropertiesMap<'_>>>> {
     let (input, size_maps) = parse_dword_as_usize(input)?;
     let (input, num_maps) = parse_dword_as_usize(input)?;
-    // FIXME handle underflows
-    let (input, input_maps) = take(size_maps - 8)(input)?;
+    // The size includes the size and count fields itself.
+    let size =
+        size_maps
+            .checked_sub(8)
+            .ok_or(nom::Err::Failure(ParseError::InvalidPropertiesSize(
+                size_maps,
+            )))?;
+    let (input, input_maps) = take(size)(input)?;
     Ok((
         input,
         count(parse_properties_map, num_maps).parse(input_maps),
diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index ce6dced..687e312 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -31,6 +31,9 @@ pub enum ParseError<'a> {
     /// This variant is used when a unsupported property
     /// type is found in the user data.
     InvalidPropertyType(Word),
+    /// This variant is used when the size of the properties
+    /// maps is <8
+    InvalidPropertiesSize(usize),
     /// This variant is used when the nom combinators return
     /// an error.
     Nom(nom::error::Error<&'a [u8]>),
-- 
2.43.0


From 5a0058bb4caaf9558b01ee0c5feeae543de57631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 03/23] fix: report image decoding errors from render_frame

Cels that can't be decoded caused a panic.
---
 src/loader/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 59c05fc..849354a 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -308,7 +308,7 @@ impl AsepriteFile<'_> {
             }
 
             let mut cel_target = vec![0; usize::from(cel.size.0) * usize::from(cel.size.1) * 4];
-            self.load_image(cel.image_index, &mut cel_target).unwrap();
+            self.load_image(cel.image_index, &mut cel_target)?;
             let layer = &self.layers[cel.layer_index];
 
             let blend_fn = blend_mode_to_blend_fn(layer.blend_mode);
-- 
2.43.0


From cf8246c9b3c029d458143d768b4b58bad7ee9908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:27 +0000
Subject: [PATCH 04/23] fix: report unknown blend modes as error when rendering

Rendering a layer with a blend mode not known to this crate panicked.
---
 src/loader/blend.rs | 8 ++++----
 src/loader/mod.rs   | 6 +++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index fd99090..f368b1a 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -106,8 +106,8 @@ impl From<&[f64; 4]> for Color {
 }
 
 type BlendFn = fn(Color, Color, u8) -> Color;
-pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> BlendFn {
-    match mode {
+pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> Option<BlendFn> {
+    Some(match mode {
         BlendMode::Normal => normal,
         BlendMode::Multiply => multiply,
         BlendMode::Screen => screen,
@@ -127,8 +127,8 @@ pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> BlendFn {
         BlendMode::Addition => addition,
         BlendMode::Subtract => subtract,
         BlendMode::Divide => divide,
-        m => panic!("unimplemented blend mode: {:?}", m),
-    }
+        BlendMode::Unknown(_) => return None,
+    })
 }
 
 // --- addition ----------------------------------------------------------------
diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 849354a..9d8120b 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -311,7 +311,8 @@ impl AsepriteFile<'_> {
             self.load_image(cel.image_index, &mut cel_target)?;
             let layer = &self.layers[cel.layer_index];
 
-            let blend_fn = blend_mode_to_blend_fn(layer.blend_mode);
+            let blend_fn = blend_mode_to_blend_fn(layer.blend_mode)
+                .ok_or(LoadImageError::UnsupportedBlendMode(layer.blend_mode))?;
 
             for y in 0..cel.size.1 {
                 for x in 0..cel.size.0 {
@@ -436,6 +437,9 @@ pub enum LoadImageError {
     /// The file uses an unsupported color depth.
     #[error("unsupported color depth")]
     UnsupportedColorDepth,
+    /// A layer uses an unsupported blend mode.
+    #[error("unsupported blend mode: {0:?}")]
+    UnsupportedBlendMode(BlendMode),
     /// Zlib decompression failed.
     #[error("decompression failed")]
     DecompressError,
-- 
2.43.0


From 23da7dbf1ad36b12766cd65ee6533460ce1030ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:29 +0000
Subject: [PATCH 05/23] fix: report raw RGBA data of the wrong length as
 invalid

`copy_from_slice` panics if the lengths differ.
---
 src/loader/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 9d8120b..061134b 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -360,7 +360,12 @@ impl AsepriteFile<'_> {
         }
         let target = &mut target[..target_size];
         match (self.file.header.color_depth, image.compressed) {
-            (ColorDepth::Rgba, false) => target.copy_from_slice(image.data),
+            (ColorDepth::Rgba, false) => {
+                if image.data.len() != target.len() {
+                    return Err(LoadImageError::InvalidImageData);
+                }
+                target.copy_from_slice(image.data);
+            }
             (ColorDepth::Rgba, true) => decompress(image.data, target)?,
             (ColorDepth::Grayscale, false) => {
                 grayscale_to_rgba(image.data, target)?;
-- 
2.43.0


From 06736c773e4ea4f53875197646bb70fd1d4bf64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:30 +0000
Subject: [PATCH 06/23] fix: report compressed data that is too short

A zlib stream which ends before the target is filled left the rest of the
target with whatever it contained before.
---
 src/loader/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 061134b..7e8e10c 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -460,7 +460,8 @@ pub fn decompress(data: &[u8], target: &mut [u8]) -> Result<(), LoadImageError>
     let mut decompressor = Decompress::new(true);
     match decompressor.decompress(data, target, flate2::FlushDecompress::Finish) {
         Ok(flate2::Status::Ok | flate2::Status::BufError) => Err(LoadImageError::DecompressError),
-        Ok(flate2::Status::StreamEnd) => Ok(()),
+        Ok(flate2::Status::StreamEnd) if decompressor.total_out() == target.len() as u64 => Ok(()),
+        Ok(flate2::Status::StreamEnd) => Err(LoadImageError::InvalidImageData),
         Err(_) => Err(LoadImageError::DecompressError),
     }
 }
-- 
2.43.0


From d0fe33daaba1e57c6da62fa39669e6a34f29dd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:32 +0000
Subject: [PATCH 07/23] fix: read as many palette entries as the index range
 covers

The first field of the palette chunk is the new size of the whole palette
and not the number of entries in the chunk. Chunks that change only a part
of a palette could not be parsed.
---
 src/binary/chunks/palette.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/binary/chunks/palette.rs b/src/binary/chunks/palette.rs
index afcf108..db36852 100644
--- a/src/binary/chunks/palette.rs
+++ b/src/binary/chunks/palette.rs
@@ -6,9 +6,7 @@ use nom::{bytes::complete::take, combinator::cond, multi::count, Parser};
 use crate::binary::{
     errors::{ParseError, ParseResult},
     palette::PaletteError,
-    scalars::{
-        parse_color, parse_dword_as_u8, parse_dword_as_usize, parse_string, word, Color, Word,
-    },
+    scalars::{dword, parse_color, parse_dword_as_u8, parse_string, word, Color, Word},
 };
 
 #[derive(Debug)]
@@ -30,7 +28,7 @@ bitflags! {
 }
 
 pub fn parse_palette_chunk(input: &[u8]) -> ParseResult<'_, PaletteChunk<'_>> {
-    let (input, palette_size) = parse_dword_as_usize(input)?;
+    let (input, _palette_size) = dword(input)?;
     let (input, first_color_index) = parse_dword_as_u8(
         input,
         ParseError::PaletteError(PaletteError::FirstColorIndexOutOfBounds),
@@ -45,14 +43,9 @@ pub fn parse_palette_chunk(input: &[u8]) -> ParseResult<'_, PaletteChunk<'_>> {
         )));
     }
     let (input, _) = take(8usize)(input)?;
-    let (input, entries) = count(parse_palette_entry, palette_size).parse(input)?;
-    Ok((
-        input,
-        PaletteChunk {
-            indices: (first_color_index..=last_color_index),
-            entries,
-        },
-    ))
+    let indices = first_color_index..=last_color_index;
+    let (input, entries) = count(parse_palette_entry, indices.len()).parse(input)?;
+    Ok((input, PaletteChunk { indices, entries }))
 }
 
 pub fn parse_palette_entry(input: &[u8]) -> ParseResult<'_, PaletteEntry<'_>> {
-- 
2.43.0


From 12fb9ad103e32b70b2aebb32633a64233733cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:34 +0000
Subject: [PATCH 08/23] fix: scale the colors of the 6-bit old palette chunk

Colors of the 0x0011 chunk range from 0 to 63 and were used unscaled.
---
 src/binary/palette.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/binary/palette.rs b/src/binary/palette.rs
index 1fe09d0..3b7382a 100644
--- a/src/binary/palette.rs
+++ b/src/binary/palette.rs
@@ -5,7 +5,7 @@ use super::{
     chunks::{old_palette::OldPaletteChunk, palette::PaletteChunk},
     header::Header,
     raw_frame::RawFrame,
-    scalars::Color,
+    scalars::{Byte, Color},
 };
 
 #[derive(Debug)]
@@ -52,7 +52,12 @@ pub fn create_palette(header: &Header, frames: &[RawFrame<'_>]) -> Result<Palett
         })
         .collect();
     if !palette0004_chunks.is_empty() {
-        process_old_palette_chunks(header.transparent_index, &palette0004_chunks, &mut palette)?;
+        process_old_palette_chunks(
+            header.transparent_index,
+            &palette0004_chunks,
+            |c| c,
+            &mut palette,
+        )?;
         return Ok(palette);
     }
     let palette0011_chunks: Vec<_> = frames
@@ -68,7 +73,12 @@ pub fn create_palette(header: &Header, frames: &[RawFrame<'_>]) -> Result<Palett
         })
         .collect();
     if !palette0011_chunks.is_empty() {
-        process_old_palette_chunks(header.transparent_index, &palette0011_chunks, &mut palette)?;
+        process_old_palette_chunks(
+            header.transparent_index,
+            &palette0011_chunks,
+            scale_6bit_to_8bit,
+            &mut palette,
+        )?;
         return Ok(palette);
     }
     Err(PaletteError::Missing)
@@ -97,9 +107,15 @@ fn process_palette_chunks(
     }
 }
 
+/// Scale a color component of the 0x0011 palette chunk (0-63) to 0-255
+fn scale_6bit_to_8bit(value: Byte) -> Byte {
+    (value << 2) | (value >> 4)
+}
+
 fn process_old_palette_chunks(
     transparent_index: u8,
     chunks: &[&OldPaletteChunk],
+    scale: fn(Byte) -> Byte,
     palette: &mut Palette,
 ) -> Result<(), PaletteError> {
     let mut ok = false;
@@ -112,9 +128,9 @@ fn process_old_palette_chunks(
             }
             for color in &packet.colors {
                 palette.colors[color_idx] = Color {
-                    red: color.red,
-                    green: color.green,
-                    blue: color.blue,
+                    red: scale(color.red),
+                    green: scale(color.green),
+                    blue: scale(color.blue),
                     alpha: 255,
                 };
                 color_idx += 1;
-- 
2.43.0


From 7a9548f4fed4ab729b167a2d352b298e13e9585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 09/23] fix: values of the prefer-linked-cels, collapsed and
 reference layer flags

The decimal values of the specification were used as hexadecimal numbers.
---
 src/binary/chunks/layer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/binary/chunks/layer.rs b/src/binary/chunks/layer.rs
index 1847950..653e7a0 100644
--- a/src/binary/chunks/layer.rs
+++ b/src/binary/chunks/layer.rs
@@ -28,9 +28,9 @@ bitflags! {
         const EDITABLE = 0x2;
         const LOCK_MOVEMENT = 0x4;
         const BACKGROUND = 0x8;
-        const PREFER_LINKED_CELS = 0x16;
-        const COLLAPSED = 0x32;
-        const REFERENCE = 0x64;
+        const PREFER_LINKED_CELS = 0x10;
+        const COLLAPSED = 0x20;
+        const REFERENCE = 0x40;
     }
 }
 
-- 
2.43.0


From 11172cabb27ac33f2d1b73e5429e1dc107402b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:10 +0000
Subject: [PATCH 10/23] fix: keep the stored code of the first unknown enum
 value

`from_repr` numbers the `Unknown` variant as well and returned it with a
zero code for the value following the last known one.
---
 src/binary/blend_mode.rs            | 5 ++++-
 src/binary/chunks/cel.rs            | 5 ++++-
 src/binary/chunks/color_profile.rs  | 2 ++
 src/binary/chunks/external_files.rs | 5 ++++-
 src/binary/chunks/tags.rs           | 5 ++++-
 5 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/binary/blend_mode.rs b/src/binary/blend_mode.rs
index 99dcd07..7a27b18 100644
--- a/src/binary/blend_mode.rs
+++ b/src/binary/blend_mode.rs
@@ -31,7 +31,10 @@ pub enum BlendMode {
 
 impl From<Word> for BlendMode {
     fn from(word: Word) -> Self {
-        BlendMode::from_repr(word.into()).unwrap_or(BlendMode::Unknown(word))
+        // `from_repr` knows the `Unknown` variant, too
+        BlendMode::from_repr(word.into())
+            .filter(|mode| !matches!(mode, BlendMode::Unknown(_)))
+            .unwrap_or(BlendMode::Unknown(word))
     }
 }
 
diff --git a/src/binary/chunks/cel.rs b/src/binary/chunks/cel.rs
index a30fa85..926795e 100644
--- a/src/binary/chunks/cel.rs
+++ b/src/binary/chunks/cel.rs
@@ -42,7 +42,10 @@ enum CelType {
 
 impl From<Word> for CelType {
     fn from(word: Word) -> Self {
-        CelType::from_repr(word.into()).unwrap_or(Self::Unknown(word))
+        // `from_repr` knows the `Unknown` variant, too
+        CelType::from_repr(word.into())
+            .filter(|cel_type| !matches!(cel_type, Self::Unknown(_)))
+            .unwrap_or(Self::Unknown(word))
     }
 }
 
diff --git a/src/binary/chunks/color_profile.rs b/src/binary/chunks/color_profile.rs
index 2b9a737..88cecc6 100644
--- a/src/binary/chunks/color_profile.rs
+++ b/src/binary/chunks/color_profile.rs
@@ -41,7 +41,9 @@ pub enum ColorProfile<'a> {
 
 pub fn parse_color_profile(input: &[u8]) -> ParseResult<'_, ColorProfileChunk<'_>> {
     let (input, profile_type) = word(input)?;
+    // `from_repr` knows the `Unknown` variant, too
     let profile_type = ColorProfileType::from_repr(profile_type.into())
+        .filter(|profile_type| !matches!(profile_type, ColorProfileType::Unknown(_)))
         .unwrap_or(ColorProfileType::Unknown(profile_type));
     let (input, flags) = word(input)?;
     let flags = ColorProfileFlags::from_bits_truncate(flags);
diff --git a/src/binary/chunks/external_files.rs b/src/binary/chunks/external_files.rs
index c1e9dc6..1324a5a 100644
--- a/src/binary/chunks/external_files.rs
+++ b/src/binary/chunks/external_files.rs
@@ -34,7 +34,10 @@ pub enum ExternalFileType {
 
 impl From<Byte> for ExternalFileType {
     fn from(byte: Byte) -> Self {
-        Self::from_repr(byte).unwrap_or(Self::Unknown(byte))
+        // `from_repr` knows the `Unknown` variant, too
+        Self::from_repr(byte)
+            .filter(|file_type| !matches!(file_type, Self::Unknown(_)))
+            .unwrap_or(Self::Unknown(byte))
     }
 }
 
diff --git a/src/binary/chunks/tags.rs b/src/binary/chunks/tags.rs
index a9dfbd1..aad9a10 100644
--- a/src/binary/chunks/tags.rs
+++ b/src/binary/chunks/tags.rs
@@ -38,7 +38,10 @@ pub enum AnimationDirection {
 
 impl From<Byte> for AnimationDirection {
     fn from(byte: Byte) -> Self {
-        AnimationDirection::from_repr(byte.into()).unwrap_or(AnimationDirection::Unknown(byte))
+        // `from_repr` knows the `Unknown` variant, too
+        AnimationDirection::from_repr(byte.into())
+            .filter(|direction| !matches!(direction, AnimationDirection::Unknown(_)))
+            .unwrap_or(AnimationDirection::Unknown(byte))
     }
 }
 
-- 
2.43.0


From c2da00c8ac513637124415a8ab28971ca7672c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:12 +0000
Subject: [PATCH 11/23] fix: blue channel of the soft light blend mode

The blue channel was blended with itself.
---
 src/loader/blend.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index f368b1a..cd8e4c1 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -269,7 +269,7 @@ fn soft_light(back: Color, front: Color, opacity: u8) -> Color {
 fn soft_light_baseline(back: Color, front: Color, opacity: u8) -> Color {
     let r = blend_soft_light(back.r_i32(), front.r_i32());
     let g = blend_soft_light(back.g_i32(), front.g_i32());
-    let b = blend_soft_light(back.b_i32(), back.b_i32());
+    let b = blend_soft_light(back.b_i32(), front.b_i32());
 
     normal(back, Color::from(&[r, g, b, front.a_i32()]), opacity)
 }
-- 
2.43.0


From c4d2274dd870da5c7308b56b800790cd76b58ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:14 +0000
Subject: [PATCH 12/23] fix: use values from 0 to 1 in the HSL blend modes

The HSL functions and the conversion back to 8 bit work with values from
0 to 1 but got values from 0 to 255.
---
 src/loader/blend.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index cd8e4c1..1ca7109 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -26,16 +26,16 @@ impl Color {
         self.a.into()
     }
     fn r_f64(&self) -> f64 {
-        self.r.into()
+        f64::from(self.r) / 255.0
     }
     fn g_f64(&self) -> f64 {
-        self.g.into()
+        f64::from(self.g) / 255.0
     }
     fn b_f64(&self) -> f64 {
-        self.b.into()
+        f64::from(self.b) / 255.0
     }
     fn a_f64(&self) -> f64 {
-        self.a.into()
+        f64::from(self.a) / 255.0
     }
 }
 
-- 
2.43.0


From 0648ce95831bb387bc6c0e2797e037e4e331119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:16 +0000
Subject: [PATCH 13/23] fix: order of the flip bitmasks of tilemap cels

The bitmask for the X flip is stored before the one for the Y flip.
---
 src/binary/chunks/cel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/chunks/cel.rs b/src/binary/chunks/cel.rs
index 926795e..784ac96 100644
--- a/src/binary/chunks/cel.rs
+++ b/src/binary/chunks/cel.rs
@@ -120,8 +120,8 @@ pub fn parse_cel_chunk(input: &[u8]) -> ParseResult<'_, CelChunk<'_>> {
             let (input, height) = word(input)?;
             let (input, bits_per_tile) = word(input)?;
             let (input, bitmask_tile_id) = dword(input)?;
-            let (input, bitmask_y_flip) = dword(input)?;
             let (input, bitmask_x_flip) = dword(input)?;
+            let (input, bitmask_y_flip) = dword(input)?;
             let (input, bitmask_diagonal_flip) = dword(input)?;
             let (input, _) = take(10usize)(input)?;
             CelContent::CompressedTilemap {
-- 
2.43.0


From 61e6c572f936c8247bd5988546c13a5cbf47c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 14/23] fix: nested properties maps have no extension entry id

Only the properties maps at the top level are stored with an id.
---
 src/binary/chunks/user_data.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index be91c8e..7f509f4 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -160,8 +160,7 @@ pub fn parse_properties_maps(
 
 pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
     let (input, extension_entry_id) = dword(input)?;
-    let (input, num_props) = parse_dword_as_usize(input)?;
-    let (input, properties) = count(parse_property, num_props).parse(input)?;
+    let (input, properties) = parse_properties(input)?;
     Ok((
         input,
         PropertiesMap {
@@ -171,6 +170,24 @@ pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>>
     ))
 }
 
+/// Parse a properties map which is stored as value. Unlike the maps at the
+/// top level these are stored without an extension entry id.
+fn parse_nested_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
+    let (input, properties) = parse_properties(input)?;
+    Ok((
+        input,
+        PropertiesMap {
+            extension_entry_id: 0,
+            properties,
+        },
+    ))
+}
+
+fn parse_properties(input: &[u8]) -> ParseResult<'_, Vec<Property<'_>>> {
+    let (input, num_props) = parse_dword_as_usize(input)?;
+    count(parse_property, num_props).parse(input)
+}
+
 pub fn parse_property(input: &[u8]) -> ParseResult<'_, Property<'_>> {
     let (input, name) = parse_string(input)?;
     let (input, value) = parse_value(input)?;
@@ -201,7 +218,7 @@ pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
         PropertyType::Rect => map(parse_rect, Value::Rect).parse(input)?,
         PropertyType::Vector => map(parse_vector, Value::Vector).parse(input)?,
         PropertyType::PropertiesMap => {
-            map(parse_properties_map, Value::PropertiesMap).parse(input)?
+            map(parse_nested_properties_map, Value::PropertiesMap).parse(input)?
         }
         PropertyType::Uuid => map(parse_uuid, Value::Uuid).parse(input)?,
     })
@@ -241,7 +258,7 @@ pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
             map(count(parse_vector, len_elements), Vector::Vector).parse(input)?
         }
         PropertyType::PropertiesMap => map(
-            count(parse_properties_map, len_elements),
+            count(parse_nested_properties_map, len_elements),
             Vector::PropertiesMap,
         )
         .parse(input)?,
-- 
2.43.0


From 0af827d48ba5c2851558e1c0a87e8c4a118ae3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:20 +0000
Subject: [PATCH 15/23] fix: report chunks smaller than their size field as
 InvalidChunkSize

---
 src/binary/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/chunk.rs b/src/binary/chunk.rs
index 516b23b..01ae2a7 100644
--- a/src/binary/chunk.rs
+++ b/src/binary/chunk.rs
@@ -44,7 +44,7 @@ pub fn parse_chunks(input: &[u8], chunk_count: usize) -> ParseResult<'_, Vec<Chu
 }
 
 pub fn parse_chunk(input: &[u8]) -> ParseResult<'_, Chunk<'_>> {
-    let (input, size) = dword_size(input, ParseError::InvalidFrameSize)?;
+    let (input, size) = dword_size(input, ParseError::InvalidChunkSize)?;
     // FIXME handle underflows
     let (rest, input) = take(size - 4)(input)?;
     let (chunk_data, chunk_type) = parse_chunk_type(input)?;
-- 
2.43.0


From 5efeb7a94d2b43e44480dfb6b604423fcbfdf74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 16/23] fix: report invalid UTF-8 as such in all frames

A recoverable error makes `many1` end the list of frames, so that invalid
strings past the first frame were reported as unexpected data after the
last frame.
---
 src/binary/scalars.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/binary/scalars.rs b/src/binary/scalars.rs
index 3a734b3..1ca05ce 100644
--- a/src/binary/scalars.rs
+++ b/src/binary/scalars.rs
@@ -8,7 +8,7 @@
 
 use nom::{
     bytes::complete::take,
-    combinator::{flat_map, map_res},
+    combinator::flat_map,
     number::complete::{le_i16, le_i32, le_u128, le_u16, le_u32, le_u8},
     Parser,
 };
@@ -133,7 +133,10 @@ pub fn parse_dword_as_u8<'a>(input: &'a [u8], e: ParseError<'a>) -> ParseResult<
 }
 
 pub fn parse_string(input: &[u8]) -> ParseResult<'_, &str> {
-    map_res(flat_map(word, take), std::str::from_utf8).parse(input)
+    let (input, bytes) = flat_map(word, take).parse(input)?;
+    let string =
+        std::str::from_utf8(bytes).map_err(|e| nom::Err::Failure(ParseError::Utf8Error(e)))?;
+    Ok((input, string))
 }
 
 pub fn parse_uuid(input: &[u8]) -> ParseResult<'_, Uuid> {
-- 
2.43.0


From 9b7ab84d0d64fe0699f8f79f96841b56766b32bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 17/23] fix: find the user data of cels with extra data

The cel extra chunk is stored between the cel and its user data.
---
 src/binary/file.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/binary/file.rs b/src/binary/file.rs
index fa6de72..335c145 100644
--- a/src/binary/file.rs
+++ b/src/binary/file.rs
@@ -58,10 +58,18 @@ pub fn parse_file(input: &[u8]) -> Result<File<'_>, nom::Err<ParseError<'_>>> {
                     user_data: next_user_data(&mut chunks),
                     ..layer
                 }),
-                Chunk::Cel(cel) => cels.push(CelChunk {
-                    user_data: next_user_data(&mut chunks),
-                    ..cel
-                }),
+                Chunk::Cel(cel) => {
+                    let mut user_data = next_user_data(&mut chunks);
+                    // The user data of a cel follows the extra data of the cel if there is any
+                    if user_data.is_none()
+                        && chunks
+                            .next_if(|c| matches!(c, Chunk::CelExtra(_)))
+                            .is_some()
+                    {
+                        user_data = next_user_data(&mut chunks);
+                    }
+                    cels.push(CelChunk { user_data, ..cel });
+                }
                 Chunk::CelExtra(_) => {}
                 Chunk::ColorProfile(_) => {}
                 Chunk::ExternalFiles(_) => {}
-- 
2.43.0


From 85efb20afea5bc76ce7ed65c7e0e3cd541cf6f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:13 +0000
Subject: [PATCH 18/23] fix: limit the nesting depth of user data properties

Deeply nested vectors and properties maps made the parser exhaust the
stack and abort the process.
---
 src/binary/chunks/user_data.rs | 66 ++++++++++++++++++++++++++--------
 src/binary/errors.rs           |  3 ++
 2 files changed, 55 insertions(+), 14 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 7f509f4..fe0345f 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -158,9 +158,21 @@ pub fn parse_properties_maps(
     ))
 }
 
+/// Properties and vectors can be nested. The depth is limited so that files
+/// can't exhaust the stack.
+const MAX_NESTING_DEPTH: usize = 128;
+
+fn nested(depth: usize) -> Result<usize, nom::Err<ParseError<'static>>> {
+    if depth < MAX_NESTING_DEPTH {
+        Ok(depth + 1)
+    } else {
+        Err(nom::Err::Failure(ParseError::PropertiesNestedTooDeep))
+    }
+}
+
 pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
     let (input, extension_entry_id) = dword(input)?;
-    let (input, properties) = parse_properties(input)?;
+    let (input, properties) = parse_properties(input, 0)?;
     Ok((
         input,
         PropertiesMap {
@@ -172,8 +184,8 @@ pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>>
 
 /// Parse a properties map which is stored as value. Unlike the maps at the
 /// top level these are stored without an extension entry id.
-fn parse_nested_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
-    let (input, properties) = parse_properties(input)?;
+fn parse_nested_properties_map(input: &[u8], depth: usize) -> ParseResult<'_, PropertiesMap<'_>> {
+    let (input, properties) = parse_properties(input, nested(depth)?)?;
     Ok((
         input,
         PropertiesMap {
@@ -183,18 +195,26 @@ fn parse_nested_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_
     ))
 }
 
-fn parse_properties(input: &[u8]) -> ParseResult<'_, Vec<Property<'_>>> {
+fn parse_properties(input: &[u8], depth: usize) -> ParseResult<'_, Vec<Property<'_>>> {
     let (input, num_props) = parse_dword_as_usize(input)?;
-    count(parse_property, num_props).parse(input)
+    count(|input| parse_property_at(input, depth), num_props).parse(input)
 }
 
 pub fn parse_property(input: &[u8]) -> ParseResult<'_, Property<'_>> {
+    parse_property_at(input, 0)
+}
+
+fn parse_property_at(input: &[u8], depth: usize) -> ParseResult<'_, Property<'_>> {
     let (input, name) = parse_string(input)?;
-    let (input, value) = parse_value(input)?;
+    let (input, value) = parse_value_at(input, depth)?;
     Ok((input, Property { name, value }))
 }
 
 pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
+    parse_value_at(input, 0)
+}
+
+fn parse_value_at(input: &[u8], depth: usize) -> ParseResult<'_, Value<'_>> {
     let (input, prop_type) = word(input)?;
     let prop_type = PropertyType::from_repr(prop_type).ok_or(nom::Err::Failure(
         ParseError::InvalidPropertyType(prop_type),
@@ -216,19 +236,32 @@ pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
         PropertyType::Point => map(parse_point, Value::Point).parse(input)?,
         PropertyType::Size => map(parse_size, Value::Size).parse(input)?,
         PropertyType::Rect => map(parse_rect, Value::Rect).parse(input)?,
-        PropertyType::Vector => map(parse_vector, Value::Vector).parse(input)?,
-        PropertyType::PropertiesMap => {
-            map(parse_nested_properties_map, Value::PropertiesMap).parse(input)?
+        PropertyType::Vector => {
+            map(|input| parse_vector_at(input, depth), Value::Vector).parse(input)?
         }
+        PropertyType::PropertiesMap => map(
+            |input| parse_nested_properties_map(input, depth),
+            Value::PropertiesMap,
+        )
+        .parse(input)?,
         PropertyType::Uuid => map(parse_uuid, Value::Uuid).parse(input)?,
     })
 }
 
 pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
+    parse_vector_at(input, 0)
+}
+
+fn parse_vector_at(input: &[u8], depth: usize) -> ParseResult<'_, Vector<'_>> {
+    let depth = nested(depth)?;
     let (input, len_elements) = parse_dword_as_usize(input)?;
     let (input, prop_type) = word(input)?;
     if prop_type == 0 {
-        return map(count(parse_value, len_elements), Vector::Mixed).parse(input);
+        return map(
+            count(|input| parse_value_at(input, depth), len_elements),
+            Vector::Mixed,
+        )
+        .parse(input);
     }
     let prop_type = PropertyType::from_repr(prop_type).ok_or(nom::Err::Failure(
         ParseError::InvalidPropertyType(prop_type),
@@ -254,11 +287,16 @@ pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
         PropertyType::Point => map(count(parse_point, len_elements), Vector::Point).parse(input)?,
         PropertyType::Size => map(count(parse_size, len_elements), Vector::Size).parse(input)?,
         PropertyType::Rect => map(count(parse_rect, len_elements), Vector::Rect).parse(input)?,
-        PropertyType::Vector => {
-            map(count(parse_vector, len_elements), Vector::Vector).parse(input)?
-        }
+        PropertyType::Vector => map(
+            count(|input| parse_vector_at(input, depth), len_elements),
+            Vector::Vector,
+        )
+        .parse(input)?,
         PropertyType::PropertiesMap => map(
-            count(parse_nested_properties_map, len_elements),
+            count(
+                |input| parse_nested_properties_map(input, depth),
+                len_elements,
+            ),
             Vector::PropertiesMap,
         )
         .parse(input)?,
diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index 687e312..ae70c4b 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -34,6 +34,9 @@ pub enum ParseError<'a> {
     /// This variant is used when the size of the properties
     /// maps is <8
     InvalidPropertiesSize(usize),
+    /// This variant is used when properties maps and vectors in
+    /// the user data are nested too deeply
+    PropertiesNestedTooDeep,
     /// This variant is used when the nom combinators return
     /// an error.
     Nom(nom::error::Error<&'a [u8]>),
-- 
2.43.0


From 03ac3faa0d05bb3cc2400c55252a04a704401d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:49 +0000
Subject: [PATCH 19/23] fix: treat layers as opaque if the layer opacity is not
 valid

The opacity of the layers is only valid if the corresponding header flag
is set.
---
 src/loader/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 7e8e10c..e647d67 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -138,7 +138,12 @@ impl AsepriteFile<'_> {
                 if layer.layer_type == LayerType::Normal || layer.layer_type == LayerType::Group {
                     Some(Layer {
                         name: layer.name.to_string(),
-                        opacity: layer.opacity,
+                        // The first header flag tells if the layer opacity is valid
+                        opacity: if file.header.flags & 1 != 0 {
+                            layer.opacity
+                        } else {
+                            255
+                        },
                         blend_mode: layer.blend_mode,
                         visible: layer.flags.contains(LayerFlags::VISIBLE),
                         layer_type: layer.layer_type,
-- 
2.43.0


From 9c5a76a30a83f7a19e75afddf3feb1715cdd76c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 20/23] fix: layer index of cels in files with unsupported
 layers

Tilemap layers and layers of unknown type are not part of the layer list.
The cels of the layers above them referred to the wrong layer.
---
 src/loader/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index e647d67..5f53959 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -131,11 +131,16 @@ impl AsepriteFile<'_> {
         let file = parse_file(data).map_err(|e| LoadSpriteError::Parse {
             message: e.to_string(),
         })?;
+        // Index of each layer of the file in the list of supported layers
+        let mut layer_indices: Vec<Option<usize>> = Vec::with_capacity(file.layers.len());
+        let mut layer_count = 0;
         let layers: Vec<_> = file
             .layers
             .iter()
             .filter_map(|layer| {
                 if layer.layer_type == LayerType::Normal || layer.layer_type == LayerType::Group {
+                    layer_indices.push(Some(layer_count));
+                    layer_count += 1;
                     Some(Layer {
                         name: layer.name.to_string(),
                         // The first header flag tells if the layer opacity is valid
@@ -149,6 +154,7 @@ impl AsepriteFile<'_> {
                         layer_type: layer.layer_type,
                     })
                 } else {
+                    layer_indices.push(None);
                     None
                 }
             })
@@ -202,12 +208,16 @@ impl AsepriteFile<'_> {
                         })
                     }
                 };
+                // Cels of unsupported layers are left out like the layers themselves
+                let Some(layer_index) = layer_indices[usize::from(cel.layer_index)] else {
+                    continue;
+                };
                 let width = image_vec[image_index].width;
                 let height = image_vec[image_index].height;
                 cels.push(FrameCel {
                     origin: (cel.x, cel.y),
                     size: (width, height),
-                    layer_index: cel.layer_index.into(),
+                    layer_index,
                     image_index,
                 });
             }
-- 
2.43.0


From 8ff84e1cb060de5ccc192b5e72826222a90759e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 21/23] fix: apply the opacity of cels

---
 src/loader/blend.rs |  2 +-
 src/loader/mod.rs   | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index 1ca7109..02fc775 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -444,7 +444,7 @@ where
     normal(back, Color::new(r, g, b, front.a), opacity)
 }
 
-fn mul8(a: i32, b: i32) -> u8 {
+pub(crate) fn mul8(a: i32, b: i32) -> u8 {
     let t = a * b + 0x80;
     let r = ((t >> 8) + t) >> 8;
     r as u8
diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 5f53959..b0bb150 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -26,7 +26,7 @@ use crate::{
         image::Image,
         palette::Palette,
     },
-    loader::blend::{blend_mode_to_blend_fn, Color},
+    loader::blend::{blend_mode_to_blend_fn, mul8, Color},
 };
 
 /// This can be used to load an Aseprite file.
@@ -53,6 +53,8 @@ pub struct FrameCel {
     pub origin: (i16, i16),
     /// Cel size in pixels `(width, height)`.
     pub size: (u16, u16),
+    /// Cel opacity in the range `0..=255`.
+    pub opacity: u8,
     /// Index into [`AsepriteFile::layers`].
     pub layer_index: usize,
     /// Index into [`AsepriteFile::images`].
@@ -217,6 +219,7 @@ impl AsepriteFile<'_> {
                 cels.push(FrameCel {
                     origin: (cel.x, cel.y),
                     size: (width, height),
+                    opacity: cel.opacity,
                     layer_index,
                     image_index,
                 });
@@ -289,7 +292,14 @@ impl AsepriteFile<'_> {
         let mut hasher = DefaultHasher::new();
         let frame = &self.frames[frame_index];
         for cel in frame.cels.iter() {
-            (cel.image_index, cel.layer_index, cel.origin, cel.size).hash(&mut hasher);
+            (
+                cel.image_index,
+                cel.layer_index,
+                cel.origin,
+                cel.size,
+                cel.opacity,
+            )
+                .hash(&mut hasher);
         }
         Ok(hasher.finish())
     }
@@ -329,6 +339,8 @@ impl AsepriteFile<'_> {
             let blend_fn = blend_mode_to_blend_fn(layer.blend_mode)
                 .ok_or(LoadImageError::UnsupportedBlendMode(layer.blend_mode))?;
 
+            let opacity = mul8(layer.opacity.into(), cel.opacity.into());
+
             for y in 0..cel.size.1 {
                 for x in 0..cel.size.0 {
                     let Some(target_x) = x.checked_add_signed(cel.origin.0) else {
@@ -354,7 +366,7 @@ impl AsepriteFile<'_> {
 
                     let back = Color::from(&*target_pixel);
                     let front = Color::from(cel_pixel);
-                    let out = blend_fn(back, front, layer.opacity);
+                    let out = blend_fn(back, front, opacity);
 
                     target_pixel[0] = out.r;
                     target_pixel[1] = out.g;
-- 
2.43.0


From a8c3bef61c96e512d03b493c73f84f6b8f29c641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 22/23] fix: apply the z-index of cels

Cels are stored in the order they have to be drawn in, which is their layer
index plus z-index.
---
 src/loader/mod.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index b0bb150..5f86e9d 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -70,7 +70,7 @@ pub struct Frame {
     pub duration: u16,
     /// Frame origin in sprite coordinates.
     pub origin: (i16, i16),
-    /// Cels in this frame.
+    /// Cels in this frame in the order they are drawn in.
     pub cels: Vec<FrameCel>,
 }
 
@@ -192,7 +192,7 @@ impl AsepriteFile<'_> {
         }
 
         for (index, frame) in file.frames.iter().enumerate() {
-            let mut cels: Vec<FrameCel> = Vec::new();
+            let mut cels: Vec<((i32, i16), FrameCel)> = Vec::new();
             for cel in frame.cels.iter().filter_map(|x| x.as_ref()) {
                 let image_index = match cel.content {
                     CelContent::Image(_) => image_map[&(index, cel.layer_index.into())],
@@ -216,19 +216,28 @@ impl AsepriteFile<'_> {
                 };
                 let width = image_vec[image_index].width;
                 let height = image_vec[image_index].height;
-                cels.push(FrameCel {
-                    origin: (cel.x, cel.y),
-                    size: (width, height),
-                    opacity: cel.opacity,
-                    layer_index,
-                    image_index,
-                });
+                let order = (
+                    i32::from(cel.layer_index) + i32::from(cel.z_index),
+                    cel.z_index,
+                );
+                cels.push((
+                    order,
+                    FrameCel {
+                        origin: (cel.x, cel.y),
+                        size: (width, height),
+                        opacity: cel.opacity,
+                        layer_index,
+                        image_index,
+                    },
+                ));
             }
+            // Cels with the same order keep the order of their layers
+            cels.sort_by_key(|(order, _)| *order);
 
             frames.push(Frame {
                 duration: frame.duration,
                 origin: (0, 0),
-                cels,
+                cels: cels.into_iter().map(|(_, cel)| cel).collect(),
             });
         }
 
-- 
2.43.0


From 7e519621bfd250cf17c5a7c1f23a83fda56e02bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:57 +0000
Subject: [PATCH 23/23] fix: hide the layers of hidden groups

Layers are visible only if all the groups they are part of are visible,
too.
---
 src/loader/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 5f86e9d..718fe7f 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -98,7 +98,8 @@ pub struct Layer {
     pub opacity: u8,
     /// Layer blend mode.
     pub blend_mode: BlendMode,
-    /// Whether the layer is visible in the source file.
+    /// Whether the layer is visible in the source file. Layers of hidden groups
+    /// are not visible.
     pub visible: bool,
     /// Layer kind (normal/group/etc).
     pub layer_type: LayerType,
@@ -136,10 +137,22 @@ impl AsepriteFile<'_> {
         // Index of each layer of the file in the list of supported layers
         let mut layer_indices: Vec<Option<usize>> = Vec::with_capacity(file.layers.len());
         let mut layer_count = 0;
+        // Visibility of the last layer of each child level
+        let mut visible_levels: Vec<(u16, bool)> = Vec::new();
         let layers: Vec<_> = file
             .layers
             .iter()
             .filter_map(|layer| {
+                // A layer is only visible if the layers it is a child of are visible, too
+                while visible_levels
+                    .last()
+                    .is_some_and(|(level, _)| *level >= layer.child_level)
+                {
+                    let _ = visible_levels.pop();
+                }
+                let visible = layer.flags.contains(LayerFlags::VISIBLE)
+                    && visible_levels.last().map_or(true, |(_, visible)| *visible);
+                visible_levels.push((layer.child_level, visible));
                 if layer.layer_type == LayerType::Normal || layer.layer_type == LayerType::Group {
                     layer_indices.push(Some(layer_count));
                     layer_count += 1;
@@ -152,7 +165,7 @@ impl AsepriteFile<'_> {
                             255
                         },
                         blend_mode: layer.blend_mode,
-                        visible: layer.flags.contains(LayerFlags::VISIBLE),
+                        visible,
                         layer_type: layer.layer_type,
                     })
                 } else {
-- 
2.43.0

