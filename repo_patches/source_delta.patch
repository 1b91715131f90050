From 207bfe193d20dcae881500c2a68af69971a835f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 01/34] Verification hook: include external harness modules
 under cfg(victor_verif)

---
 lester/src/lib.rs        | 5 +++++
 victor/src/dom/mod.rs    | 5 +++++
 victor/src/fonts/mod.rs  | 5 +++++
 victor/src/layout/mod.rs | 5 +++++
 victor/src/lib.rs        | 5 +++++
 victor/src/pdf/mod.rs    | 5 +++++
 victor/src/style/mod.rs  | 5 +++++
 7 files changed, 35 insertions(+)

diff --git a/lester/src/lib.rs b/lester/src/lib.rs
index a16458d..a2f6034 100644
--- a/lester/src/lib.rs
+++ b/lester/src/lib.rs
@@ -84,3 +84,8 @@ pub fn pixels_to_hex(pixels: &[u32]) -> String {
         .collect::<Vec<_>>()
         .join(", ")
 }
+
+#[cfg(victor_verif)]
+mod verif {
+    include!(concat!(env!("VICTOR_VERIF_DIR"), "/lester.rs"));
+}
diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index 8603d44..ff519c6 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -306,3 +306,8 @@ impl fmt::Debug for Node {
         f.debug_tuple("Node").field(&ptr).finish()
     }
 }
+
+#[cfg(victor_verif)]
+mod verif {
+    include!(concat!(env!("VICTOR_VERIF_DIR"), "/dom.rs"));
+}
diff --git a/victor/src/fonts/mod.rs b/victor/src/fonts/mod.rs
index b9afc51..17442e8 100644
--- a/victor/src/fonts/mod.rs
+++ b/victor/src/fonts/mod.rs
@@ -295,3 +295,8 @@ macro_rules! include_fonts {
 include_fonts! {
     BITSTREAM_VERA_SANS: "../../fonts/vera/Vera.ttf",
 }
+
+#[cfg(victor_verif)]
+mod verif {
+    include!(concat!(env!("VICTOR_VERIF_DIR"), "/fonts.rs"));
+}
diff --git a/victor/src/layout/mod.rs b/victor/src/layout/mod.rs
index ad4f4a7..5db5ae3 100644
--- a/victor/src/layout/mod.rs
+++ b/victor/src/layout/mod.rs
@@ -137,3 +137,8 @@ where
 {
     std::mem::replace(x, Default::default())
 }
+
+#[cfg(victor_verif)]
+mod verif {
+    include!(concat!(env!("VICTOR_VERIF_DIR"), "/layout.rs"));
+}
diff --git a/victor/src/lib.rs b/victor/src/lib.rs
index 4687c05..07d9d8a 100644
--- a/victor/src/lib.rs
+++ b/victor/src/lib.rs
@@ -54,3 +54,8 @@ https://github.com/fonttools/fonttools
 https://github.com/bodoni/opentype + https://github.com/bodoni/truetype
 
 */
+
+#[cfg(victor_verif)]
+mod verif {
+    include!(concat!(env!("VICTOR_VERIF_DIR"), "/root.rs"));
+}
diff --git a/victor/src/pdf/mod.rs b/victor/src/pdf/mod.rs
index f5636a7..609a799 100644
--- a/victor/src/pdf/mod.rs
+++ b/victor/src/pdf/mod.rs
@@ -72,3 +72,8 @@ impl<'doc> Page<'doc> {
         Ok(self)
     }
 }
+
+#[cfg(victor_verif)]
+mod verif {
+    include!(concat!(env!("VICTOR_VERIF_DIR"), "/pdf.rs"));
+}
diff --git a/victor/src/style/mod.rs b/victor/src/style/mod.rs
index 95b1c85..ad79256 100644
--- a/victor/src/style/mod.rs
+++ b/victor/src/style/mod.rs
@@ -8,3 +8,8 @@ pub(crate) mod values;
 
 pub(crate) use self::cascade::{style_for_element, StyleSet, StyleSetBuilder};
 pub(crate) use self::properties::ComputedValues;
+
+#[cfg(victor_verif)]
+mod verif {
+    include!(concat!(env!("VICTOR_VERIF_DIR"), "/style.rs"));
+}
-- 
2.43.0


From a151c72a854e89680880d2ff4c78a44a3116f852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 02/34] fix: iterate font record slices in reverse from the
 last record, not one past it

---
 victor/src/fonts/parsing.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/victor/src/fonts/parsing.rs b/victor/src/fonts/parsing.rs
index 580ad9d..9afba31 100644
--- a/victor/src/fonts/parsing.rs
+++ b/victor/src/fonts/parsing.rs
@@ -275,13 +275,12 @@ impl<T> Iterator for SliceIter<T> {
 impl<T> DoubleEndedIterator for SliceIter<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         if self.start != self.end {
-            let next = self.end;
-            let byte_position = next.byte_position - mem::size_of::<T>() as u32;
+            let byte_position = self.end.byte_position - mem::size_of::<T>() as u32;
             self.end = Position {
                 byte_position,
                 ty: PhantomData,
             };
-            Some(next)
+            Some(self.end)
         } else {
             None
         }
-- 
2.43.0


From 42215365e496f5991f8f062d6cbc1dd72d28cd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 03/34] fix: out-of-range offsets in a font file are an error,
 not an integer overflow

---
 victor/src/fonts/parsing.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/victor/src/fonts/parsing.rs b/victor/src/fonts/parsing.rs
index 9afba31..2f60444 100644
--- a/victor/src/fonts/parsing.rs
+++ b/victor/src/fonts/parsing.rs
@@ -44,13 +44,14 @@ impl<T> Position<T> {
 
     pub(in crate::fonts) fn offset_bytes<U, O: Into<u32>>(self, by: O) -> Position<U> {
         Position {
-            byte_position: self.byte_position + by.into(),
+            // Out-of-range offsets saturate, so that reading there is an error
+            byte_position: self.byte_position.saturating_add(by.into()),
             ty: PhantomData,
         }
     }
 
     pub(in crate::fonts) fn offset<O: Into<u32>>(self, by: O) -> Position<T> {
-        self.offset_bytes(mem::size_of::<T>() as u32 * by.into())
+        self.offset_bytes((mem::size_of::<T>() as u32).saturating_mul(by.into()))
     }
 
     pub(in crate::fonts) fn followed_by<U>(self) -> Position<U> {
-- 
2.43.0


From 0a45e4ad7750088bc4eba55b396506e2842d2ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 04/34] fix: enumerate exactly the code points that cmap lookup
 maps, for malformed or large-glyph-id groups too

---
 victor/src/fonts/cmap.rs | 41 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/victor/src/fonts/cmap.rs b/victor/src/fonts/cmap.rs
index 3e3d729..2da8123 100644
--- a/victor/src/fonts/cmap.rs
+++ b/victor/src/fonts/cmap.rs
@@ -3,6 +3,7 @@ use crate::fonts::tables::*;
 use crate::fonts::{FontError, GlyphId};
 use std::char;
 use std::cmp::Ordering;
+use std::convert::TryInto;
 
 pub(in crate::fonts) enum Cmap {
     Format4(Format4),
@@ -134,18 +135,12 @@ impl Format4 {
         for segment_index in 0..self.segment_count {
             let start_code = self.start_codes.offset(segment_index).read_from(bytes)?;
             let end_code = self.end_codes.offset(segment_index).read_from(bytes)?;
-            let mut code_point = start_code;
-            loop {
+            for code_point in start_code..=end_code {
                 if let Some(glyph_id) =
                     self.glyph_id(bytes, segment_index, start_code, code_point)?
                 {
                     f(u32::from(code_point), glyph_id)
                 }
-
-                if code_point == end_code {
-                    break;
-                }
-                code_point += 1
             }
         }
         Ok(())
@@ -214,19 +209,24 @@ impl Format12 {
 
         if let Some(index) = result? {
             let group = self.groups.get_unchecked(index);
-            let id32 = group.start_glyph_id().read_from(bytes)?
-                + (code_point - group.start_char_code().read_from(bytes)?);
-            // Glyph IDs are 16 bits in PDF.
-            // For now, pretend that glyphs with larger IDs are missing.
-            // FIXME: Maybe this will be unnecessary with PDF font subsetting?
-            if id32 <= 0xFFFF {
-                return Ok(Some(id32 as u16));
-            }
+            return Ok(Self::glyph_id(
+                group.start_glyph_id().read_from(bytes)?,
+                code_point - group.start_char_code().read_from(bytes)?,
+            ));
         }
 
         Ok(None)
     }
 
+    fn glyph_id(start_glyph_id: u32, offset_in_group: u32) -> Option<u16> {
+        // Glyph IDs are 16 bits in PDF.
+        // For now, pretend that glyphs with larger IDs are missing.
+        // FIXME: Maybe this will be unnecessary with PDF font subsetting?
+        start_glyph_id
+            .checked_add(offset_in_group)
+            .and_then(|id| id.try_into().ok())
+    }
+
     fn each_code_point<F>(&self, bytes: &[u8], mut f: F) -> Result<(), FontError>
     where
         F: FnMut(u32, u16),
@@ -235,15 +235,10 @@ impl Format12 {
             let start_code = group.start_char_code().read_from(bytes)?;
             let end_code = group.end_char_code().read_from(bytes)?;
             let start_glyph_id = group.start_glyph_id().read_from(bytes)?;
-            let mut code_point = start_code;
-            loop {
-                let glyph_id = (code_point - start_code) + start_glyph_id;
-                f(code_point, glyph_id as u16);
-
-                if code_point == end_code {
-                    break;
+            for code_point in start_code..=end_code.min(char::MAX as u32) {
+                if let Some(glyph_id) = Self::glyph_id(start_glyph_id, code_point - start_code) {
+                    f(code_point, glyph_id)
                 }
-                code_point += 1;
             }
         }
         Ok(())
-- 
2.43.0


From 28bb002f565ddba81b6bf79744033f95913f4e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 05/34] fix: escape the number sign in PDF names

---
 victor/src/pdf/object.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index 1e17745..432a4dc 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -243,8 +243,9 @@ fn write_name<W: Write>(name: &[u8], w: &mut W) -> io::Result<()> {
     w.write_all(b"/")?;
     for &byte in name {
         match KIND[byte as usize] {
-            CharKind::Regular => w.write_all(&[byte])?,
-            CharKind::Whitespace | CharKind::Delimiter => {
+            // The number sign introduces an escape, so it needs one itself.
+            CharKind::Regular if byte != b'#' => w.write_all(&[byte])?,
+            _ => {
                 w.write_all(b"#")?;
                 write_hex(byte, w)?
             }
-- 
2.43.0


From f5d95c6898922110b43c0638ccfa7b0362452b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 06/34] fix: escape carriage returns in PDF literal strings

---
 victor/src/pdf/object.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index 432a4dc..e2fe3f9 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -161,6 +161,8 @@ impl<'a> Object<'a> {
                 for &byte in value {
                     match byte {
                         b'\\' | b'(' | b')' => w.write_all(&[b'\\', byte])?,
+                        // A bare carriage return would be read back as a line feed.
+                        b'\r' => w.write_all(b"\\r")?,
                         _ => w.write_all(&[byte])?,
                     }
                 }
-- 
2.43.0


From 438d36eabaa9074160bc80a32fdb573d6a8ac80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 07/34] fix: solve the inline-axis equation of in-flow blocks
 as in CSS 2, 10.3.3

Auto margins ignored the other margin, an over-constrained end margin ignored
the start margin, and overflowing boxes got negative auto margins or widths.
---
 victor/src/layout/flow/mod.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index a810dfb..1708625 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -315,6 +315,7 @@ fn layout_in_flow_non_replaced_block_level<'a>(
     let pb = &padding + &border;
     let box_size = style.box_size();
     let inline_size = box_size.inline.percentage_relative_to(cbis);
+    let zero = Length::zero();
     if let LengthOrAuto::Length(is) = inline_size {
         let inline_margins = cbis - is - pb.inline_sum();
         use LengthOrAuto::*;
@@ -323,25 +324,30 @@ fn layout_in_flow_non_replaced_block_level<'a>(
             &mut computed_margin.inline_end,
         ) {
             (s @ &mut Auto, e @ &mut Auto) => {
-                *s = Length(inline_margins / 2.);
-                *e = Length(inline_margins / 2.);
+                // If the box is too wide, 'auto' margins are treated as zero…
+                let start = (inline_margins / 2.).max(zero);
+                *s = Length(start);
+                *e = Length(inline_margins - start);
             }
-            (s @ &mut Auto, _) => {
-                *s = Length(inline_margins);
+            (s @ &mut Auto, e @ &mut Length(_)) => {
+                let start = (inline_margins - e.auto_is(|| zero)).max(zero);
+                *s = Length(start);
+                *e = Length(inline_margins - start);
             }
-            (_, e @ &mut Auto) => {
-                *e = Length(inline_margins);
-            }
-            (_, e @ _) => {
+            (&mut Length(start), e @ _) => {
                 // Either the inline-end margin is auto,
                 // or we’re over-constrained and we do as if it were.
-                *e = Length(inline_margins);
+                *e = Length(inline_margins - start);
             }
         }
     }
-    let margin = computed_margin.auto_is(Length::zero);
+    let margin = computed_margin.auto_is(|| zero);
     let mut block_margins_collapsed_with_children = CollapsedBlockMargins::from_margin(&margin);
-    let inline_size = inline_size.auto_is(|| cbis - pb.inline_sum() - margin.inline_sum());
+    // 'min-width' and 'min-height' are always zero: https://drafts.csswg.org/css2/visudet.html#min-max-widths
+    let inline_size = inline_size.auto_is(|| {
+        let fill_available = cbis - pb.inline_sum() - margin.inline_sum();
+        fill_available.max(zero)
+    });
     let block_size = match box_size.block {
         LengthOrPercentageOrAuto::Length(l) => LengthOrAuto::Length(l),
         LengthOrPercentageOrAuto::Percentage(p) => containing_block.block_size.map(|cbbs| cbbs * p),
-- 
2.43.0


From 79ca6489e7b4ed779c1a0e9095025a02b5e5d763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 08/34] fix: margins collapse through boxes of height 0, and
 auto heights are never negative

---
 victor/src/layout/flow/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index 1708625..d7ab4aa 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -373,6 +373,9 @@ fn layout_in_flow_non_replaced_block_level<'a>(
             Length::zero(),
             LengthOrAuto::Auto,
         );
+    // Unlike above, zero is as good as 'auto' here.
+    let this_end_margin_can_collapse_with_this_start_margin =
+        pb.block_end == zero && block_size.auto_is(|| zero) == zero;
     let mut nested_abspos = vec![];
     let mut flow_children = layout_contents(
         &containing_block_for_children,
@@ -408,12 +411,12 @@ fn layout_in_flow_non_replaced_block_level<'a>(
     }
     block_margins_collapsed_with_children.collapsed_through =
         this_start_margin_can_collapse_with_children.0
-            && this_end_margin_can_collapse_with_children
+            && this_end_margin_can_collapse_with_this_start_margin
             && flow_children
                 .collapsible_margins_in_children
                 .collapsed_through;
     let relative_adjustement = relative_adjustement(style, inline_size, block_size);
-    let block_size = block_size.auto_is(|| flow_children.block_size);
+    let block_size = block_size.auto_is(|| flow_children.block_size.max(zero));
     let content_rect = Rect {
         start_corner: Vec2 {
             block: pb.block_start + relative_adjustement.block,
-- 
2.43.0


From a32706463fed90e8cb08371f68477a4ef86b9813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 09/34] fix: relative offsets in percent are relative to the
 containing block, not to the box itself

---
 victor/src/layout/flow/mod.rs |  2 +-
 victor/src/layout/mod.rs      | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index d7ab4aa..4f403f5 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -415,7 +415,7 @@ fn layout_in_flow_non_replaced_block_level<'a>(
             && flow_children
                 .collapsible_margins_in_children
                 .collapsed_through;
-    let relative_adjustement = relative_adjustement(style, inline_size, block_size);
+    let relative_adjustement = relative_adjustement(style, cbis, containing_block.block_size);
     let block_size = block_size.auto_is(|| flow_children.block_size.max(zero));
     let content_rect = Rect {
         start_corner: Vec2 {
diff --git a/victor/src/layout/mod.rs b/victor/src/layout/mod.rs
index 5db5ae3..15adbf1 100644
--- a/victor/src/layout/mod.rs
+++ b/victor/src/layout/mod.rs
@@ -103,6 +103,8 @@ struct DefiniteContainingBlock {
 }
 
 /// https://drafts.csswg.org/css2/visuren.html#relative-positioning
+///
+/// `inline_size` and `block_size` are those of the containing block.
 fn relative_adjustement(
     style: &ComputedValues,
     inline_size: Length,
@@ -118,10 +120,14 @@ fn relative_adjustement(
             (LengthOrAuto::Length(start), _) => start,
         }
     }
-    let block_size = block_size.auto_is(Length::zero);
     let box_offsets = style.box_offsets().map_inline_and_block_axes(
         |v| v.percentage_relative_to(inline_size),
-        |v| v.percentage_relative_to(block_size),
+        |v| match (v, block_size) {
+            // “If the height of the containing block is not specified explicitly […],
+            //  the percentage value […] is treated like 'auto'.”
+            (LengthOrPercentageOrAuto::Percentage(_), LengthOrAuto::Auto) => LengthOrAuto::Auto,
+            _ => v.percentage_relative_to(block_size.auto_is(Length::zero)),
+        },
     );
     Vec2 {
         inline: adjust(box_offsets.inline_start, box_offsets.inline_end),
-- 
2.43.0


From 367d3f455431aacf823c0a526d1086bd50d49ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 10/34] fix: lay out absolutely positioned boxes on the
 matching axis of their containing block

---
 victor/src/layout/positioned.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index 9794d1a..fa65ed2 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -217,7 +217,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
         );
 
         let (block_anchor, block_size, margin_block_start, margin_block_end) = solve_axis(
-            cbis,
+            cbbs,
             pb.block_sum(),
             computed_margin.block_start,
             computed_margin.block_end,
@@ -263,7 +263,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
 
         let inline_start = match inline_anchor {
             Anchor::Start(start) => start + pb.inline_start + margin.inline_start,
-            Anchor::End(end) => cbbs - end - pb.inline_end - margin.inline_end - inline_size,
+            Anchor::End(end) => cbis - end - pb.inline_end - margin.inline_end - inline_size,
         };
 
         let block_size = block_size.auto_is(|| flow_children.block_size);
-- 
2.43.0


From 0afa30c68022c274b5328475bcae86eacc14de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 11/34] fix: static positions are relative to the content area,
 absolute boxes to the padding box

---
 victor/src/layout/flow/mod.rs   |  2 +-
 victor/src/layout/positioned.rs | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index 4f403f5..a51cf8f 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -429,7 +429,7 @@ fn layout_in_flow_non_replaced_block_level<'a>(
     };
     if style.box_.position.is_relatively_positioned() {
         AbsolutelyPositionedFragment::in_positioned_containing_block(
-            &nested_abspos,
+            &mut nested_abspos,
             &mut flow_children.fragments,
             &content_rect.size,
             &padding,
diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index fa65ed2..3226d01 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -83,7 +83,7 @@ impl AbsolutelyPositionedBox {
 
 impl<'a> AbsolutelyPositionedFragment<'a> {
     pub(super) fn in_positioned_containing_block(
-        absolute: &[Self],
+        absolute: &mut [Self],
         fragments: &mut Vec<Fragment>,
         content_rect_size: &Vec2<Length>,
         padding: &Sides<Length>,
@@ -98,6 +98,15 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
             start_corner: Vec2::zero(),
         }
         .inflate(&padding);
+        // Static positions so far are relative to the content rect.
+        for a in &mut *absolute {
+            if let AbsoluteBoxOffsets::StaticStart { start } = &mut a.inline_start {
+                *start += padding.inline_start;
+            }
+            if let AbsoluteBoxOffsets::StaticStart { start } = &mut a.block_start {
+                *start += padding.block_start;
+            }
+        }
         let containing_block = DefiniteContainingBlock {
             size: padding_rect.size.clone(),
             mode,
@@ -284,7 +293,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
         };
 
         AbsolutelyPositionedFragment::in_positioned_containing_block(
-            &absolutely_positioned_fragments,
+            &mut absolutely_positioned_fragments,
             &mut flow_children.fragments,
             &content_rect.size,
             &padding,
-- 
2.43.0


From c4dfd2e341944ca743b26464c4d49f1dde746f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 12/34] fix: automatic sizes of absolutely positioned boxes are
 never negative

---
 victor/src/layout/positioned.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index 3226d01..d67062d 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -191,13 +191,14 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
                         }
                         size
                     } else {
-                        // FIXME(nox): What happens if that is negative?
-                        containing_size
+                        // Sizes are never negative: 'min-width' and 'min-height' are at least zero.
+                        (containing_size
                             - start
                             - end
                             - padding_border_sum
                             - margin_start
-                            - margin_end
+                            - margin_end)
+                            .max(Length::zero())
                     };
                     (
                         Anchor::Start(start),
@@ -249,7 +250,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
             };
 
             // FIXME(nox): shrink-to-fit.
-            available_size
+            available_size.max(Length::zero())
         });
 
         let containing_block_for_children = ContainingBlock {
@@ -275,7 +276,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
             Anchor::End(end) => cbis - end - pb.inline_end - margin.inline_end - inline_size,
         };
 
-        let block_size = block_size.auto_is(|| flow_children.block_size);
+        let block_size = block_size.auto_is(|| flow_children.block_size.max(Length::zero()));
         let block_start = match block_anchor {
             Anchor::Start(start) => start + pb.block_start + margin.block_start,
             Anchor::End(end) => cbbs - end - pb.block_end - margin.block_end - block_size,
-- 
2.43.0


From 22f79d5d01b7e3827e98fa575239f08506df9f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 13/34] fix: the inline size of an inline box fragment is that
 of its contents

---
 victor/src/layout/flow/inline.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 5c39bb9..a86fc21 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -233,7 +233,7 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
             children: take(&mut nesting_level.fragments_so_far),
             content_rect: Rect {
                 size: Vec2 {
-                    inline: *inline_position - self.start_corner.inline,
+                    inline: *inline_position - nesting_level.inline_start,
                     block: nesting_level.max_block_size_of_fragments_so_far,
                 },
                 start_corner: self.start_corner.clone(),
@@ -325,7 +325,6 @@ impl TextRun {
                 break;
             } else {
                 // New line
-                ifc.current_nesting_level.inline_start = Length::zero();
                 let mut nesting_level = &mut ifc.current_nesting_level;
                 for partial in ifc.partial_inline_boxes_stack.iter_mut().rev() {
                     partial.finish_layout(nesting_level, &mut ifc.inline_position, true);
@@ -333,9 +332,10 @@ impl TextRun {
                     partial.padding.inline_start = Length::zero();
                     partial.border.inline_start = Length::zero();
                     partial.margin.inline_start = Length::zero();
-                    partial.parent_nesting_level.inline_start = Length::zero();
+                    nesting_level.inline_start = Length::zero();
                     nesting_level = &mut partial.parent_nesting_level;
                 }
+                nesting_level.inline_start = Length::zero();
                 ifc.line_boxes
                     .finish_line(nesting_level, ifc.containing_block);
                 ifc.inline_position = Length::zero();
-- 
2.43.0


From 5eaca22755942cdf107ec1a7efff1c84d2890b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 14/34] fix: lines after the first have the whole inline size
 available

---
 victor/src/layout/flow/inline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index a86fc21..f9d7a10 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -269,9 +269,9 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
 
 impl TextRun {
     fn layout(&self, ifc: &mut InlineFormattingContextState) {
-        let available = ifc.containing_block.inline_size - ifc.inline_position;
         let mut chars = self.text.chars();
         loop {
+            let available = ifc.containing_block.inline_size - ifc.inline_position;
             let mut shaped = ShapedSegment::new_with_naive_shaping(BITSTREAM_VERA_SANS.clone());
             let mut last_break_opportunity = None;
             loop {
-- 
2.43.0


From b0004218e9ec209bffc90e9dd9f6960dd9c35dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 15/34] fix: do not lose a space between text runs that ends
 just outside the line

---
 victor/src/layout/flow/inline.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index f9d7a10..e5d9ed9 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -273,15 +273,18 @@ impl TextRun {
         loop {
             let available = ifc.containing_block.inline_size - ifc.inline_position;
             let mut shaped = ShapedSegment::new_with_naive_shaping(BITSTREAM_VERA_SANS.clone());
-            let mut last_break_opportunity = None;
+            let mut last_break_opportunity: Option<(_, std::str::Chars)> = None;
             loop {
                 let next = chars.next();
                 if matches!(next, Some(' ') | None) {
                     let inline_size = self.parent_style.font.font_size * shaped.advance_width;
                     if inline_size > available {
                         if let Some((state, iter)) = last_break_opportunity.take() {
-                            shaped.restore(&state);
-                            chars = iter;
+                            // A space at the end of the run hangs: other text may follow.
+                            if !iter.as_str().is_empty() {
+                                shaped.restore(&state);
+                                chars = iter;
+                            }
                         }
                         break;
                     }
-- 
2.43.0


From f888f79fe038f57636004ba67b9e2e1c9ed488ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 16/34] fix: relative positioning moves all fragments of an
 inline box

---
 victor/src/layout/flow/inline.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index e5d9ed9..13c94fd 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -331,7 +331,13 @@ impl TextRun {
                 let mut nesting_level = &mut ifc.current_nesting_level;
                 for partial in ifc.partial_inline_boxes_stack.iter_mut().rev() {
                     partial.finish_layout(nesting_level, &mut ifc.inline_position, true);
-                    partial.start_corner.inline = Length::zero();
+                    // Every fragment is relatively positioned
+                    partial.start_corner.inline = relative_adjustement(
+                        &partial.style,
+                        ifc.containing_block.inline_size,
+                        ifc.containing_block.block_size,
+                    )
+                    .inline;
                     partial.padding.inline_start = Length::zero();
                     partial.border.inline_start = Length::zero();
                     partial.margin.inline_start = Length::zero();
-- 
2.43.0


From a39e9535846885f96c6342fc386c6ddc0d0d4a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 17/34] fix: do not leave the subtree of an element that is not
 displayed, or loop forever at its end

---
 victor/src/layout/dom_traversal.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/victor/src/layout/dom_traversal.rs b/victor/src/layout/dom_traversal.rs
index 848e89b..73a5fb1 100644
--- a/victor/src/layout/dom_traversal.rs
+++ b/victor/src/layout/dom_traversal.rs
@@ -327,18 +327,18 @@ impl Context<'_> {
             }
             let mut next_is_a_sibling_of = node_id;
             node_id = loop {
+                if next_is_a_sibling_of == base_element {
+                    // Don’t go outside the subtree
+                    return;
+                }
                 if let Some(sibling) = self.document[next_is_a_sibling_of].next_sibling {
                     break sibling;
                 } else {
-                    next_is_a_sibling_of = node
+                    next_is_a_sibling_of = self.document[next_is_a_sibling_of]
                         .parent
                         .expect("reached the root while traversing only a subtree");
                 }
             };
-            if next_is_a_sibling_of == base_element {
-                // Don’t go outside the subtree
-                return;
-            }
         }
     }
 }
-- 
2.43.0


From d73bbdba34aa30e784fdd9e835d3e9cf43d79cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 18/34] fix: inline boxes may be ongoing when a block-level box
 splits them

---
 victor/src/layout/flow/construct.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 4acfc93..4729d5d 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -470,11 +470,6 @@ impl<'a> BlockContainerBuilder<'a> {
     }
 
     fn end_ongoing_inline_formatting_context(&mut self) {
-        assert!(
-            self.ongoing_inline_boxes_stack.is_empty(),
-            "there should be no ongoing inline level boxes",
-        );
-
         if self
             .ongoing_inline_formatting_context
             .inline_level_boxes
-- 
2.43.0


From 2a3db7728b6580ae336a057edd68194ab5464f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 19/34] fix: keep a space at the start of an inline element
 that follows text

---
 victor/src/layout/flow/construct.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 4729d5d..38567c3 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -267,8 +267,20 @@ impl<'a> BlockContainerBuilder<'a> {
         if !text.starts_with(|c: char| c.is_ascii_whitespace()) {
             return (false, text);
         }
-        let mut inline_level_boxes = self.current_inline_level_boxes().iter().rev();
+        // What precedes this text in the ongoing inline boxes, innermost last
         let mut stack = Vec::new();
+        stack.push(
+            self.ongoing_inline_formatting_context
+                .inline_level_boxes
+                .iter()
+                .rev(),
+        );
+        stack.extend(
+            self.ongoing_inline_boxes_stack
+                .iter()
+                .map(|ongoing| ongoing.children.iter().rev()),
+        );
+        let mut inline_level_boxes = stack.pop().unwrap();
         let preserved = loop {
             match inline_level_boxes.next().map(|b| &**b) {
                 Some(InlineLevelBox::TextRun(r)) => break !r.text.ends_with(' '),
-- 
2.43.0


From 3afba1522fad164838c91560b2ee302eec7db8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 20/34] fix: drop declarations with trailing tokens instead of
 panicking

---
 victor/src/style/declaration_block.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/victor/src/style/declaration_block.rs b/victor/src/style/declaration_block.rs
index 68699de..d0d0519 100644
--- a/victor/src/style/declaration_block.rs
+++ b/victor/src/style/declaration_block.rs
@@ -100,6 +100,11 @@ impl<'i> DeclarationParser<'i> for LonghandDeclarationParser {
                 parsed = (data.parse)(parser, &mut self.block.declarations)?
             }
             let important = parser.r#try(cssparser::parse_important).is_ok();
+            if let Err(error) = parser.expect_exhausted() {
+                // The declaration is invalid, and our caller will drop it.
+                self.block.declarations.truncate(previous_len);
+                return Err(error.into());
+            }
             let count = self.block.declarations.len() - previous_len;
             assert!(count > 0);
             self.block.important.extend(repeat(important).take(count));
-- 
2.43.0


From 309c8ed43284e9c9fe456e0ee75fe53a9c217937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:36 +0000
Subject: [PATCH 21/34] fix: compare CSS keywords case-insensitively

---
 proc-macros/src/style.rs        | 2 +-
 victor/src/style/values/box_.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/style.rs b/proc-macros/src/style.rs
index 901ac09..ca44c80 100644
--- a/proc-macros/src/style.rs
+++ b/proc-macros/src/style.rs
@@ -158,7 +158,7 @@ pub fn derive_parse(input: TokenStream) -> TokenStream {
     if !unit_variants.is_empty() {
         parse.extend(quote! {
             if let Ok(ident) = parser.r#try(|parser| parser.expect_ident_cloned()) {
-                match &*ident {
+                match_ignore_ascii_case! { &*ident,
                     #(
                         #keywords => return Ok(#unit_variants),
                     )*
diff --git a/victor/src/style/values/box_.rs b/victor/src/style/values/box_.rs
index 4a5184d..24904b3 100644
--- a/victor/src/style/values/box_.rs
+++ b/victor/src/style/values/box_.rs
@@ -78,7 +78,7 @@ impl Display {
 impl super::Parse for Display {
     fn parse<'i, 't>(parser: &mut Parser<'i, 't>) -> Result<Self, PropertyParseError<'i>> {
         let ident = parser.expect_ident()?;
-        match &**ident {
+        match_ignore_ascii_case! { &**ident,
             "none" => Ok(Display::None),
             "contents" => Ok(Display::Contents),
             "block" => Ok(Display::GeneratingBox(
-- 
2.43.0


From 3de470f01c9714c68b3de713ca5a6b263a02d812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 22/34] fix: name of the border-right-color property

---
 victor/src/style/properties/definitions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/style/properties/definitions.rs b/victor/src/style/properties/definitions.rs
index ad414d2..2568cfe 100644
--- a/victor/src/style/properties/definitions.rs
+++ b/victor/src/style/properties/definitions.rs
@@ -43,7 +43,7 @@ properties! {
         border_top_color { "border-top-color", Color, initial = Color::CurrentColor }
         border_left_color { "border-left-color", Color, initial = Color::CurrentColor }
         border_bottom_color { "border-bottom-color", Color, initial = Color::CurrentColor }
-        border_right_color { "border-color-right", Color, initial = Color::CurrentColor }
+        border_right_color { "border-right-color", Color, initial = Color::CurrentColor }
 
         border_top_style { "border-top-style", LineStyle, initial = LineStyle::None }
         border_left_style { "border-left-style", LineStyle, initial = LineStyle::None }
-- 
2.43.0


From d5f442127dabe82bc9c07f91a856d83dd7605f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 23/34] fix: class selectors match any of the classes of an
 element

---
 victor/src/style/selectors.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/victor/src/style/selectors.rs b/victor/src/style/selectors.rs
index 07228b6..55a3417 100644
--- a/victor/src/style/selectors.rs
+++ b/victor/src/style/selectors.rs
@@ -232,7 +232,8 @@ impl<'a> selectors::Element for NodeRef<'a> {
             .unwrap()
             .get_attr(&local_name!("class"))
             .map_or(false, |attr| {
-                case_sensitivity.eq(class.as_bytes(), attr.as_bytes())
+                attr.split_ascii_whitespace()
+                    .any(|c| case_sensitivity.eq(class.as_bytes(), c.as_bytes()))
             })
     }
 
-- 
2.43.0


From 572739d22af9b5576c8125b87068771ac3d2563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 24/34] fix: ignore negative values of properties that do not
 allow them

Sizes, padding, border widths and font sizes are zero or more, and border
widths are not percentages.
---
 victor/src/style/errors.rs                 |  1 +
 victor/src/style/properties/definitions.rs | 14 ++--
 victor/src/style/properties/mod.rs         | 12 ++--
 victor/src/style/values/border.rs          |  4 +-
 victor/src/style/values/fonts.rs           | 12 ++--
 victor/src/style/values/length.rs          | 76 ++++++++++++++++++++++
 6 files changed, 100 insertions(+), 19 deletions(-)

diff --git a/victor/src/style/errors.rs b/victor/src/style/errors.rs
index a90857e..f512d33 100644
--- a/victor/src/style/errors.rs
+++ b/victor/src/style/errors.rs
@@ -6,6 +6,7 @@ pub(super) type PropertyParseError<'i> = ParseError<'i, PropertyParseErrorKind<'
 pub(super) enum PropertyParseErrorKind<'i> {
     UnknownProperty(CowRcStr<'i>),
     UnknownUnit(CowRcStr<'i>),
+    NegativeValue,
 }
 
 pub(super) enum RuleParseErrorKind<'i> {
diff --git a/victor/src/style/properties/definitions.rs b/victor/src/style/properties/definitions.rs
index 2568cfe..c712b4b 100644
--- a/victor/src/style/properties/definitions.rs
+++ b/victor/src/style/properties/definitions.rs
@@ -21,8 +21,8 @@ properties! {
         left { "left", LengthOrPercentageOrAuto, initial = LengthOrPercentageOrAuto::Auto }
         bottom { "bottom", LengthOrPercentageOrAuto, initial = LengthOrPercentageOrAuto::Auto }
         right { "right", LengthOrPercentageOrAuto, initial = LengthOrPercentageOrAuto::Auto }
-        width { "width", LengthOrPercentageOrAuto, initial = LengthOrPercentageOrAuto::Auto }
-        height { "height", LengthOrPercentageOrAuto, initial = LengthOrPercentageOrAuto::Auto }
+        width { "width", NonNegative<LengthOrPercentageOrAuto>, initial = NonNegative(LengthOrPercentageOrAuto::Auto) }
+        height { "height", NonNegative<LengthOrPercentageOrAuto>, initial = NonNegative(LengthOrPercentageOrAuto::Auto) }
     }
 
     reset struct margin {
@@ -33,10 +33,10 @@ properties! {
     }
 
     reset struct padding {
-        padding_top { "padding-top", LengthOrPercentage, initial = Length::zero() }
-        padding_left { "padding-left", LengthOrPercentage, initial = Length::zero() }
-        padding_bottom { "padding-bottom", LengthOrPercentage, initial = Length::zero() }
-        padding_right { "padding-right", LengthOrPercentage, initial = Length::zero() }
+        padding_top { "padding-top", NonNegative<LengthOrPercentage>, initial = Length::zero() }
+        padding_left { "padding-left", NonNegative<LengthOrPercentage>, initial = Length::zero() }
+        padding_bottom { "padding-bottom", NonNegative<LengthOrPercentage>, initial = Length::zero() }
+        padding_right { "padding-right", NonNegative<LengthOrPercentage>, initial = Length::zero() }
     }
 
     reset struct border {
@@ -67,7 +67,7 @@ properties! {
             bottom: margin_bottom,
             right: margin_right,
         }
-        "padding" => FourSides<SpecifiedLengthOrPercentage> {
+        "padding" => FourSides<NonNegative<SpecifiedLengthOrPercentage>> {
             top: padding_top,
             left: padding_left,
             bottom: padding_bottom,
diff --git a/victor/src/style/properties/mod.rs b/victor/src/style/properties/mod.rs
index 3910d66..43f02a8 100644
--- a/victor/src/style/properties/mod.rs
+++ b/victor/src/style/properties/mod.rs
@@ -46,18 +46,18 @@ impl ComputedValues {
 
     pub(crate) fn box_size(&self) -> flow_relative::Vec2<values::LengthOrPercentageOrAuto> {
         physical::Vec2 {
-            x: self.box_.width,
-            y: self.box_.height,
+            x: self.box_.width.0,
+            y: self.box_.height.0,
         }
         .size_to_flow_relative(self.writing_mode())
     }
 
     pub(crate) fn padding(&self) -> flow_relative::Sides<values::LengthOrPercentage> {
         physical::Sides {
-            top: self.padding.padding_top,
-            left: self.padding.padding_left,
-            bottom: self.padding.padding_bottom,
-            right: self.padding.padding_right,
+            top: self.padding.padding_top.0,
+            left: self.padding.padding_left.0,
+            bottom: self.padding.padding_bottom.0,
+            right: self.padding.padding_right.0,
         }
         .to_flow_relative(self.writing_mode())
     }
diff --git a/victor/src/style/values/border.rs b/victor/src/style/values/border.rs
index 3f2ccee..300a5be 100644
--- a/victor/src/style/values/border.rs
+++ b/victor/src/style/values/border.rs
@@ -14,7 +14,7 @@ enum ParsedLineWidth {
     Thin,
     Medium,
     Thick,
-    Other(SpecifiedLengthOrPercentage),
+    Other(NonNegative<SpecifiedLength>),
 }
 
 #[derive(Clone)]
@@ -40,7 +40,7 @@ impl super::Parse for SpecifiedLineWidth {
             ParsedLineWidth::Thin => 1.0,
             ParsedLineWidth::Medium => 3.0,
             ParsedLineWidth::Thick => 5.0,
-            ParsedLineWidth::Other(value) => return Ok(SpecifiedLineWidth(value)),
+            ParsedLineWidth::Other(value) => return Ok(SpecifiedLineWidth(value.0.into())),
         };
         Ok(SpecifiedLineWidth(
             SpecifiedLength::Absolute(Length { px }).into(),
diff --git a/victor/src/style/values/fonts.rs b/victor/src/style/values/fonts.rs
index 3a00031..b3d7fed 100644
--- a/victor/src/style/values/fonts.rs
+++ b/victor/src/style/values/fonts.rs
@@ -1,4 +1,5 @@
-use super::{EarlyCascadeContext, EarlyFromSpecified, Length, SpecifiedLength, SpecifiedValue};
+use super::{EarlyCascadeContext, EarlyFromSpecified, Length, NonNegative};
+use super::{SpecifiedLength, SpecifiedValue};
 
 #[derive(Copy, Clone)]
 pub(crate) struct FontSize(pub Length);
@@ -10,12 +11,15 @@ impl From<Length> for FontSize {
 }
 
 impl SpecifiedValue for FontSize {
-    type SpecifiedValue = SpecifiedLength;
+    type SpecifiedValue = NonNegative<SpecifiedLength>;
 }
 
 impl EarlyFromSpecified for FontSize {
-    fn early_from_specified(s: &SpecifiedLength, context: &EarlyCascadeContext) -> Self {
-        FontSize(match s {
+    fn early_from_specified(
+        s: &NonNegative<SpecifiedLength>,
+        context: &EarlyCascadeContext,
+    ) -> Self {
+        FontSize(match &s.0 {
             SpecifiedLength::Absolute(px) => *px,
             SpecifiedLength::Em(value) => context.inherited.font.font_size.0 * *value,
         })
diff --git a/victor/src/style/values/length.rs b/victor/src/style/values/length.rs
index 531e7b9..9773da3 100644
--- a/victor/src/style/values/length.rs
+++ b/victor/src/style/values/length.rs
@@ -50,6 +50,15 @@ pub(crate) enum LengthOrPercentageOrAuto {
     Auto,
 }
 
+/// The value of a property that does not allow negative values
+#[repr(transparent)]
+#[derive(Debug, Copy, Clone)]
+pub(crate) struct NonNegative<T>(pub T);
+
+pub(in crate::style) trait IsNegative {
+    fn is_negative(&self) -> bool;
+}
+
 #[derive(Copy, Clone, Debug, FromVariants, PartialEq)]
 pub(crate) enum LengthOrAuto {
     Length(Length),
@@ -78,6 +87,73 @@ impl Parse for SpecifiedLength {
     }
 }
 
+impl<T> Parse for NonNegative<T>
+where
+    T: Parse + IsNegative,
+{
+    fn parse<'i, 't>(parser: &mut Parser<'i, 't>) -> Result<Self, PropertyParseError<'i>> {
+        let location = parser.current_source_location();
+        let value = T::parse(parser)?;
+        if value.is_negative() {
+            return Err(location.new_custom_error(PropertyParseErrorKind::NegativeValue));
+        }
+        Ok(NonNegative(value))
+    }
+}
+
+impl IsNegative for SpecifiedLength {
+    fn is_negative(&self) -> bool {
+        match self {
+            SpecifiedLength::Absolute(length) => length.px < 0.,
+            SpecifiedLength::Em(value) => *value < 0.,
+        }
+    }
+}
+
+impl IsNegative for SpecifiedLengthOrPercentage {
+    fn is_negative(&self) -> bool {
+        match self {
+            SpecifiedLengthOrPercentage::Length(length) => length.is_negative(),
+            SpecifiedLengthOrPercentage::Percentage(p) => p.unit_value < 0.,
+        }
+    }
+}
+
+impl IsNegative for SpecifiedLengthOrPercentageOrAuto {
+    fn is_negative(&self) -> bool {
+        match self {
+            SpecifiedLengthOrPercentageOrAuto::Length(length) => length.is_negative(),
+            SpecifiedLengthOrPercentageOrAuto::Percentage(p) => p.unit_value < 0.,
+            SpecifiedLengthOrPercentageOrAuto::Auto => false,
+        }
+    }
+}
+
+impl<T> SpecifiedValue for NonNegative<T>
+where
+    T: SpecifiedValue,
+{
+    type SpecifiedValue = NonNegative<T::SpecifiedValue>;
+}
+
+impl<T> FromSpecified for NonNegative<T>
+where
+    T: FromSpecified,
+{
+    fn from_specified(s: &Self::SpecifiedValue, context: &CascadeContext) -> Self {
+        NonNegative(T::from_specified(&s.0, context))
+    }
+}
+
+impl<T> From<Length> for NonNegative<T>
+where
+    T: From<Length>,
+{
+    fn from(length: Length) -> Self {
+        NonNegative(length.into())
+    }
+}
+
 impl SpecifiedValue for Length {
     type SpecifiedValue = SpecifiedLength;
 }
-- 
2.43.0


From e9ddc912e333a87fa4e0b8e736226ec8820336b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:12 +0000
Subject: [PATCH 25/34] fix: never write PDF numbers with an exponent or
 infinite ones

---
 victor/src/pdf/object.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index e2fe3f9..44a19c6 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -153,7 +153,7 @@ impl<'a> Object<'a> {
             // https://www.adobe.com/content/dam/acom/en/devnet/pdf/PDF32000_2008.pdf#G6.1965566
             Object::I32(value) => itoa::write(w, value).map(|_| ()),
             Object::Usize(value) => itoa::write(w, value).map(|_| ()),
-            Object::Float(value) => dtoa::write(w, value).map(|_| ()),
+            Object::Float(value) => dtoa::write(w, without_exponent(value)).map(|_| ()),
             Object::Name(value) => write_name(value, w),
             Object::Dictionary(ref value) => value.write(w),
             Object::LiteralString(value) => {
@@ -233,6 +233,18 @@ impl<'a> Dictionary<'a> {
     }
 }
 
+/// PDF numbers have no exponent, which dtoa would write for these, and are never infinite.
+fn without_exponent(value: f32) -> f32 {
+    const MAX: f32 = 1e15;
+    const MIN_POSITIVE: f32 = 1e-5;
+    let value = value.max(-MAX).min(MAX);
+    if value.abs() < MIN_POSITIVE {
+        0.
+    } else {
+        value
+    }
+}
+
 fn write_hex<W: Write>(byte: u8, w: &mut W) -> io::Result<()> {
     const HEX_DIGITS: [u8; 16] = *b"0123456789ABCDEF";
     w.write_all(&[
-- 
2.43.0


From b1ca187d37f1317f9c85eee8f3e5652f84959e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 26/34] fix: reparent all children of a node, not only the
 first

Appending a child elsewhere changes its next sibling.
---
 victor/src/dom/html.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/victor/src/dom/html.rs b/victor/src/dom/html.rs
index b93a81d..16bea8c 100644
--- a/victor/src/dom/html.rs
+++ b/victor/src/dom/html.rs
@@ -202,8 +202,8 @@ impl TreeSink for Sink {
         let mut next_child = self.document[node].first_child;
         while let Some(child) = next_child {
             debug_assert_eq!(self.document[child].parent, Some(node));
-            self.document.append(new_parent, child);
-            next_child = self.document[child].next_sibling
+            next_child = self.document[child].next_sibling;
+            self.document.append(new_parent, child)
         }
     }
 }
-- 
2.43.0


From 3c03d5a9568779d89bc05e41aad8d67ee205737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:15 +0000
Subject: [PATCH 27/34] fix: apply style sheets in tree order, also in XML
 documents

---
 victor/src/dom/html.rs |  9 ++-------
 victor/src/dom/mod.rs  | 12 +++++++-----
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/victor/src/dom/html.rs b/victor/src/dom/html.rs
index 16bea8c..7f7f176 100644
--- a/victor/src/dom/html.rs
+++ b/victor/src/dom/html.rs
@@ -106,17 +106,12 @@ impl TreeSink for Sink {
             ..
         }: ElementFlags,
     ) -> NodeId {
-        let is_style = name.expanded() == expanded_name!(html "style");
-        let element = self.new_node(NodeData::Element(ElementData {
+        self.new_node(NodeData::Element(ElementData {
             name,
             attrs: attrs.into_iter().map(Attribute::from).collect(),
             mathml_annotation_xml_integration_point,
             layout_data: Default::default(),
-        }));
-        if is_style {
-            self.document.style_elements.push(element)
-        }
-        element
+        }))
     }
 
     fn create_comment(&mut self, text: StrTendril) -> NodeId {
diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index ff519c6..b8e9648 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -13,7 +13,6 @@ pub use self::xml::XmlError;
 
 pub struct Document {
     nodes: Vec<Node>,
-    style_elements: Vec<NodeId>,
 }
 
 pub struct Node {
@@ -36,7 +35,6 @@ impl Document {
         let document_node = Node::new(NodeData::Document);
         Document {
             nodes: vec![dummy, document_node],
-            style_elements: Vec::new(),
         }
     }
 
@@ -46,10 +44,14 @@ impl Document {
 
     pub(crate) fn parse_stylesheets(&self) -> StyleSet {
         let mut style_set = StyleSetBuilder::new();
-        for &id in &self.style_elements {
-            let element = &self[id];
+        // In tree order, and not elements that were removed from the tree
+        for id in self.nodes() {
+            let element = match self[id].as_element() {
+                Some(e) if e.name.expanded() == expanded_name!(html "style") => e,
+                _ => continue,
+            };
             // https://html.spec.whatwg.org/multipage/semantics.html#update-a-style-block
-            if let Some(type_attr) = element.as_element().unwrap().get_attr(&local_name!("type")) {
+            if let Some(type_attr) = element.get_attr(&local_name!("type")) {
                 if !type_attr.eq_ignore_ascii_case("text/css") {
                     continue;
                 }
-- 
2.43.0


From 1b2a79fb48c51a57acd65950847db8d4585d7489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 28/34] fix: apply style elements with an empty type attribute

---
 victor/src/dom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index b8e9648..550a8b3 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -52,7 +52,7 @@ impl Document {
             };
             // https://html.spec.whatwg.org/multipage/semantics.html#update-a-style-block
             if let Some(type_attr) = element.get_attr(&local_name!("type")) {
-                if !type_attr.eq_ignore_ascii_case("text/css") {
+                if !type_attr.is_empty() && !type_attr.eq_ignore_ascii_case("text/css") {
                     continue;
                 }
             }
-- 
2.43.0


From 56ae0a2d5ccd504e64f68e8e0aedf1d1584c395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:14 +0000
Subject: [PATCH 29/34] Verification hook: include an external harness module
 in dom::html under cfg(victor_verif)

---
 victor/src/dom/html.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/victor/src/dom/html.rs b/victor/src/dom/html.rs
index 7f7f176..cf60511 100644
--- a/victor/src/dom/html.rs
+++ b/victor/src/dom/html.rs
@@ -211,3 +211,8 @@ impl From<html5ever::Attribute> for Attribute {
         }
     }
 }
+
+#[cfg(victor_verif)]
+mod verif {
+    include!(concat!(env!("VICTOR_VERIF_DIR"), "/html.rs"));
+}
-- 
2.43.0


From 0009946454f87ff7b96c8bca010577d4c0bf6066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 30/34] fix: no blank page at the end of a plain text document

---
 victor/src/text_plain.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/victor/src/text_plain.rs b/victor/src/text_plain.rs
index 7061da5..4084cfa 100644
--- a/victor/src/text_plain.rs
+++ b/victor/src/text_plain.rs
@@ -124,7 +124,12 @@ pub fn layout(text: &str, style: &Style) -> Result<Document, FontError> {
 
             y += line_height;
             if y > max_y {
-                // We’ve reached the bottom of the page
+                // We’ve reached the bottom of the page.
+                // Only start another one if there is something to put on it.
+                match segments.next() {
+                    Some(result) => segments.rewind(result),
+                    None => break 'pages,
+                }
                 break;
             }
         }
-- 
2.43.0


From 5909b134116df98dfa227e1058d317b89d16e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:22 +0000
Subject: [PATCH 31/34] fix: refuse to render with a resolution that is not a
 number

---
 lester/src/convert.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lester/src/convert.rs b/lester/src/convert.rs
index 6ba226b..18f6d76 100644
--- a/lester/src/convert.rs
+++ b/lester/src/convert.rs
@@ -85,10 +85,11 @@ macro_rules! try_into_both_bounded {
             fn try_into(self) -> Result<$target, TryIntoIntError> {
                 let min = <$target>::min_value() as $source;
                 let max = <$target>::max_value() as $source;
-                if self < min || self > max {
-                    Err(TryIntoIntError(()))
-                } else {
+                // Not the opposite comparisons: NaN is out of range too.
+                if self >= min && self <= max {
                     Ok(self as $target)
+                } else {
+                    Err(TryIntoIntError(()))
                 }
             }
         }
-- 
2.43.0


From 5c21ede6ae425f64537963b8af9cdfe743f42fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:22 +0000
Subject: [PATCH 32/34] fix: the pixels of an empty image are not a null slice

---
 lester/src/cairo.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lester/src/cairo.rs b/lester/src/cairo.rs
index 07955dd..3f52dce 100644
--- a/lester/src/cairo.rs
+++ b/lester/src/cairo.rs
@@ -115,13 +115,16 @@ impl ImageSurface {
                 "Expected cairo to allocated data aligned to 32 bits"
             );
 
+            let len: usize = (width * height).try_into().unwrap();
             Argb32Pixels {
                 width: width.try_into().unwrap(),
                 height: height.try_into().unwrap(),
-                buffer: slice::from_raw_parts_mut(
-                    data as *mut u32,
-                    (width * height).try_into().unwrap(),
-                ),
+                buffer: if len == 0 {
+                    // Cairo has no data for empty images, but slices are never null.
+                    &mut []
+                } else {
+                    slice::from_raw_parts_mut(data as *mut u32, len)
+                },
             }
         }
     }
-- 
2.43.0


From 22663aaec03300e8ca6f5e7be2d07f8eb2fc02d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:39 +0000
Subject: [PATCH 33/34] fix: place absolutely positioned blocks below the line
 that they interrupt
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Per CSS 2.2 §10.6.4 and §9.3.1 the static position of a box with a block-level
original display is where it would have been as a block: below the content
already on the line, not at its top.
---
 victor/src/layout/flow/inline.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 13c94fd..94ecf14 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -109,7 +109,16 @@ impl InlineFormattingContext {
                                     DisplayOutside::Inline => ifc.inline_position,
                                     DisplayOutside::Block => Length::zero(),
                                 },
-                                block: ifc.line_boxes.next_line_block_position,
+                                block: match outside {
+                                    DisplayOutside::Inline => {
+                                        ifc.line_boxes.next_line_block_position
+                                    }
+                                    // A block would be below what there is on this line.
+                                    DisplayOutside::Block => {
+                                        ifc.line_boxes.next_line_block_position
+                                            + ifc.line_block_size_so_far()
+                                    }
+                                },
                             },
                             Display::Contents => {
                                 panic!("display:contents does not generate an abspos box")
@@ -146,6 +155,26 @@ impl InlineFormattingContext {
     }
 }
 
+impl InlineFormattingContextState<'_, '_> {
+    fn line_block_size_so_far(&self) -> Length {
+        self.partial_inline_boxes_stack.iter().rev().fold(
+            self.current_nesting_level
+                .max_block_size_of_fragments_so_far,
+            |size, partial| {
+                let outer_size = size
+                    + partial.padding.block_sum()
+                    + partial.border.block_sum()
+                    + partial.margin.block_sum();
+                outer_size.max(
+                    partial
+                        .parent_nesting_level
+                        .max_block_size_of_fragments_so_far,
+                )
+            },
+        )
+    }
+}
+
 impl LinesBoxes {
     fn finish_line(
         &mut self,
-- 
2.43.0


From a54907344a21947f41fa9223b2833ea483d710c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:26 +0000
Subject: [PATCH 34/34] fix: lines after the first of an inline box were as
 high as the highest one before

The block size of what is on a line was only reset for the outermost nesting level.
---
 victor/src/layout/flow/inline.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 94ecf14..1863c9a 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -263,7 +263,10 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
             content_rect: Rect {
                 size: Vec2 {
                     inline: *inline_position - nesting_level.inline_start,
-                    block: nesting_level.max_block_size_of_fragments_so_far,
+                    block: std::mem::replace(
+                        &mut nesting_level.max_block_size_of_fragments_so_far,
+                        Length::zero(),
+                    ),
                 },
                 start_corner: self.start_corner.clone(),
             },
-- 
2.43.0

