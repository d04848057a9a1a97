From 53dd909f14bd12c339e17808e2c429796d56d3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 01/54] fix: no underflow when shortening a composite whose
 removable part has no width

---
 src/fit/composite_fit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fit/composite_fit.rs b/src/fit/composite_fit.rs
index 7e12f88..f9f31c4 100644
--- a/src/fit/composite_fit.rs
+++ b/src/fit/composite_fit.rs
@@ -171,6 +171,10 @@ impl Zone {
                 break;
             }
         }
+        if removed_width < 2 {
+            // the ellipsis would take as much space as what it replaces
+            return 0;
+        }
         let start_byte_idx = self.byte_start_idx + self.char_infos[start_char_idx].byte_idx;
         let end_byte_idx = self.byte_start_idx + self.char_infos[end_char_idx].byte_idx;
         let head = compound.sub(0, start_byte_idx);
-- 
2.43.0


From cf88836a698fed526b67402a6a21bb97496de6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:19 +0000
Subject: [PATCH 02/54] fix: no panic when left truncating a composite with an
 empty compound

---
 src/fit/composite_fit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fit/composite_fit.rs b/src/fit/composite_fit.rs
index f9f31c4..ba0534a 100644
--- a/src/fit/composite_fit.rs
+++ b/src/fit/composite_fit.rs
@@ -279,6 +279,10 @@ impl Fitter {
             // left truncating
             while excess_left > 0 && !compounds.is_empty() {
                 let compound = &mut compounds[0];
+                if compound.src.is_empty() {
+                    compounds.remove(0);
+                    continue;
+                }
                 let char_infos = str_char_infos(compound.src);
                 let mut last_removed_char_idx = 0;
                 let mut removed_width = 0;
-- 
2.43.0


From cdfebe3a53cb56c3bfb1220f740fa82a2b214f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 03/54] fix: let CropWriter write a char in the last columns

---
 src/fit/crop_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fit/crop_writer.rs b/src/fit/crop_writer.rs
index e96cb2b..eabafb8 100644
--- a/src/fit/crop_writer.rs
+++ b/src/fit/crop_writer.rs
@@ -63,7 +63,7 @@ where
     }
     pub fn queue_char(&mut self, cs: &CompoundStyle, c: char) -> Result<(), Error> {
         let width = UnicodeWidthChar::width(c).unwrap_or(0);
-        if width < self.allowed {
+        if !self.is_full() && width <= self.allowed {
             self.allowed -= width;
             cs.queue(self.w, c)?;
         }
@@ -74,7 +74,7 @@ where
             return self.queue_unstyled_str(self.tab_replacement);
         }
         let width = UnicodeWidthChar::width(c).unwrap_or(0);
-        if width < self.allowed {
+        if !self.is_full() && width <= self.allowed {
             self.allowed -= width;
             self.w.queue(Print(c))?;
         }
-- 
2.43.0


From 6acee69c1bbfa0e73b2dcb7f1da7bc7a910ad830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 04/54] fix: replace the tabs queued as styled chars on a
 CropWriter

---
 src/fit/crop_writer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fit/crop_writer.rs b/src/fit/crop_writer.rs
index eabafb8..fcc2704 100644
--- a/src/fit/crop_writer.rs
+++ b/src/fit/crop_writer.rs
@@ -62,6 +62,9 @@ where
         cs.queue(self.w, string)
     }
     pub fn queue_char(&mut self, cs: &CompoundStyle, c: char) -> Result<(), Error> {
+        if c == '\t' {
+            return self.queue_str(cs, self.tab_replacement);
+        }
         let width = UnicodeWidthChar::width(c).unwrap_or(0);
         if !self.is_full() && width <= self.allowed {
             self.allowed -= width;
-- 
2.43.0


From 079e1bc97d9d7ad54c092d75415aeeadec023be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:38 +0000
Subject: [PATCH 05/54] fix: no underflow when wrapping a list item whose
 marker is wider than the available width

---
 src/fit/wrap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index 8823507..f58e557 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -102,7 +102,7 @@ pub fn hard_wrap_composite<'s, 'c>(
         return Ok(composites);
     }
 
-    let mut tokens = tokenize(&src_composite.compounds, width - first_width);
+    let mut tokens = tokenize(&src_composite.compounds, width.saturating_sub(first_width));
     // Strategy 2:
     // we try to cut along tokens, using spaces to break
     for token in tokens.drain(..) {
-- 
2.43.0


From 485e7d88775535224146e9a33474157f9e076e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:38 +0000
Subject: [PATCH 06/54] fix: account for the real width of a table rule without
 columns

---
 src/skin.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skin.rs b/src/skin.rs
index 827afa2..dbc57ca 100644
--- a/src/skin.rs
+++ b/src/skin.rs
@@ -612,7 +612,8 @@ impl MadSkin {
                 }
             }
             FmtLine::TableRule(rule) => {
-                let tbl_width = 1 + rule.widths.iter().fold(0, |sum, w| sum + w + 1);
+                // a rule without columns is still made of two junctions
+                let tbl_width = (1 + rule.widths.iter().fold(0, |sum, w| sum + w + 1)).max(2);
                 let (lpo, rpo) = Spacing::optional_completions(self.table.align, tbl_width, width);
                 self.paragraph.repeat_space(f, lpo)?;
                 write!(
-- 
2.43.0


From 568250f759c869ec519baea890ca44be5c71534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:07 +0000
Subject: [PATCH 07/54] fix: don't make wrapped code blocks wider than the
 available width

---
 src/text.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index fce441a..2520590 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -60,13 +60,14 @@ impl<'k, 's> FmtText<'k, 's> {
             .map(|mline| FmtLine::from(mline, skin))
             .collect();
         tbl::fix_all_tables(&mut lines, width.unwrap_or(usize::MAX), skin);
-        code::justify_blocks(&mut lines);
         if let Some(width) = width {
             if width >= 3 {
                 lines =
                     wrap::hard_wrap_lines(lines, width, skin).expect("width should be wide enough");
             }
         }
+        // blocks are justified after wrapping so that they don't exceed the width
+        code::justify_blocks(&mut lines);
         FmtText { skin, lines, width }
     }
     /// set the width to render the text to.
-- 
2.43.0


From 848e6d5b8314da5285190122743b1a3f773aa279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:12 +0000
Subject: [PATCH 08/54] fix: don't join two words when the spaces between them
 don't fit the line

---
 src/fit/wrap.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index f58e557..9746b95 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -105,11 +105,15 @@ pub fn hard_wrap_composite<'s, 'c>(
     let mut tokens = tokenize(&src_composite.compounds, width.saturating_sub(first_width));
     // Strategy 2:
     // we try to cut along tokens, using spaces to break
+    let mut break_line = false; // whether a blank was skipped, so that the line must end there
     for token in tokens.drain(..) {
         // TODO: does that really take first_width into account ?
-        if dst_composite.visible_length + token.width > width {
-            if !token.blank {
+        if break_line || dst_composite.visible_length + token.width > width {
+            if token.blank {
                 // we skip blank composite at line change
+                break_line = !dst_composite.compounds.is_empty();
+            } else {
+                break_line = false;
                 let mut repl_composite = follow_up_composite(&dst_composite, skin);
                 std::mem::swap(&mut dst_composite, &mut repl_composite);
                 composites.push(repl_composite);
-- 
2.43.0


From 85794e4e7f7ec5f2d455a3cb77353cae2080637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 09/54] fix: report a single reduced table column as reduced

---
 src/fit/tbl_fit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit/tbl_fit.rs b/src/fit/tbl_fit.rs
index 8bb386f..51b2690 100644
--- a/src/fit/tbl_fit.rs
+++ b/src/fit/tbl_fit.rs
@@ -91,7 +91,7 @@ impl TblFit {
         }
         if self.cols.len() == 1 {
             return TblFitResult {
-                reduced: false,
+                reduced: true,
                 col_widths: vec![self.available_sum_width],
             };
         }
-- 
2.43.0


From 16c4f028be0fb715fab556b5353c8c5702370877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 10/54] fix: count the padding and the borders in the visible
 length of table lines

---
 src/line.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 20e3f72..213ffdf 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -43,8 +43,14 @@ impl<'s> FmtLine<'s> {
     pub fn visible_length(&self) -> usize {
         match self {
             FmtLine::Normal(composite) => composite.visible_length,
-            FmtLine::TableRow(row) => row.cells.iter().fold(0, |s, c| s + c.visible_length), // Is that right ? no spacing ?
-            FmtLine::TableRule(rule) => 1 + rule.widths.iter().fold(0, |s, w| s + w + 1),
+            FmtLine::TableRow(row) => {
+                // the cells, extended to the width of their column, and the borders
+                1 + row.cells.iter().fold(0, |s, c| {
+                    s + c.spacing.map_or(c.visible_length, |sp| sp.width) + 1
+                })
+            }
+            // a rule without columns is still made of two junctions
+            FmtLine::TableRule(rule) => (1 + rule.widths.iter().fold(0, |s, w| s + w + 1)).max(2),
             FmtLine::HorizontalRule => 0, // No intrinsic width
         }
     }
-- 
2.43.0


From d14291b3f6c53e275aaf416f8ce68c56582818ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 11/54] fix: don't panic on missing cells in tables too wide
 for all their columns

---
 src/tbl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tbl.rs b/src/tbl.rs
index bb8771b..915ac2c 100644
--- a/src/tbl.rs
+++ b/src/tbl.rs
@@ -129,12 +129,12 @@ impl Table {
                 let mut cells_to_add: Vec<Vec<FmtComposite<'_>>> = Vec::new();
                 cells.truncate(nbcols);
                 for ic in 0..nbcols {
+                    cells_to_add.push(Vec::new());
                     if cells.len() <= ic {
-                        //FIXME isn't this already done ?
+                        // missing cells aren't yet added when columns had to be removed
                         cells.push(FmtComposite::new());
                         continue;
                     }
-                    cells_to_add.push(Vec::new());
                     if cells[ic].visible_length > widths[ic] {
                         // we must wrap the cell over several lines
                         let mut composites =
-- 
2.43.0


From b50b22f69674c117cd185a3cd489ffcd7c09a9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 12/54] fix: keep list items and quotes inside of the table
 columns too narrow for their marker

---
 src/tbl.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/tbl.rs b/src/tbl.rs
index 915ac2c..6131f45 100644
--- a/src/tbl.rs
+++ b/src/tbl.rs
@@ -1,6 +1,7 @@
 use {
     crate::{
         composite::*,
+        composite_kind::CompositeKind,
         fit::{
             wrap,
             TblFit,
@@ -137,9 +138,7 @@ impl Table {
                     }
                     if cells[ic].visible_length > widths[ic] {
                         // we must wrap the cell over several lines
-                        let mut composites =
-                            wrap::hard_wrap_composite(&cells[ic], widths[ic], skin)
-                                .expect("tbl fitter guaranteed all columns to be wide enough");
+                        let mut composites = wrap_cell(&cells[ic], widths[ic], skin);
                         // the first composite replaces the cell, while the other
                         // ones go to cells_to_add
                         let mut drain = composites.drain(..);
@@ -199,6 +198,33 @@ impl Table {
     }
 }
 
+/// Wrap the cell so that it fits in its column.
+///
+/// When the column is too narrow for the marker of a list item (or of a
+/// quote) and a character, the depth of the item is reduced, or the marker
+/// is removed.
+fn wrap_cell<'s>(
+    cell: &FmtComposite<'s>,
+    width: usize,
+    skin: &MadSkin,
+) -> Vec<FmtComposite<'s>> {
+    let mut cell = cell.clone();
+    while cell.visible_length > width {
+        let composites = wrap::hard_wrap_composite(&cell, width, skin)
+            .expect("tbl fitter guaranteed all columns to be wide enough");
+        let fits = composites.iter().all(|c| c.visible_length <= width);
+        if fits || cell.kind == CompositeKind::Paragraph {
+            return composites;
+        }
+        cell.kind = match cell.kind {
+            CompositeKind::ListItem(depth) if depth > 0 => CompositeKind::ListItem(depth - 1),
+            _ => CompositeKind::Paragraph,
+        };
+        cell.recompute_width(skin);
+    }
+    vec![cell]
+}
+
 /// find the positions of all tables
 fn find_tables(lines: &[FmtLine<'_>]) -> Vec<Table> {
     let mut tables: Vec<Table> = Vec::new();
-- 
2.43.0


From 6531e1f8f5c36362b898043ead1dd6d794a72773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 13/54] fix: keep the scrollbar thumb inside of the track

---
 src/area.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/area.rs b/src/area.rs
index 0b0c7ca..871b3f6 100644
--- a/src/area.rs
+++ b/src/area.rs
@@ -139,13 +139,15 @@ where
         track_before = 1;
     }
     let thumb_height = available_height * available_height / content_height;
-    let scrollbar_top = top + track_before;
-    let mut scrollbar_bottom = scrollbar_top + thumb_height;
-    if scroll + available_height < content_height && available_height > 3 {
-        scrollbar_bottom = scrollbar_bottom
-            .min(top + available_height - 2)
-            .max(scrollbar_top);
-    }
+    // the thumb can't go past the end of the track, and reaches it only when everything
+    // is scrolled (unless the track is very small)
+    let track_max = if scroll + available_height < content_height && available_height > 3 {
+        available_height - 2
+    } else {
+        available_height.saturating_sub(1)
+    };
+    let scrollbar_top = top + track_before.min(track_max);
+    let scrollbar_bottom = top + (track_before + thumb_height).min(track_max);
     // by construction those two conversions are OK
     // (or it's a bug, which, well, is possible...)
     let scrollbar_top = scrollbar_top.try_into().unwrap();
-- 
2.43.0


From 0bf9059b71df37406ef80b763d552ae25b6fd5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 14/54] fix: blend the background color, and the foreground one
 only once

---
 src/compound_style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index b5126c1..1d9be4d 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -86,7 +86,7 @@ impl CompoundStyle {
             let src: coolor::Color = (*fg).into();
             *fg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
         }
-        if let Some(bg) = self.object_style.foreground_color.as_mut() {
+        if let Some(bg) = self.object_style.background_color.as_mut() {
             let src: coolor::Color = (*bg).into();
             *bg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
         }
-- 
2.43.0


From 15c0b44ccf48ad9c9ca98bc20680d00d1619b288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 15/54] fix: print a styled char with its blended colors

---
 src/styled_char.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/styled_char.rs b/src/styled_char.rs
index 67a0729..6c374a0 100644
--- a/src/styled_char.rs
+++ b/src/styled_char.rs
@@ -100,6 +100,7 @@ impl StyledChar {
     }
     pub fn blend_with<C: Into<coolor::Color>>(&mut self, color: C, weight: f32) {
         self.compound_style.blend_with(color, weight);
+        self.styled_char = self.compound_style.apply_to(self.nude_char);
     }
 }
 
-- 
2.43.0


From 893819997d4ec852ad81d674a7f6c29c40c9ec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 16/54] fix: no overflow when scrolling a text up by i32::MIN
 lines

---
 src/views/text_view.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index e35065c..b2fda5b 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -143,12 +143,8 @@ impl<'a, 't> TextView<'a, 't> {
     /// lines_count can be negative
     pub fn try_scroll_lines(&mut self, lines_count: i32) {
         if lines_count < 0 {
-            let lines_count = -lines_count as usize;
-            self.scroll = if lines_count >= self.scroll {
-                0
-            } else {
-                self.scroll - lines_count
-            };
+            let lines_count = lines_count.unsigned_abs() as usize;
+            self.scroll = self.scroll.saturating_sub(lines_count);
         } else {
             self.set_scroll(self.scroll + lines_count as usize);
         }
-- 
2.43.0


From 68e151302d7b0b79cdc969e9da6e47cb1339877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 17/54] fix: compute the scrollbar of texts of more than 65535
 lines

---
 src/views/text_view.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index b2fda5b..e1b66b7 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -83,8 +83,7 @@ impl<'a, 't> TextView<'a, 't> {
     ///  the available space (or if show_scrollbar is false).
     pub fn scrollbar(&self) -> Option<(u16, u16)> {
         if self.show_scrollbar {
-            self.area
-                .scrollbar(self.scroll as u16, self.content_height() as u16)
+            self.area.scrollbar(self.scroll, self.content_height())
         } else {
             None
         }
-- 
2.43.0


From 01036c9df70ed280ac581650a420e75d0ddf3111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 18/54] fix: no overflow when scrolling a MadView by many pages

---
 src/views/mad_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index 7cbb8c2..831f848 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -69,7 +69,7 @@ impl MadView {
     /// set the scroll amount.
     /// lines_count can be negative
     pub fn try_scroll_pages(&mut self, pages_count: i32) {
-        self.try_scroll_lines(pages_count * i32::from(self.area.height));
+        self.try_scroll_lines(pages_count.saturating_mul(i32::from(self.area.height)));
     }
     /// Apply an event being a key: page_up, page_down, up and down.
     ///
-- 
2.43.0


From 475e400cf27662a22a970417c8b1a11556fae2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 19/54] fix: keep the scroll of a MadView valid when it's
 resized

---
 src/views/mad_view.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index 831f848..dcf77b7 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -56,6 +56,12 @@ impl MadView {
         self.area.top = area.top;
         self.area.height = area.height;
         self.area.width = area.width;
+        if self.scroll > 0 {
+            // less lines may be scrolled now
+            let text = self.skin.area_text(&self.markdown, &self.area);
+            let mut text_view = TextView::from(&self.area, &text);
+            self.scroll = text_view.set_scroll(self.scroll);
+        }
     }
     /// set the scroll amount.
     /// lines_count can be negative
-- 
2.43.0


From 3d07d4b4483f36e079a20aca437765d5da5e81d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 20/54] fix: no underflow when rendering a text in an area
 without columns

---
 src/skin.rs            | 2 +-
 src/views/text_view.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skin.rs b/src/skin.rs
index dbc57ca..8894981 100644
--- a/src/skin.rs
+++ b/src/skin.rs
@@ -363,7 +363,7 @@ impl MadSkin {
     ///
     /// Code blocs will be right justified
     pub fn area_text<'k, 's>(&'k self, src: &'s str, area: &Area) -> FmtText<'k, 's> {
-        FmtText::from(self, src, Some(area.width as usize - 1))
+        FmtText::from(self, src, Some((area.width as usize).saturating_sub(1)))
     }
 
     pub fn write_in_area(&self, markdown: &str, area: &Area) -> Result<()> {
diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index e1b66b7..d17d366 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -103,7 +103,7 @@ impl<'a, 't> TextView<'a, 't> {
         let mut lines = self.text.lines.iter().skip(self.scroll);
         let mut width = self.area.width as usize;
         if scrollbar.is_some() {
-            width -= 1;
+            width = width.saturating_sub(1);
         }
         for j in 0..self.area.height {
             let y = self.area.top + j;
-- 
2.43.0


From b69f20f350cfe90354615790dd3843b9334bb0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 21/54] fix: no overflow when scrolling a list view, be it
 short or scrolled by many lines

---
 src/views/list_view.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 31a109d..c676ed8 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -360,22 +360,23 @@ impl<'t, T> ListView<'t, T> {
     /// lines_count can be negative
     pub fn try_scroll_lines(&mut self, lines_count: i32) {
         if lines_count < 0 {
-            let lines_count = -lines_count as usize;
-            self.scroll = if lines_count >= self.scroll {
-                0
+            let lines_count = lines_count.unsigned_abs() as usize;
+            self.scroll = self.scroll.saturating_sub(lines_count);
+        } else {
+            let tbody_height = self.tbody_height() as usize;
+            let max_scroll = if self.displayed_rows_count > tbody_height {
+                self.displayed_rows_count - tbody_height + 1
             } else {
-                self.scroll - lines_count
+                0
             };
-        } else {
-            self.scroll = (self.scroll + lines_count as usize)
-                .min(self.displayed_rows_count - self.tbody_height() as usize + 1);
+            self.scroll = (self.scroll + lines_count as usize).min(max_scroll);
         }
         self.make_selection_visible();
     }
     /// set the scroll amount.
     /// pages_count can be negative
     pub fn try_scroll_pages(&mut self, pages_count: i32) {
-        self.try_scroll_lines(pages_count * self.tbody_height() as i32)
+        self.try_scroll_lines(pages_count.saturating_mul(self.tbody_height() as i32))
     }
     /// try to select the next visible line
     pub fn try_select_next(&mut self, up: bool) {
-- 
2.43.0


From 7baf6ec464a22d25b0b536cb29fdb8b6503845a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 22/54] fix: scroll a list view to its selection whatever its
 height, without underflow

---
 src/views/list_view.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index c676ed8..7f1a392 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -432,13 +432,15 @@ impl<'t, T> ListView<'t, T> {
     pub fn make_selection_visible(&mut self) {
         let tbody_height = self.tbody_height() as usize;
         if self.displayed_rows_count <= tbody_height {
-            return; // there's no scroll
+            self.scroll = 0; // there's no scroll
+            return;
         }
         if let Some(sel) = self.selection {
             if sel <= self.scroll {
-                self.scroll = if sel > 2 { sel - 2 } else { 0 };
+                // some rows are kept visible above the selection, if there's room for them
+                self.scroll = sel.saturating_sub(tbody_height.saturating_sub(1).min(2));
             } else if sel + 1 >= self.scroll + tbody_height {
-                self.scroll = sel - tbody_height + 2;
+                self.scroll = (sel + 2).saturating_sub(tbody_height).min(sel);
             }
         }
     }
-- 
2.43.0


From c02a67e369ab6e503685666958cb8198753b340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 23/54] fix: don't count the filtered out rows in the scroll of
 a list view

---
 src/views/list_view.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 7f1a392..f216bb9 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -67,7 +67,7 @@ pub struct ListView<'t, T> {
     columns: Vec<ListViewColumn<'t, T>>,
     rows: Vec<Row<T>>,
     pub area: Area,
-    scroll: usize,
+    scroll: usize, // number of displayed rows hidden at start
     pub skin: &'t MadSkin,
     filter: Option<Box<dyn Fn(&T) -> bool>>, // a function determining if the row must be displayed
     displayed_rows_count: usize,
@@ -241,6 +241,16 @@ impl<'t, T> ListView<'t, T> {
         self.displayed_rows_count = self.rows.len();
         self.filter = None;
     }
+    /// return the index of the first row which isn't hidden by the scroll
+    /// (the filtered out rows aren't counted in the scroll)
+    fn first_visible_row(&self) -> usize {
+        self.rows
+            .iter()
+            .enumerate()
+            .filter(|(_, row)| row.displayed)
+            .nth(self.scroll)
+            .map_or(self.rows.len(), |(idx, _)| idx)
+    }
     /// write the list view on the given writer
     pub fn write_on<W>(&self, w: &mut W) -> Result<()>
     where
@@ -290,7 +300,7 @@ impl<'t, T> ListView<'t, T> {
             }
         }
         // rows, maybe scrolled
-        let mut row_idx = self.scroll;
+        let mut row_idx = self.first_visible_row();
         let scrollbar = self.scrollbar();
         for y in 2..self.area.height {
             queue!(w, MoveTo(self.area.left, self.area.top + y))?;
@@ -384,8 +394,9 @@ impl<'t, T> ListView<'t, T> {
             return;
         }
         if self.displayed_rows_count == 1 || self.selection.is_none() {
+            let first = self.first_visible_row();
             for i in 0..self.rows.len() {
-                let i = (i + self.scroll) % self.rows.len();
+                let i = (i + first) % self.rows.len();
                 if self.rows[i].displayed {
                     self.selection = Some(i);
                     self.make_selection_visible();
@@ -436,6 +447,8 @@ impl<'t, T> ListView<'t, T> {
             return;
         }
         if let Some(sel) = self.selection {
+            // the scroll is a number of displayed rows
+            let sel = self.rows[..sel].iter().filter(|row| row.displayed).count();
             if sel <= self.scroll {
                 // some rows are kept visible above the selection, if there's room for them
                 self.scroll = sel.saturating_sub(tbody_height.saturating_sub(1).min(2));
-- 
2.43.0


From cf5c30b6ea6a8646d88f99c65de8a062580b238f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 24/54] fix: keep the same row selected when a row is added in
 a sorted list view

---
 src/views/list_view.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index f216bb9..3833d9d 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -51,6 +51,7 @@ pub struct ListViewColumn<'t, T> {
 struct Row<T> {
     data: T,
     displayed: bool,
+    selected: bool, // only used to follow the selected row during a sort
 }
 
 /// A filterable list whose columns can be automatically resized.
@@ -181,9 +182,17 @@ impl<'t, T> ListView<'t, T> {
         if stick_to_bottom {
             self.scroll_to_bottom();
         }
-        self.rows.push(Row { data, displayed });
+        self.rows.push(Row {
+            data,
+            displayed,
+            selected: false,
+        });
         if let Some(row_order) = &self.row_order {
+            for (idx, row) in self.rows.iter_mut().enumerate() {
+                row.selected = self.selection == Some(idx);
+            }
             self.rows.sort_by(|a, b| row_order(&a.data, &b.data));
+            self.selection = self.rows.iter().position(|row| row.selected);
         }
     }
     /// remove all rows (and selection).
-- 
2.43.0


From 0ddd9669eb2cca0e851f033083d95c133736b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 25/54] fix: unselect the row a new filter removes from the
 list view

---
 src/views/list_view.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 3833d9d..2ee0219 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -239,6 +239,11 @@ impl<'t, T> ListView<'t, T> {
                 count += 1;
             }
         }
+        if let Some(sel) = self.selection {
+            if !self.rows[sel].displayed {
+                self.selection = None;
+            }
+        }
         self.scroll = 0; // something better should be done... later
         self.displayed_rows_count = count;
         self.filter = Some(filter);
-- 
2.43.0


From c9dbb6087e1517bbfe084843b99047b2978f460b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 26/54] fix: compute the scrollbar of list views of more than
 65535 rows

---
 src/views/list_view.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 2ee0219..3214713 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -164,8 +164,8 @@ impl<'t, T> ListView<'t, T> {
     #[inline(always)]
     pub fn scrollbar(&self) -> Option<(u16, u16)> {
         compute_scrollbar(
-            self.scroll as u16,
-            self.displayed_rows_count as u16,
+            self.scroll,
+            self.displayed_rows_count,
             self.tbody_height(),
             self.area.top,
         )
-- 
2.43.0


From 3f5109dc8248ba13974b888fbd71b54b9da90226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 27/54] fix: draw the thumb of the list view's scrollbar at the
 right height when the area isn't at the top

---
 src/views/list_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 3214713..947d4a0 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -350,7 +350,7 @@ impl<'t, T> ListView<'t, T> {
             }
             if let Some((sctop, scbottom)) = scrollbar {
                 queue!(w, MoveTo(sx, self.area.top + y))?;
-                let y = y - 2;
+                let y = self.area.top + y - 2; // the scrollbar is computed for the area's top
                 if sctop <= y && y <= scbottom {
                     self.skin.scrollbar.thumb.queue(w)?;
                 } else {
-- 
2.43.0


From 7ed5e1f8bb986ac345029ac5ce1500483ded9611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 28/54] fix: draw the scrollbar of a list view inside of its
 area

---
 src/views/list_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 947d4a0..90645a2 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -270,7 +270,7 @@ impl<'t, T> ListView<'t, T> {
     where
         W: std::io::Write,
     {
-        let sx = self.area.left + self.area.width;
+        let sx = self.area.left + self.area.width.saturating_sub(1);
         let vbar = self.skin.table.compound_style.style_char('│');
         let tee = self.skin.table.compound_style.style_char('┬');
         let cross = self.skin.table.compound_style.style_char('┼');
-- 
2.43.0


From 24620b9536509d3b9bdcb806545543d92e110e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 29/54] fix: don't erase what's at the right of a list view

---
 src/views/list_view.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 90645a2..bd72905 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -8,10 +8,6 @@ use {
                 Color,
                 SetBackgroundColor,
             },
-            terminal::{
-                Clear,
-                ClearType,
-            },
         },
         errors::Result,
         gray,
@@ -20,6 +16,7 @@ use {
         CompoundStyle,
         MadSkin,
         Spacing,
+        SPACE_FILLING,
     },
     std::{
         cmp::Ordering,
@@ -320,7 +317,8 @@ impl<'t, T> ListView<'t, T> {
             queue!(w, MoveTo(self.area.left, self.area.top + y))?;
             loop {
                 if row_idx == self.rows.len() {
-                    queue!(w, Clear(ClearType::UntilNewLine))?;
+                    // only the area must be cleared
+                    SPACE_FILLING.queue_unstyled(w, self.area.width as usize)?;
                     break;
                 }
                 if self.rows[row_idx].displayed {
-- 
2.43.0


From 42a813e8794ec16e05c892b853fac8fd8d859011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 30/54] fix: use the width of chars, not their number, in list
 views and spacings

---
 src/spacing.rs         | 23 ++++++++++-------------
 src/views/list_view.rs |  5 +++--
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/spacing.rs b/src/spacing.rs
index 999a6c7..2bda3ba 100644
--- a/src/spacing.rs
+++ b/src/spacing.rs
@@ -2,8 +2,10 @@ use {
     crate::{
         compound_style::CompoundStyle,
         errors::Result,
+        fit::StrFit,
     },
     minimad::Alignment,
+    unicode_width::UnicodeWidthStr,
 };
 
 #[derive(Debug, Clone, Copy)]
@@ -12,13 +14,6 @@ pub struct Spacing {
     pub align: Alignment,
 }
 
-fn truncate(s: &str, max_chars: usize) -> &str {
-    match s.char_indices().nth(max_chars) {
-        None => s,
-        Some((idx, _)) => &s[..idx],
-    }
-}
-
 impl Spacing {
     /// compute the number of chars to add left and write of inner_width
     /// to fill outer_width
@@ -66,9 +61,13 @@ impl Spacing {
         W: std::io::Write,
     {
         if str_width >= self.width {
-            // we must truncate
-            let s = truncate(s, self.width);
-            style.queue_str(w, s)?;
+            // we must truncate (and complete if a wide char doesn't fit)
+            let (s, cropped_width) = StrFit::make_cow(s, self.width);
+            let mut con = s.into_owned();
+            for _ in cropped_width..self.width {
+                con.push(' ');
+            }
+            style.queue(w, con)?;
         } else {
             // we must complete with spaces
             // This part could be written in a more efficient way
@@ -85,12 +84,10 @@ impl Spacing {
         }
         Ok(())
     }
-    // FIXME use the number of chars instead of their real width,
-    // the crop writer should be used when wide characters are expected
     pub fn write_str<W>(&self, w: &mut W, s: &str, style: &CompoundStyle) -> Result<()>
     where
         W: std::io::Write,
     {
-        self.write_counted_str(w, s, s.chars().count(), style)
+        self.write_counted_str(w, s, s.width(), style)
     }
 }
diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index bd72905..c7b92b5 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -25,12 +25,13 @@ use {
             Write,
         },
     },
+    unicode_width::UnicodeWidthStr,
 };
 
 pub struct ListViewCell<'t> {
     con: String,
     style: &'t CompoundStyle,
-    width: usize, // length of content in chars
+    width: usize, // width of content in columns
 }
 
 pub struct Title {
@@ -76,7 +77,7 @@ pub struct ListView<'t, T> {
 
 impl<'t> ListViewCell<'t> {
     pub fn new(con: String, style: &'t CompoundStyle) -> Self {
-        let width = con.chars().count();
+        let width = con.width();
         Self { con, style, width }
     }
 }
-- 
2.43.0


From 8db56195790335631075d17c6a5a5cce7fb148ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:30 +0000
Subject: [PATCH 31/54] fix: return an error instead of asking forever when the
 input is over

---
 src/ask.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ask.rs b/src/ask.rs
index 52728bd..d3b8b56 100644
--- a/src/ask.rs
+++ b/src/ask.rs
@@ -82,7 +82,7 @@ impl Question {
         }
         loop {
             let mut input = String::new();
-            io::stdin().read_line(&mut input)?;
+            let read = io::stdin().read_line(&mut input)?;
             input.truncate(input.trim_end().len());
             if input.is_empty() {
                 if let Some(da) = &self.default_answer {
@@ -94,6 +94,10 @@ impl Question {
                     return Ok(input);
                 }
             }
+            if read == 0 {
+                // there won't be any other line
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             println!("answer {:?} not understood", input);
         }
     }
-- 
2.43.0


From 5220c84b999493c955499edbd5db020a9656f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 32/54] fix: don't remove the line break before the cursor when
 deleting below on an empty last line

---
 src/views/input_field_content.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index eab7f1a..cbdcc33 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -379,7 +379,7 @@ impl InputFieldContent {
     pub fn del_char_below(&mut self) -> bool {
         let line_len = self.current_line().chars.len();
         if line_len == 0 {
-            if self.lines.len() > 1 {
+            if self.lines.len() > self.pos.y + 1 {
                 self.lines.remove(self.pos.y);
                 self.fix_selection();
                 true
-- 
2.43.0


From 7144d96b2a4d6fb68323ba499f0ca28cb7a6d7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 33/54] fix: remove exactly the selected chars when deleting
 the selection

---
 src/views/input_field_content.rs | 50 +++++++++-----------------------
 1 file changed, 14 insertions(+), 36 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index cbdcc33..e44e8ef 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -402,43 +402,21 @@ impl InputFieldContent {
 
     pub fn del_selection(&mut self) -> bool {
         let Range { min, max } = self.selection();
-        if min.y == max.y {
-            if min.x == max.x {
-                return self.del_char_below();
-            }
-            if max.x == self.lines[min.y].chars.len() {
-                if min.x == 0 {
-                    // we remove the whole line
-                    self.lines.drain(min.y..min.y + 1);
-                    if self.lines.is_empty() {
-                        self.lines.push(Line::default());
-                    }
-                } else {
-                    self.lines[min.y].chars.drain(min.x..);
-                }
-            } else {
-                self.lines[min.y].chars.drain(min.x..max.x + 1);
-            }
+        if min == max {
+            self.selection_tail = None;
+            return self.del_char_below();
+        }
+        // both ends are included, the end of a line being its line break
+        let mut tail = if max.x < self.lines[max.y].chars.len() {
+            self.lines[max.y].chars.split_off(max.x + 1)
+        } else if max.y + 1 < self.lines.len() {
+            self.lines.remove(max.y + 1).chars
         } else {
-            let min_y = if min.x > 0 {
-                self.lines[min.y].chars.truncate(min.x);
-                min.y + 1
-            } else {
-                min.y
-            };
-            let max_y = if max.x < self.lines[max.y].chars.len() {
-                self.lines[max.y].chars.drain(0..max.x);
-                max.y - 1
-            } else {
-                max.y
-            };
-            if max_y > min_y {
-                self.lines.drain(min_y..(max_y + 1).min(self.lines.len()));
-                if self.lines.is_empty() {
-                    self.lines.push(Line::default());
-                }
-            }
-        }
+            Vec::new()
+        };
+        self.lines.drain(min.y + 1..max.y + 1);
+        self.lines[min.y].chars.truncate(min.x);
+        self.lines[min.y].chars.append(&mut tail);
         self.set_cursor_pos(min);
         self.selection_tail = None;
         true
-- 
2.43.0


From 39eaf3504903c9688a503bf5ef77bbbd8eeb9793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 34/54] fix: keep the tail of the selection in its own line

---
 src/views/input_field_content.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index e44e8ef..dd3b5cf 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -174,14 +174,7 @@ impl InputFieldContent {
         self.selection_tail = None;
     }
     pub fn set_selection_tail(&mut self, sel_tail: Pos) {
-        if sel_tail.y >= self.lines.len() {
-            self.selection_tail = Some(self.end());
-        } else {
-            self.selection_tail = Some(Pos {
-                y: sel_tail.y,
-                x: sel_tail.x.min(self.lines[self.pos.y].chars.len()),
-            });
-        }
+        self.selection_tail = Some(self.make_valid_pos(sel_tail));
     }
     fn fix_pos(&mut self) {
         self.pos = self.make_valid_pos(self.pos);
-- 
2.43.0


From 2022a9552829c9e09774d1bbff6fe28ba0818b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 35/54] fix: keep the cursor at the same char when moving its
 line

---
 src/views/input_field_content.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index dd3b5cf..8302dea 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -428,7 +428,8 @@ impl InputFieldContent {
 
     /// Swap the current line with the line before, if possible
     pub fn move_current_line_up(&mut self) -> bool {
-        if self.pos.y > 0 && self.swap_lines(self.pos.y - 1, self.pos.y) {
+        if self.pos.y > 0 {
+            self.lines.swap(self.pos.y - 1, self.pos.y);
             self.pos.y -= 1;
             self.fix_selection();
             true
@@ -439,7 +440,8 @@ impl InputFieldContent {
 
     /// Swap the current line with the line after, if possible
     pub fn move_current_line_down(&mut self) -> bool {
-        if self.swap_lines(self.pos.y + 1, self.pos.y) {
+        if self.pos.y + 1 < self.lines.len() {
+            self.lines.swap(self.pos.y + 1, self.pos.y);
             self.pos.y += 1;
             self.fix_selection();
             true
-- 
2.43.0


From 6e02a2a7fb35d162c11c689987c0c3bdca04e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 36/54] fix: forget the selection's tail when editing, so that
 typed chars aren't selected

---
 src/views/input_field.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 1355f17..ef405b6 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -191,6 +191,7 @@ impl InputField {
         if self.content.has_wide_selection() {
             self.content.del_selection();
         }
+        self.content.unselect();
         self.content.insert_str(s);
         self.fix_scroll();
     }
@@ -314,6 +315,7 @@ impl InputField {
                 self.content.del_selection();
                 true
             } else {
+                self.content.unselect();
                 self.content.del_char_left()
             }
         } else if code == KeyCode::Delete {
@@ -321,6 +323,7 @@ impl InputField {
                 self.content.del_selection();
                 true
             } else {
+                self.content.unselect();
                 self.content.del_char_below()
             }
         } else if let KeyCode::Char(c) = code {
@@ -330,6 +333,7 @@ impl InputField {
                 self.fix_scroll();
                 true
             } else {
+                self.content.unselect();
                 self.put_char(c)
             }
         } else {
-- 
2.43.0


From aaf8ccc80202c898baf87fe11fd40774cc45b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 37/54] fix: keep the cursor visible after Backspace and Delete
 keys

---
 src/views/input_field.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index ef405b6..ac9aa1f 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -312,19 +312,19 @@ impl InputField {
     pub fn apply_keycode_event(&mut self, code: KeyCode, shift: bool) -> bool {
         if code == KeyCode::Backspace {
             if self.content.has_wide_selection() {
-                self.content.del_selection();
+                self.del_selection();
                 true
             } else {
                 self.content.unselect();
-                self.content.del_char_left()
+                self.del_char_left()
             }
         } else if code == KeyCode::Delete {
             if self.content.has_wide_selection() {
-                self.content.del_selection();
+                self.del_selection();
                 true
             } else {
                 self.content.unselect();
-                self.content.del_char_below()
+                self.del_char_below()
             }
         } else if let KeyCode::Char(c) = code {
             if self.content.has_wide_selection() {
-- 
2.43.0


From 575c32f77a16bc832df2b710b3e6c1855cd4ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 38/54] fix: find the char covering a column, even when it's
 wide

---
 src/views/input_field_content.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index 8302dea..77680b4 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -104,10 +104,10 @@ impl Line {
     pub fn col_to_char_idx(&self, col: usize) -> Option<usize> {
         let mut sum_widths = 0;
         for (idx, &c) in self.chars.iter().enumerate() {
-            if col <= sum_widths {
+            sum_widths += InputFieldContent::char_width(c);
+            if col < sum_widths {
                 return Some(idx);
             }
-            sum_widths += InputFieldContent::char_width(c);
         }
         None
     }
-- 
2.43.0


From 38c61a2d92ee56039943931e46da744b5e27f834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 39/54] fix: don't panic nor draw out of the area when there's
 no room for chars in an input field

---
 src/views/input_field.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index ac9aa1f..2438009 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -484,7 +484,7 @@ impl InputField {
         let lines = &self.content.lines();
         let has_y_scroll = lines.len() > height;
         if has_y_scroll {
-            width -= 1;
+            width = width.saturating_sub(1);
         } else {
             self.scroll.y = 0;
         }
@@ -570,7 +570,7 @@ impl InputField {
             .area
             .scrollbar(self.scroll.y as u16, self.content.line_count() as u16);
         if scrollbar.is_some() {
-            width -= 1;
+            width = width.saturating_sub(1);
         }
 
         queue!(w, SetBackgroundColor(Color::Reset))?;
@@ -609,6 +609,10 @@ impl InputField {
                     width -= 1;
                 }
                 for (i, c) in chars.iter().enumerate() {
+                    if displayed_width >= width {
+                        // there's no room at all for chars
+                        break;
+                    }
                     let c = if self.password_mode { '*' } else { *c };
                     let char_width = InputFieldContent::char_width(c);
                     if skipped_width < width_to_skip {
-- 
2.43.0


From 54d14500e3fd18c569bb04a292110f2c0c7d20a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 40/54] fix: keep the cursor visible when moving down in an
 input field

---
 src/views/input_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 2438009..2b14d73 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -503,8 +503,8 @@ impl InputField {
                     }
                 } else if pos.y >= self.scroll.y + height {
                     self.scroll.y = pos.y - height + 1;
-                    if pos.y + 1 < lines.len() {
-                        self.scroll.y -= 1;
+                    if pos.y + 1 < lines.len() && height > 4 {
+                        self.scroll.y += 1;
                     }
                 }
             }
-- 
2.43.0


From 160287278bb8347fe3c19bbd8aea490e124d4500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 41/54] fix: keep the cursor visible in narrow input fields

---
 src/views/input_field.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 2b14d73..bcaabee 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -518,16 +518,14 @@ impl InputField {
             if self.focused {
                 // we don't show ellipsis if the width is below 4
                 // so we need less margin
+                let wpx = line.char_idx_to_col(pos.x);
                 if width < 4 {
-                    if pos.x < 2 {
-                        self.scroll.x = 0;
-                    } else if pos.x < self.scroll.x + 1 {
-                        self.scroll.x = pos.x - 1;
-                    } else if pos.x > self.scroll.x + width {
-                        self.scroll.x = pos.x + 1 - width;
+                    if wpx < self.scroll.x {
+                        self.scroll.x = wpx;
+                    } else if wpx >= self.scroll.x + width {
+                        self.scroll.x = wpx + 1 - width;
                     }
                 } else {
-                    let wpx = line.char_idx_to_col(pos.x);
                     if wpx < self.scroll.x + 2 {
                         if wpx < 2 {
                             self.scroll.x = 0;
-- 
2.43.0


From ebaf893b2098cb5d2a9efbf0dd0af0bc67e95641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 42/54] fix: count the left ellipsis in the returned position
 of the cursor

---
 src/views/input_field.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index bcaabee..a89133e 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -599,12 +599,14 @@ impl InputField {
                 let mut width_to_skip = self.scroll.x;
                 let mut skipped_width = 0;
                 let mut displayed_width = 0;
+                let mut left = self.area.left; // column of the first rendered char
                 let mut width = width; // available width for rendering chars
                                        // we don't show ellipsis if the width is 4 or less
                 if width_to_skip > 0 && width > 4 {
                     normal_style.queue(w, fit::ELLIPSIS)?;
                     width_to_skip += 1;
                     width -= 1;
+                    left += 1;
                 }
                 for (i, c) in chars.iter().enumerate() {
                     if displayed_width >= width {
@@ -625,7 +627,7 @@ impl InputField {
                                 self.cursor_style.queue(w, fit::ELLIPSIS)?;
                                 // set terminal cursor position
                                 terminal_cursor_pos = Some((
-                                    self.area.left + displayed_width as u16,
+                                    left + displayed_width as u16,
                                     self.area.top + j,
                                 ));
                             } else {
@@ -639,7 +641,7 @@ impl InputField {
                         self.cursor_style.queue(w, c)?;
                         // set terminal cursor position
                         terminal_cursor_pos =
-                            Some((self.area.left + displayed_width as u16, self.area.top + j));
+                            Some((left + displayed_width as u16, self.area.top + j));
                     } else {
                         normal_style.queue(w, c)?;
                     }
@@ -652,7 +654,7 @@ impl InputField {
                     self.cursor_style.queue(w, ' ')?;
                     // set terminal cursor position
                     terminal_cursor_pos =
-                        Some((self.area.left + displayed_width as u16, self.area.top + j));
+                        Some((left + displayed_width as u16, self.area.top + j));
                     displayed_width += 1;
                 }
                 while displayed_width < width {
-- 
2.43.0


From 9cff9887da16160ab5118b288430f524aacbf3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 43/54] fix: return the position of the cursor, not the one of
 the end of the selection

---
 src/views/input_field.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index a89133e..5f1e2bb 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -625,11 +625,13 @@ impl InputField {
                         if !is_last || displayed_width + char_width > width {
                             if self.focused && selection.contains(i, y) {
                                 self.cursor_style.queue(w, fit::ELLIPSIS)?;
-                                // set terminal cursor position
-                                terminal_cursor_pos = Some((
-                                    left + displayed_width as u16,
-                                    self.area.top + j,
-                                ));
+                                if (Pos { x: i, y }) == pos {
+                                    // set terminal cursor position
+                                    terminal_cursor_pos = Some((
+                                        left + displayed_width as u16,
+                                        self.area.top + j,
+                                    ));
+                                }
                             } else {
                                 normal_style.queue(w, fit::ELLIPSIS)?;
                             }
@@ -639,9 +641,11 @@ impl InputField {
                     }
                     if self.focused && selection.contains(i, y) {
                         self.cursor_style.queue(w, c)?;
-                        // set terminal cursor position
-                        terminal_cursor_pos =
-                            Some((left + displayed_width as u16, self.area.top + j));
+                        if (Pos { x: i, y }) == pos {
+                            // set terminal cursor position
+                            terminal_cursor_pos =
+                                Some((left + displayed_width as u16, self.area.top + j));
+                        }
                     } else {
                         normal_style.queue(w, c)?;
                     }
-- 
2.43.0


From f2ce49ab995478738fe38364a38dc73cb63ecc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 44/54] fix: keep the place of a wide char partially hidden at
 the left of an input field

---
 src/views/input_field.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 5f1e2bb..954c553 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -618,6 +618,13 @@ impl InputField {
                     if skipped_width < width_to_skip {
                         // char hidden by scroll on x
                         skipped_width += char_width;
+                        // if it's only partially hidden, its place is kept
+                        for _ in width_to_skip..skipped_width {
+                            if displayed_width < width {
+                                normal_style.queue(w, ' ')?;
+                                displayed_width += 1;
+                            }
+                        }
                         continue;
                     }
                     if displayed_width + char_width >= width {
-- 
2.43.0


From db8fda885f0f415c35cb83f78aa0690737223584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 45/54] fix: write tabs as spaces in input fields

---
 src/views/input_field.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 954c553..6c8987a 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -647,12 +647,18 @@ impl InputField {
                         }
                     }
                     if self.focused && selection.contains(i, y) {
-                        self.cursor_style.queue(w, c)?;
+                        if c == '\t' {
+                            self.cursor_style.queue(w, TAB_REPLACEMENT)?;
+                        } else {
+                            self.cursor_style.queue(w, c)?;
+                        }
                         if (Pos { x: i, y }) == pos {
                             // set terminal cursor position
                             terminal_cursor_pos =
                                 Some((left + displayed_width as u16, self.area.top + j));
                         }
+                    } else if c == '\t' {
+                        normal_style.queue(w, TAB_REPLACEMENT)?;
                     } else {
                         normal_style.queue(w, c)?;
                     }
-- 
2.43.0


From 419143e74fac012ad8b87d33fd71fbfd794646c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 46/54] fix: don't truncate the number of lines when computing
 the scrollbar of an input field

---
 src/views/input_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 6c8987a..02dcda7 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -566,7 +566,7 @@ impl InputField {
         let mut terminal_cursor_pos = None;
         let scrollbar = self
             .area
-            .scrollbar(self.scroll.y as u16, self.content.line_count() as u16);
+            .scrollbar(self.scroll.y, self.content.line_count());
         if scrollbar.is_some() {
             width = width.saturating_sub(1);
         }
-- 
2.43.0


From d716d3b17c24519e31470cd88bc0159849e89cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 47/54] fix: use the width of stars for scrolling and clicking
 in password input fields

---
 src/views/input_field.rs | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 02dcda7..be16d61 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -1,5 +1,8 @@
 use {
-    super::*,
+    super::{
+        input_field_content::Line,
+        *,
+    },
     crate::{
         crossterm::{
             cursor,
@@ -363,9 +366,8 @@ impl InputField {
                 let y = ((y - self.area.top) as usize + self.scroll.y)
                     .min(self.content.line_count() - 1);
                 let line = &self.content.lines()[y];
-                let x = line
-                    .col_to_char_idx((x - self.area.left) as usize + self.scroll.x)
-                    .unwrap_or(line.chars.len());
+                let x =
+                    self.col_to_char_idx(line, (x - self.area.left) as usize + self.scroll.x);
                 self.content.set_cursor_pos(Pos { x, y });
             } else {
                 self.focused = true;
@@ -389,9 +391,8 @@ impl InputField {
                 let y = ((row - self.area.top) as usize + self.scroll.y)
                     .min(self.content.line_count() - 1);
                 let line = &self.content.lines()[y];
-                let x = line
-                    .col_to_char_idx((column - self.area.left) as usize + self.scroll.x)
-                    .unwrap_or(line.chars.len());
+                let x = self
+                    .col_to_char_idx(line, (column - self.area.left) as usize + self.scroll.x);
                 // We handle the selection click on down, so that it's set at the
                 // start of drag.
                 match kind {
@@ -478,6 +479,25 @@ impl InputField {
         }
     }
 
+    /// Return the column at which a char is displayed (before scrolling)
+    fn char_idx_to_col(&self, line: &Line, idx: usize) -> usize {
+        if self.password_mode {
+            idx // all stars
+        } else {
+            line.char_idx_to_col(idx)
+        }
+    }
+
+    /// Return the char displayed at a column, or the end of the line
+    fn col_to_char_idx(&self, line: &Line, col: usize) -> usize {
+        let len = line.chars.len();
+        if self.password_mode {
+            col.min(len)
+        } else {
+            line.col_to_char_idx(col).unwrap_or(len)
+        }
+    }
+
     fn fix_scroll(&mut self) {
         let mut width = self.area.width as usize;
         let height = self.area.height as usize;
@@ -511,14 +531,14 @@ impl InputField {
         }
 
         let line = self.content.current_line();
-        let line_width = line.width();
+        let line_width = self.char_idx_to_col(line, line.chars.len());
         if line_width < width {
             self.scroll.x = 0;
         } else {
             if self.focused {
                 // we don't show ellipsis if the width is below 4
                 // so we need less margin
-                let wpx = line.char_idx_to_col(pos.x);
+                let wpx = self.char_idx_to_col(line, pos.x);
                 if width < 4 {
                     if wpx < self.scroll.x {
                         self.scroll.x = wpx;
-- 
2.43.0


From c059b966b40058f74e2fbf2e314fdfc0a61f08fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 48/54] fix: keep the cursor visible when it's set or focused
 with the mouse

---
 src/views/input_field.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index be16d61..0118f09 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -369,8 +369,9 @@ impl InputField {
                 let x =
                     self.col_to_char_idx(line, (x - self.area.left) as usize + self.scroll.x);
                 self.content.set_cursor_pos(Pos { x, y });
+                self.reveal_cursor();
             } else {
-                self.focused = true;
+                self.set_focus(true);
             }
             true
         } else {
@@ -405,14 +406,17 @@ impl InputField {
                             self.content.unselect();
                         }
                         self.content.set_cursor_pos(Pos { x, y });
+                        self.reveal_cursor();
                     }
                     MouseEventKind::Up(MouseButton::Left) if is_double_click => {
                         self.content.set_cursor_pos(Pos { x, y });
                         self.content.select_word_around();
+                        self.reveal_cursor();
                     }
                     MouseEventKind::Drag(MouseButton::Left) => {
                         self.content.make_selection();
                         self.content.set_cursor_pos(Pos { x, y });
+                        self.reveal_cursor();
                     }
                     MouseEventKind::ScrollDown => {
                         self.scroll_down();
@@ -423,7 +427,7 @@ impl InputField {
                     _ => {}
                 }
             } else if matches!(kind, MouseEventKind::Down(MouseButton::Left)) {
-                self.focused = true;
+                self.set_focus(true);
             }
             true
         } else {
@@ -498,6 +502,22 @@ impl InputField {
         }
     }
 
+    /// Scroll if the cursor was put by the mouse at a place where it
+    /// can't be seen (under the ellipsis at left, after the end of a line
+    /// filling the area, or on a line scrolled more than its width)
+    fn reveal_cursor(&mut self) {
+        let mut width = self.area.width as usize;
+        if self.content.line_count() > self.area.height as usize {
+            width = width.saturating_sub(1);
+        }
+        let pos = self.content.cursor_pos();
+        let col = self.char_idx_to_col(self.content.current_line(), pos.x);
+        let ellipsis = usize::from(self.scroll.x > 0 && width > 4);
+        if col < self.scroll.x + ellipsis || col >= self.scroll.x + width {
+            self.fix_scroll();
+        }
+    }
+
     fn fix_scroll(&mut self) {
         let mut width = self.area.width as usize;
         let height = self.area.height as usize;
-- 
2.43.0


From 2ce306d9962cfc633487a38983c7d4ddd7d6becd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:06 +0000
Subject: [PATCH 49/54] fix: don't read dark colors as the bright ones, nor
 other words as colors

---
 src/parse/parse_color.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/parse/parse_color.rs b/src/parse/parse_color.rs
index 0a9307c..5786e17 100644
--- a/src/parse/parse_color.rs
+++ b/src/parse/parse_color.rs
@@ -80,21 +80,22 @@ pub fn parse_color(s: &str) -> Result<Color, ParseColorError> {
             };
             rgb(r, g, b)
         }
-        "black"i => Color::AnsiValue(16),
-        "blue"i => Color::Blue,
-        "cyan"i => Color::Cyan,
-        "darkblue"i => Color::DarkBlue,
-        "darkcyan"i => Color::DarkCyan,
-        "darkgreen"i => Color::DarkGreen,
-        "darkmagenta"i => Color::DarkMagenta,
-        "darkred"i => Color::DarkRed,
-        "green"i => Color::Green,
-        "grey"i => Color::Grey,
-        "magenta"i => Color::Magenta,
-        "red"i => Color::Red,
-        "yellow"i => Color::Yellow,
-        "darkyellow"i => Color::DarkYellow,
-        "white"i => Color::AnsiValue(231),
+        "^black$"i => Color::AnsiValue(16),
+        "^blue$"i => Color::Blue,
+        "^cyan$"i => Color::Cyan,
+        "^darkblue$"i => Color::DarkBlue,
+        "^darkcyan$"i => Color::DarkCyan,
+        "^darkgreen$"i => Color::DarkGreen,
+        "^darkgrey$"i => Color::DarkGrey,
+        "^darkmagenta$"i => Color::DarkMagenta,
+        "^darkred$"i => Color::DarkRed,
+        "^green$"i => Color::Green,
+        "^grey$"i => Color::Grey,
+        "^magenta$"i => Color::Magenta,
+        "^red$"i => Color::Red,
+        "^yellow$"i => Color::Yellow,
+        "^darkyellow$"i => Color::DarkYellow,
+        "^white$"i => Color::AnsiValue(231),
     )
     .ok_or(ParseColorError::Unrecognized)
 }
-- 
2.43.0


From b2fac95817f1b76c0fd9ca5b1014123b8442f62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:06 +0000
Subject: [PATCH 50/54] fix: don't read NoBold and the likes as the opposite
 attribute

---
 src/parse/parse_attribute.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/parse/parse_attribute.rs b/src/parse/parse_attribute.rs
index 98104da..4ddda24 100644
--- a/src/parse/parse_attribute.rs
+++ b/src/parse/parse_attribute.rs
@@ -42,25 +42,25 @@ pub fn write_attribute(f: &mut fmt::Formatter<'_>, a: Attribute) -> fmt::Result
 
 /// Read a Minimad Attributement from a string.
 pub fn parse_attribute(s: &str) -> Result<Attribute, ParseAttributeError> {
-    if regex_is_match!("bold"i, s) {
+    if regex_is_match!("^bold$"i, s) {
         Ok(Attribute::Bold)
-    } else if regex_is_match!("crossed[_-]?out"i, s) {
+    } else if regex_is_match!("^crossed[_-]?out$"i, s) {
         Ok(Attribute::CrossedOut)
-    } else if regex_is_match!("dim"i, s) {
+    } else if regex_is_match!("^dim$"i, s) {
         Ok(Attribute::Dim)
-    } else if regex_is_match!("italic"i, s) {
+    } else if regex_is_match!("^italic$"i, s) {
         Ok(Attribute::Italic)
-    } else if regex_is_match!("under[_-]?lined"i, s) {
+    } else if regex_is_match!("^under[_-]?lined$"i, s) {
         Ok(Attribute::Underlined)
-    } else if regex_is_match!("over[_-]?lined"i, s) {
+    } else if regex_is_match!("^over[_-]?lined$"i, s) {
         Ok(Attribute::OverLined)
-    } else if regex_is_match!("reverse"i, s) {
+    } else if regex_is_match!("^reverse$"i, s) {
         Ok(Attribute::Reverse)
-    } else if regex_is_match!("encircled"i, s) {
+    } else if regex_is_match!("^encircled$"i, s) {
         Ok(Attribute::Encircled)
-    } else if regex_is_match!("slow[_-]?blink"i, s) {
+    } else if regex_is_match!("^slow[_-]?blink$"i, s) {
         Ok(Attribute::SlowBlink)
-    } else if regex_is_match!("rapid[_-]?blink"i, s) {
+    } else if regex_is_match!("^rapid[_-]?blink$"i, s) {
         Ok(Attribute::RapidBlink)
     } else {
         Err(ParseAttributeError::Unrecognized)
-- 
2.43.0


From 0989183eb55b49a7d078d472dfe0e4416b734da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:06 +0000
Subject: [PATCH 51/54] fix: don't write 0 for a too big margin

---
 src/parse/parse_line_style.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/parse_line_style.rs b/src/parse/parse_line_style.rs
index 3ad95cb..2dfbab7 100644
--- a/src/parse/parse_line_style.rs
+++ b/src/parse/parse_line_style.rs
@@ -46,8 +46,8 @@ impl PushStyleTokens for LineStyle {
         self.compound_style.push_style_tokens(tokens);
         tokens.push(StyleToken::Align(self.align));
         if self.left_margin > 0 || self.right_margin > 0 {
-            tokens.push(StyleToken::Dimension(self.left_margin.min(65536) as u16));
-            tokens.push(StyleToken::Dimension(self.right_margin.min(65536) as u16));
+            tokens.push(StyleToken::Dimension(self.left_margin.min(65535) as u16));
+            tokens.push(StyleToken::Dimension(self.right_margin.min(65535) as u16));
         }
     }
 }
-- 
2.43.0


From 4f4c129d73bf837875f7b26ae42003216e3040c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:06 +0000
Subject: [PATCH 52/54] fix: separate the tokens in write_style_tokens

---
 src/parse/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 4892034..108d6f1 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -88,10 +88,10 @@ pub fn write_style_tokens<W: io::Write>(w: &mut W, tokens: &[StyleToken]) -> io:
     let mut first = true;
     for token in tokens {
         if first {
-            write!(w, " {token}")?;
+            write!(w, "{token}")?;
             first = false;
         } else {
-            write!(w, "{token}")?;
+            write!(w, " {token}")?;
         }
     }
     Ok(())
-- 
2.43.0


From 1f508cc2da50a7ce4a508264251ddb76e7b15898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:19 +0000
Subject: [PATCH 53/54] fix: don't lose the attributes and missing colors of a
 serialized scrollbar

---
 src/serde/serde_scrollbar_style.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/serde/serde_scrollbar_style.rs b/src/serde/serde_scrollbar_style.rs
index cb2a5c9..454ef33 100644
--- a/src/serde/serde_scrollbar_style.rs
+++ b/src/serde/serde_scrollbar_style.rs
@@ -28,14 +28,13 @@ pub enum ScrollBarStyleDef {
 
 impl From<&ScrollBarStyle> for ScrollBarStyleDef {
     fn from(sc: &ScrollBarStyle) -> Self {
-        let simple = sc.track.nude_char() == sc.thumb.nude_char()
-            && sc.track.get_bg().is_none()
-            && sc.thumb.get_bg().is_none();
-        if simple {
-            Self::Simple(StyledChar::new(
-                CompoundStyle::new(sc.thumb.get_fg(), sc.track.get_fg(), Default::default()),
-                sc.track.nude_char(),
-            ))
+        let simple = StyledChar::new(
+            CompoundStyle::new(sc.thumb.get_fg(), sc.track.get_fg(), Default::default()),
+            sc.track.nude_char(),
+        );
+        // the simple representation must not lose anything
+        if *sc == simple.clone().into() {
+            Self::Simple(simple)
         } else {
             Self::Rich {
                 track: sc.track.clone(),
-- 
2.43.0


From c735693d7f29457f8277a57d6baf316d10317bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:19 +0000
Subject: [PATCH 54/54] fix: write the blink attributes, which can be read,
 when serializing a style

---
 src/compound_style.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index 1d9be4d..1d39389 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -32,6 +32,8 @@ pub static ATTRIBUTES: &[Attribute] = &[
     Attribute::Dim,
     Attribute::Italic,
     Attribute::Underlined,
+    Attribute::SlowBlink,
+    Attribute::RapidBlink,
     Attribute::Reverse,
     Attribute::CrossedOut,
     Attribute::Encircled,
-- 
2.43.0

