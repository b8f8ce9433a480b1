From 7f0afb79de05f916d643e687307024193ad0403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 01/56] fix: restore the terminal when the construction of an
 EventSource fails

If the keyboard enhancement flags couldn't be pushed, or the thread
couldn't be started, the terminal was left in raw mode.
---
 src/events/event_source.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/events/event_source.rs b/src/events/event_source.rs
index 3fbe6df..dcc81b5 100644
--- a/src/events/event_source.rs
+++ b/src/events/event_source.rs
@@ -139,8 +139,17 @@ impl EventSource {
     ///
     /// If desired, mouse support must be enabled and disabled in crossterm.
     pub fn with_options(options: EventSourceOptions) -> Result<Self, Error> {
-        let mut combiner = Combiner::default();
         terminal::enable_raw_mode()?;
+        Self::start(options).map_err(|e| {
+            // there will be no event source to restore the terminal on drop
+            let _ = terminal::disable_raw_mode();
+            e
+        })
+    }
+
+    /// start the listening thread, the terminal being already in raw mode
+    fn start(options: EventSourceOptions) -> Result<Self, Error> {
+        let mut combiner = Combiner::default();
         let is_combining_keys = if options.combine_keys {
             combiner.enable_combining()?
         } else {
@@ -152,7 +161,7 @@ impl EventSource {
         let (tx_quit, rx_quit) = unbounded();
         let event_count = Arc::new(AtomicUsize::new(0));
         let internal_event_count = Arc::clone(&event_count);
-        thread::spawn(move || {
+        thread::Builder::new().spawn(move || {
             let mut last_up: Option<TimedClick> = None;
             let mut current_escape_sequence: Option<EscapeSequence> = None;
             // return true when we must close the source
@@ -264,7 +273,7 @@ impl EventSource {
                     return;
                 }
             }
-        });
+        })?;
         Ok(EventSource {
             is_combining_keys,
             rx_events,
-- 
2.43.0


From a18f76c9c2e92b69eee2f9f9c9d28393d2d97eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 02/56] fix: end the thread of an EventSource on quit or drop
 even when the terminal can't be read any more

---
 src/events/event_source.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/events/event_source.rs b/src/events/event_source.rs
index dcc81b5..91f29ec 100644
--- a/src/events/event_source.rs
+++ b/src/events/event_source.rs
@@ -25,6 +25,7 @@ use {
         unbounded,
         Receiver,
         Sender,
+        TryRecvError,
     },
     std::{
         sync::{
@@ -180,7 +181,12 @@ impl EventSource {
                 let ct_event = match crossterm::event::read() {
                     Ok(e) => e,
                     _ => {
-                        continue;
+                        // the error may be permanent: reading again must not
+                        // prevent the thread from ending
+                        match rx_quit.try_recv() {
+                            Ok(true) | Err(TryRecvError::Disconnected) => return,
+                            _ => continue,
+                        }
                     }
                 };
                 let in_seq = current_escape_sequence.is_some();
-- 
2.43.0


From d4086b54c5604b29d1c0ed821bbcaf6a76ab54bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 03/56] fix: return an error instead of asking for ever when
 the input of a question is closed

---
 src/ask.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ask.rs b/src/ask.rs
index 52728bd..0c16e42 100644
--- a/src/ask.rs
+++ b/src/ask.rs
@@ -67,7 +67,8 @@ impl Question {
     /// the user just typed *enter* and there was a default value.
     ///
     /// If the user types something not recognized, he's asking to
-    /// try again.
+    /// try again. If the input is closed, there can't be any other
+    /// try and an error is returned.
     pub fn ask(&self, skin: &MadSkin) -> io::Result<String> {
         if let Some(md) = &self.md {
             skin.print_text(md);
@@ -82,7 +83,7 @@ impl Question {
         }
         loop {
             let mut input = String::new();
-            io::stdin().read_line(&mut input)?;
+            let at_end = io::stdin().read_line(&mut input)? == 0;
             input.truncate(input.trim_end().len());
             if input.is_empty() {
                 if let Some(da) = &self.default_answer {
@@ -94,6 +95,10 @@ impl Question {
                     return Ok(input);
                 }
             }
+            if at_end {
+                // nothing more will ever be typed
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             println!("answer {:?} not understood", input);
         }
     }
-- 
2.43.0


From 938335204273f34c58e45546e068a0715fa4df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:53 +0000
Subject: [PATCH 04/56] fix: flush stdout at the end of MadView::write, so that
 the end of the frame is displayed

---
 src/views/mad_view.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index 7cbb8c2..37c2699 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -34,7 +34,10 @@ impl MadView {
     /// render the markdown in the area, taking the scroll into
     /// account
     pub fn write(&self) -> Result<()> {
-        self.write_on(&mut std::io::stdout())
+        let mut stdout = std::io::stdout();
+        self.write_on(&mut stdout)?;
+        stdout.flush()?;
+        Ok(())
     }
     pub fn write_on<W: Write>(&self, w: &mut W) -> Result<()> {
         let text = self.skin.area_text(&self.markdown, &self.area);
-- 
2.43.0


From 7330446dfeec7ee068bcb2c63511a6f25c3a9202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:53 +0000
Subject: [PATCH 05/56] fix: keep the scroll of a MadView in bounds when it's
 resized to a bigger height

---
 src/views/mad_view.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index 37c2699..ea96716 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -59,6 +59,8 @@ impl MadView {
         self.area.top = area.top;
         self.area.height = area.height;
         self.area.width = area.width;
+        // the scroll may be too big for the new height
+        self.try_scroll_lines(0);
     }
     /// set the scroll amount.
     /// lines_count can be negative
-- 
2.43.0


From 9a9afb1cc7454a7ae1183f146876d495415f3aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:53 +0000
Subject: [PATCH 06/56] fix: compute the scrollbar of views with more than
 65535 lines

---
 src/views/input_field.rs | 2 +-
 src/views/list_view.rs   | 4 ++--
 src/views/text_view.rs   | 3 +--
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 1355f17..c4af490 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -564,7 +564,7 @@ impl InputField {
         let mut terminal_cursor_pos = None;
         let scrollbar = self
             .area
-            .scrollbar(self.scroll.y as u16, self.content.line_count() as u16);
+            .scrollbar(self.scroll.y, self.content.line_count());
         if scrollbar.is_some() {
             width -= 1;
         }
diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 31a109d..dda934d 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -163,8 +163,8 @@ impl<'t, T> ListView<'t, T> {
     #[inline(always)]
     pub fn scrollbar(&self) -> Option<(u16, u16)> {
         compute_scrollbar(
-            self.scroll as u16,
-            self.displayed_rows_count as u16,
+            self.scroll,
+            self.displayed_rows_count,
             self.tbody_height(),
             self.area.top,
         )
diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index e35065c..5a032a4 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -83,8 +83,7 @@ impl<'a, 't> TextView<'a, 't> {
     ///  the available space (or if show_scrollbar is false).
     pub fn scrollbar(&self) -> Option<(u16, u16)> {
         if self.show_scrollbar {
-            self.area
-                .scrollbar(self.scroll as u16, self.content_height() as u16)
+            self.area.scrollbar(self.scroll, self.content_height())
         } else {
             None
         }
-- 
2.43.0


From 03fb69898d60baba76b19775e4b0b5072c27fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:53 +0000
Subject: [PATCH 07/56] fix: scroll to top without overflow for a scroll of
 i32::MIN lines

---
 src/views/list_view.rs | 2 +-
 src/views/text_view.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index dda934d..0d564f4 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -360,7 +360,7 @@ impl<'t, T> ListView<'t, T> {
     /// lines_count can be negative
     pub fn try_scroll_lines(&mut self, lines_count: i32) {
         if lines_count < 0 {
-            let lines_count = -lines_count as usize;
+            let lines_count = lines_count.unsigned_abs() as usize;
             self.scroll = if lines_count >= self.scroll {
                 0
             } else {
diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index 5a032a4..00e9daf 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -142,7 +142,7 @@ impl<'a, 't> TextView<'a, 't> {
     /// lines_count can be negative
     pub fn try_scroll_lines(&mut self, lines_count: i32) {
         if lines_count < 0 {
-            let lines_count = -lines_count as usize;
+            let lines_count = lines_count.unsigned_abs() as usize;
             self.scroll = if lines_count >= self.scroll {
                 0
             } else {
-- 
2.43.0


From 8e62c9ce533d47dfd2381b40b90db675b80e422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 08/56] fix: don't panic on a table with missing cells which
 must be both wrapped and cut

---
 src/tbl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tbl.rs b/src/tbl.rs
index bb8771b..1b6a03b 100644
--- a/src/tbl.rs
+++ b/src/tbl.rs
@@ -129,12 +129,12 @@ impl Table {
                 let mut cells_to_add: Vec<Vec<FmtComposite<'_>>> = Vec::new();
                 cells.truncate(nbcols);
                 for ic in 0..nbcols {
+                    cells_to_add.push(Vec::new());
                     if cells.len() <= ic {
-                        //FIXME isn't this already done ?
+                        // missing cells aren't added before when columns are removed
                         cells.push(FmtComposite::new());
                         continue;
                     }
-                    cells_to_add.push(Vec::new());
                     if cells[ic].visible_length > widths[ic] {
                         // we must wrap the cell over several lines
                         let mut composites =
-- 
2.43.0


From 8246a4b7c171f887d2480b70ff11ff5fcf3bebac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 09/56] fix: don't panic when wrapping a list item indented by
 more than the available width

---
 src/fit/wrap.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index 8823507..8948092 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -102,7 +102,10 @@ pub fn hard_wrap_composite<'s, 'c>(
         return Ok(composites);
     }
 
-    let mut tokens = tokenize(&src_composite.compounds, width - first_width);
+    let mut tokens = tokenize(
+        &src_composite.compounds,
+        width.saturating_sub(first_width).max(1),
+    );
     // Strategy 2:
     // we try to cut along tokens, using spaces to break
     for token in tokens.drain(..) {
-- 
2.43.0


From 88ec4d85f9caaeba5226fabb22b787124af10450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:04 +0000
Subject: [PATCH 10/56] fix: don't let code blocks wider than the available
 width overflow it once wrapped

---
 src/fit/wrap.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index 8948092..ba83dfe 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -139,8 +139,12 @@ pub fn hard_wrap_lines<'s>(
     let mut src_lines = src_lines;
     let mut lines = Vec::new();
     for src_line in src_lines.drain(..) {
-        if let FmtLine::Normal(fc) = src_line {
+        if let FmtLine::Normal(mut fc) = src_line {
             let (left_margin, right_margin) = skin.line_style(fc.kind).margins_in(Some(width));
+            // a justified block (code) can't be wider than what's available
+            if let Some(spacing) = fc.spacing.as_mut() {
+                spacing.width = spacing.width.min(width - left_margin - right_margin);
+            }
             if fc.visible_length + left_margin + right_margin <= width {
                 lines.push(FmtLine::Normal(fc));
             } else {
-- 
2.43.0


From 4469e160db94ec1fe21b40a09d1bdf57364288fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 11/56] fix: keep the cursor on its char when moving a line
 over a shorter one

---
 src/views/input_field_content.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index eab7f1a..f4972d1 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -457,8 +457,10 @@ impl InputFieldContent {
 
     /// Swap the current line with the line before, if possible
     pub fn move_current_line_up(&mut self) -> bool {
-        if self.pos.y > 0 && self.swap_lines(self.pos.y - 1, self.pos.y) {
-            self.pos.y -= 1;
+        let Pos { x, y } = self.pos;
+        if y > 0 && self.swap_lines(y - 1, y) {
+            // the cursor goes with its line
+            self.pos = Pos { x, y: y - 1 };
             self.fix_selection();
             true
         } else {
@@ -468,8 +470,10 @@ impl InputFieldContent {
 
     /// Swap the current line with the line after, if possible
     pub fn move_current_line_down(&mut self) -> bool {
-        if self.swap_lines(self.pos.y + 1, self.pos.y) {
-            self.pos.y += 1;
+        let Pos { x, y } = self.pos;
+        if self.swap_lines(y + 1, y) {
+            // the cursor goes with its line
+            self.pos = Pos { x, y: y + 1 };
             self.fix_selection();
             true
         } else {
-- 
2.43.0


From 022e429298f083f2c28ef749f3464ea4c7523212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 12/56] fix: don't remove the end of the previous line on
 delete at the end of the content

---
 src/views/input_field_content.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index f4972d1..609e87a 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -378,15 +378,7 @@ impl InputFieldContent {
     /// Cursor position is unchanged
     pub fn del_char_below(&mut self) -> bool {
         let line_len = self.current_line().chars.len();
-        if line_len == 0 {
-            if self.lines.len() > 1 {
-                self.lines.remove(self.pos.y);
-                self.fix_selection();
-                true
-            } else {
-                false
-            }
-        } else if self.pos.x < line_len {
+        if self.pos.x < line_len {
             self.lines[self.pos.y].chars.remove(self.pos.x);
             self.fix_selection();
             true
-- 
2.43.0


From e0b0c1a614869d6661b5b1d83c8c2140b8cea2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 13/56] fix: remove the whole selection, and nothing else, when
 it's over several lines

---
 src/views/input_field_content.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index 609e87a..4b4aace 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -412,23 +412,20 @@ impl InputFieldContent {
                 self.lines[min.y].chars.drain(min.x..max.x + 1);
             }
         } else {
-            let min_y = if min.x > 0 {
-                self.lines[min.y].chars.truncate(min.x);
-                min.y + 1
-            } else {
-                min.y
-            };
-            let max_y = if max.x < self.lines[max.y].chars.len() {
-                self.lines[max.y].chars.drain(0..max.x);
-                max.y - 1
-            } else {
-                max.y
-            };
-            if max_y > min_y {
-                self.lines.drain(min_y..(max_y + 1).min(self.lines.len()));
+            // both ends are part of the selection
+            let max_line_len = self.lines[max.y].chars.len();
+            if min.x == 0 && max.x == max_line_len {
+                // we remove whole lines
+                self.lines.drain(min.y..=max.y);
                 if self.lines.is_empty() {
                     self.lines.push(Line::default());
                 }
+            } else {
+                let kept_end = (max.x + 1).min(max_line_len);
+                let mut end = self.lines[max.y].chars.split_off(kept_end);
+                self.lines[min.y].chars.truncate(min.x);
+                self.lines[min.y].chars.append(&mut end);
+                self.lines.drain(min.y + 1..=max.y);
             }
         }
         self.set_cursor_pos(min);
-- 
2.43.0


From f3b9822e7429a149a9fd9fd63249b745afd4c4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 14/56] fix: don't select what's typed after a selection which
 was started but isn't wide

---
 src/views/input_field_content.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index 4b4aace..91fbe38 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -183,6 +183,13 @@ impl InputFieldContent {
             });
         }
     }
+    /// Forget the start of a selection which isn't wide, so that an
+    /// edition doesn't make it grow
+    fn drop_empty_selection(&mut self) {
+        if !self.has_wide_selection() {
+            self.unselect();
+        }
+    }
     fn fix_pos(&mut self) {
         self.pos = self.make_valid_pos(self.pos);
     }
@@ -279,6 +286,7 @@ impl InputFieldContent {
         self.selection_tail = None;
     }
     pub fn insert_new_line(&mut self) {
+        self.drop_empty_selection();
         let new_line = Line {
             chars: self.lines[self.pos.y].chars.split_off(self.pos.x),
         };
@@ -290,6 +298,7 @@ impl InputFieldContent {
     /// Insert a character at the current position, updating
     /// this position
     pub fn insert_char(&mut self, c: char) {
+        self.drop_empty_selection();
         if c == '\n' {
             self.insert_new_line();
         } else if c == '\r' || c == '\x08' {
@@ -335,6 +344,7 @@ impl InputFieldContent {
     }
     /// Remove the char left of the cursor, if any.
     pub fn del_char_left(&mut self) -> bool {
+        self.drop_empty_selection();
         if self.pos.x > 0 {
             self.pos.x -= 1;
             if !self.lines[self.pos.y].chars.is_empty() {
@@ -377,6 +387,7 @@ impl InputFieldContent {
     ///
     /// Cursor position is unchanged
     pub fn del_char_below(&mut self) -> bool {
+        self.drop_empty_selection();
         let line_len = self.current_line().chars.len();
         if self.pos.x < line_len {
             self.lines[self.pos.y].chars.remove(self.pos.x);
@@ -599,6 +610,7 @@ impl InputFieldContent {
         }
     }
     pub fn del_word_left(&mut self) -> bool {
+        self.drop_empty_selection();
         if self.pos.x > 0 {
             let chars = &mut self.lines[self.pos.y].chars;
             loop {
@@ -619,6 +631,7 @@ impl InputFieldContent {
     // I'm not yet sure of what should be the right behavior but all changes
     // should be discussed from cases defined as in the unit tests below
     pub fn del_word_right(&mut self) -> bool {
+        self.drop_empty_selection();
         let chars = &mut self.lines[self.pos.y].chars;
         if self.pos.x < chars.len() {
             loop {
-- 
2.43.0


From e223797d556bda416f76d9949bed8f621477cc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 15/56] fix: update the scroll of the input field on backspace
 and delete

---
 src/views/input_field.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index c4af490..db1f424 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -311,17 +311,15 @@ impl InputField {
     pub fn apply_keycode_event(&mut self, code: KeyCode, shift: bool) -> bool {
         if code == KeyCode::Backspace {
             if self.content.has_wide_selection() {
-                self.content.del_selection();
-                true
+                self.del_selection()
             } else {
-                self.content.del_char_left()
+                self.del_char_left()
             }
         } else if code == KeyCode::Delete {
             if self.content.has_wide_selection() {
-                self.content.del_selection();
-                true
+                self.del_selection()
             } else {
-                self.content.del_char_below()
+                self.del_char_below()
             }
         } else if let KeyCode::Char(c) = code {
             if self.content.has_wide_selection() {
-- 
2.43.0


From f12f7b5e162b7c6d41b390198d51cfa2af59decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 16/56] fix: take the new line keys into account in
 InputField::apply_event and apply_timed_event

---
 src/views/input_field.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index db1f424..21f440e 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -430,17 +430,7 @@ impl InputField {
     pub fn apply_event(&mut self, event: &Event, is_double_click: bool) -> bool {
         match event {
             Event::Mouse(mouse_event) => self.apply_mouse_event(*mouse_event, is_double_click),
-            Event::Key(KeyEvent {
-                code, modifiers, ..
-            }) if self.focused => {
-                if modifiers.is_empty() {
-                    self.apply_keycode_event(*code, false)
-                } else if *modifiers == KeyModifiers::SHIFT {
-                    self.apply_keycode_event(*code, true)
-                } else {
-                    false
-                }
-            }
+            Event::Key(key) => self.apply_key_combination(*key),
             _ => false,
         }
     }
-- 
2.43.0


From 413ac91e84183bcd9fe1c3c315e7952fead51e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 17/56] fix: make the cursor visible when a click gives the
 focus to an input field

---
 src/views/input_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 21f440e..00c70b6 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -362,7 +362,7 @@ impl InputField {
                     .unwrap_or(line.chars.len());
                 self.content.set_cursor_pos(Pos { x, y });
             } else {
-                self.focused = true;
+                self.set_focus(true);
             }
             true
         } else {
@@ -416,7 +416,7 @@ impl InputField {
                     _ => {}
                 }
             } else if matches!(kind, MouseEventKind::Down(MouseButton::Left)) {
-                self.focused = true;
+                self.set_focus(true);
             }
             true
         } else {
-- 
2.43.0


From 03d4bbc805c6ead8c25490cf40f2854ad6120757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 18/56] fix: keep the cursor visible in an input field of
 height 1 with several lines

---
 src/views/input_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 00c70b6..93caa9c 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -487,7 +487,7 @@ impl InputField {
                     }
                 } else if pos.y >= self.scroll.y + height {
                     self.scroll.y = pos.y - height + 1;
-                    if pos.y + 1 < lines.len() {
+                    if pos.y + 1 < lines.len() && height > 1 {
                         self.scroll.y -= 1;
                     }
                 }
-- 
2.43.0


From c83b0322a2fb86a6a70520ac5211edafb692bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 19/56] fix: display the tabs of an input field with the width
 they're counted for

---
 src/views/input_field.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 93caa9c..164be2b 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -58,6 +58,15 @@ impl Default for InputField {
     }
 }
 
+/// queue a char of the content, with tabs as wide as counted
+fn queue_char<W: Write>(w: &mut W, style: &CompoundStyle, c: char) -> Result<(), Error> {
+    if c == '\t' {
+        style.queue_str(w, TAB_REPLACEMENT)
+    } else {
+        style.queue(w, c)
+    }
+}
+
 macro_rules! wrap_content_fun {
     ($fun:ident) => {
         pub fn $fun(&mut self) -> bool {
@@ -618,12 +627,12 @@ impl InputField {
                         }
                     }
                     if self.focused && selection.contains(i, y) {
-                        self.cursor_style.queue(w, c)?;
+                        queue_char(w, &self.cursor_style, c)?;
                         // set terminal cursor position
                         terminal_cursor_pos =
                             Some((self.area.left + displayed_width as u16, self.area.top + j));
                     } else {
-                        normal_style.queue(w, c)?;
+                        queue_char(w, normal_style, c)?;
                     }
                     displayed_width += char_width;
                     if displayed_width >= width {
-- 
2.43.0


From b4a3ca8c92a28e8f9a1d48a14a6288b791be772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 20/56] fix: return the right cursor position when the input
 field is scrolled to the right

---
 src/views/input_field.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 164be2b..52d8803 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -595,11 +595,13 @@ impl InputField {
                 let mut skipped_width = 0;
                 let mut displayed_width = 0;
                 let mut width = width; // available width for rendering chars
+                let mut left = self.area.left; // where chars are rendered
                                        // we don't show ellipsis if the width is 4 or less
                 if width_to_skip > 0 && width > 4 {
                     normal_style.queue(w, fit::ELLIPSIS)?;
                     width_to_skip += 1;
                     width -= 1;
+                    left += 1;
                 }
                 for (i, c) in chars.iter().enumerate() {
                     let c = if self.password_mode { '*' } else { *c };
@@ -616,7 +618,7 @@ impl InputField {
                                 self.cursor_style.queue(w, fit::ELLIPSIS)?;
                                 // set terminal cursor position
                                 terminal_cursor_pos = Some((
-                                    self.area.left + displayed_width as u16,
+                                    left + displayed_width as u16,
                                     self.area.top + j,
                                 ));
                             } else {
@@ -630,7 +632,7 @@ impl InputField {
                         queue_char(w, &self.cursor_style, c)?;
                         // set terminal cursor position
                         terminal_cursor_pos =
-                            Some((self.area.left + displayed_width as u16, self.area.top + j));
+                            Some((left + displayed_width as u16, self.area.top + j));
                     } else {
                         queue_char(w, normal_style, c)?;
                     }
@@ -643,7 +645,7 @@ impl InputField {
                     self.cursor_style.queue(w, ' ')?;
                     // set terminal cursor position
                     terminal_cursor_pos =
-                        Some((self.area.left + displayed_width as u16, self.area.top + j));
+                        Some((left + displayed_width as u16, self.area.top + j));
                     displayed_width += 1;
                 }
                 while displayed_width < width {
-- 
2.43.0


From 0b385aff025ad4b7cfbbca20b8c3f85963e451c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:12 +0000
Subject: [PATCH 21/56] fix: don't panic when scrolling a list view whose rows
 all fit

---
 src/views/list_view.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 0d564f4..58b70ac 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -356,6 +356,16 @@ impl<'t, T> ListView<'t, T> {
             0
         }
     }
+    /// return the biggest possible scroll (there may be an empty line below
+    /// the last row)
+    fn max_scroll(&self) -> usize {
+        let body_height = self.tbody_height() as usize;
+        if self.displayed_rows_count > body_height {
+            self.displayed_rows_count - body_height + 1
+        } else {
+            0
+        }
+    }
     /// set the scroll amount.
     /// lines_count can be negative
     pub fn try_scroll_lines(&mut self, lines_count: i32) {
@@ -367,15 +377,15 @@ impl<'t, T> ListView<'t, T> {
                 self.scroll - lines_count
             };
         } else {
-            self.scroll = (self.scroll + lines_count as usize)
-                .min(self.displayed_rows_count - self.tbody_height() as usize + 1);
+            self.scroll = self.scroll.saturating_add(lines_count as usize);
         }
+        self.scroll = self.scroll.min(self.max_scroll());
         self.make_selection_visible();
     }
     /// set the scroll amount.
     /// pages_count can be negative
     pub fn try_scroll_pages(&mut self, pages_count: i32) {
-        self.try_scroll_lines(pages_count * self.tbody_height() as i32)
+        self.try_scroll_lines(pages_count.saturating_mul(i32::from(self.tbody_height())))
     }
     /// try to select the next visible line
     pub fn try_select_next(&mut self, up: bool) {
-- 
2.43.0


From aac8cdae9368f38bd173cc10aa2d24ecb34eda9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 22/56] fix: scroll a filtered list view by displayed rows

---
 src/views/list_view.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 58b70ac..1546c55 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -241,6 +241,16 @@ impl<'t, T> ListView<'t, T> {
         self.displayed_rows_count = self.rows.len();
         self.filter = None;
     }
+    /// return the index in all rows of the first one which is displayed
+    /// with the current scroll
+    fn first_visible_row(&self) -> usize {
+        self.rows
+            .iter()
+            .enumerate()
+            .filter(|(_, row)| row.displayed)
+            .nth(self.scroll)
+            .map_or(self.rows.len(), |(idx, _)| idx)
+    }
     /// write the list view on the given writer
     pub fn write_on<W>(&self, w: &mut W) -> Result<()>
     where
@@ -290,7 +300,7 @@ impl<'t, T> ListView<'t, T> {
             }
         }
         // rows, maybe scrolled
-        let mut row_idx = self.scroll;
+        let mut row_idx = self.first_visible_row();
         let scrollbar = self.scrollbar();
         for y in 2..self.area.height {
             queue!(w, MoveTo(self.area.left, self.area.top + y))?;
@@ -393,8 +403,9 @@ impl<'t, T> ListView<'t, T> {
             return;
         }
         if self.displayed_rows_count == 1 || self.selection.is_none() {
+            let first = self.first_visible_row();
             for i in 0..self.rows.len() {
-                let i = (i + self.scroll) % self.rows.len();
+                let i = (i + first) % self.rows.len();
                 if self.rows[i].displayed {
                     self.selection = Some(i);
                     self.make_selection_visible();
@@ -444,6 +455,11 @@ impl<'t, T> ListView<'t, T> {
             return; // there's no scroll
         }
         if let Some(sel) = self.selection {
+            if !self.rows[sel].displayed {
+                return;
+            }
+            // the scroll is a number of displayed rows
+            let sel = self.rows[..sel].iter().filter(|row| row.displayed).count();
             if sel <= self.scroll {
                 self.scroll = if sel > 2 { sel - 2 } else { 0 };
             } else if sel + 1 >= self.scroll + tbody_height {
-- 
2.43.0


From b1123dd7ba5fe957d02ae6942c8ecb09dc3c7ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 23/56] fix: make the selection visible in a list view with
 less than 3 lines for the rows

---
 src/views/list_view.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 1546c55..3179f47 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -460,7 +460,14 @@ impl<'t, T> ListView<'t, T> {
             }
             // the scroll is a number of displayed rows
             let sel = self.rows[..sel].iter().filter(|row| row.displayed).count();
-            if sel <= self.scroll {
+            if tbody_height < 3 {
+                // there's no room for other rows around
+                if sel < self.scroll {
+                    self.scroll = sel;
+                } else if sel >= self.scroll + tbody_height {
+                    self.scroll = sel + 1 - tbody_height;
+                }
+            } else if sel <= self.scroll {
                 self.scroll = if sel > 2 { sel - 2 } else { 0 };
             } else if sel + 1 >= self.scroll + tbody_height {
                 self.scroll = sel - tbody_height + 2;
-- 
2.43.0


From b47674ac237ca4b1c1113bc0674a150fde5e14dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 24/56] fix: keep the same row selected when adding a row to a
 sorted list view

---
 src/views/list_view.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 3179f47..6dcb909 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -183,6 +183,12 @@ impl<'t, T> ListView<'t, T> {
         }
         self.rows.push(Row { data, displayed });
         if let Some(row_order) = &self.row_order {
+            if let Some(sel) = self.selection {
+                // we keep the same row selected (the sort being stable)
+                let mut order: Vec<usize> = (0..self.rows.len()).collect();
+                order.sort_by(|&a, &b| row_order(&self.rows[a].data, &self.rows[b].data));
+                self.selection = order.iter().position(|&idx| idx == sel);
+            }
             self.rows.sort_by(|a, b| row_order(&a.data, &b.data));
         }
     }
-- 
2.43.0


From c3903ec81f9eb9b22b6a5dc3b7cc2d0b1488a66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 25/56] fix: draw the scrollbar of a list view in its area,
 with the thumb at the right place

---
 src/views/list_view.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 6dcb909..020d1f0 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -6,6 +6,7 @@ use {
             queue,
             style::{
                 Color,
+                Print,
                 SetBackgroundColor,
             },
             terminal::{
@@ -262,7 +263,7 @@ impl<'t, T> ListView<'t, T> {
     where
         W: std::io::Write,
     {
-        let sx = self.area.left + self.area.width;
+        let sx = self.area.left + self.area.width.saturating_sub(1);
         let vbar = self.skin.table.compound_style.style_char('│');
         let tee = self.skin.table.compound_style.style_char('┬');
         let cross = self.skin.table.compound_style.style_char('┼');
@@ -342,12 +343,15 @@ impl<'t, T> ListView<'t, T> {
             }
             if let Some((sctop, scbottom)) = scrollbar {
                 queue!(w, MoveTo(sx, self.area.top + y))?;
-                let y = y - 2;
+                let y = self.area.top + y - 2;
                 if sctop <= y && y <= scbottom {
                     self.skin.scrollbar.thumb.queue(w)?;
                 } else {
                     self.skin.scrollbar.track.queue(w)?;
                 }
+            } else {
+                // there may be a scrollbar to erase
+                queue!(w, MoveTo(sx, self.area.top + y), Print(' '))?;
             }
         }
         Ok(())
-- 
2.43.0


From 81df357896008e6b33a0ebe80c633aa033c2c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:15 +0000
Subject: [PATCH 26/56] fix: don't erase what's at the right of the area of a
 list view

---
 src/views/list_view.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 020d1f0..f060254 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -9,10 +9,6 @@ use {
                 Print,
                 SetBackgroundColor,
             },
-            terminal::{
-                Clear,
-                ClearType,
-            },
         },
         errors::Result,
         gray,
@@ -313,7 +309,10 @@ impl<'t, T> ListView<'t, T> {
             queue!(w, MoveTo(self.area.left, self.area.top + y))?;
             loop {
                 if row_idx == self.rows.len() {
-                    queue!(w, Clear(ClearType::UntilNewLine))?;
+                    // (not more than the area)
+                    for _ in 0..self.area.width {
+                        queue!(w, Print(' '))?;
+                    }
                     break;
                 }
                 if self.rows[row_idx].displayed {
-- 
2.43.0


From 7151eadfe0c2593f0b5f0f5c4ac8df2e5d5c5f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 27/56] fix: don't overflow when selecting the last visible row
 of a list view

---
 src/views/list_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index f060254..d1cdc0d 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -479,7 +479,7 @@ impl<'t, T> ListView<'t, T> {
             } else if sel <= self.scroll {
                 self.scroll = if sel > 2 { sel - 2 } else { 0 };
             } else if sel + 1 >= self.scroll + tbody_height {
-                self.scroll = sel - tbody_height + 2;
+                self.scroll = sel + 2 - tbody_height;
             }
         }
     }
-- 
2.43.0


From 83a35d7e9f833c3c38e610766e1e9b9e9c3087ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 28/56] fix: don't scroll a list view with one line for the
 rows past its last row

---
 src/views/list_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index d1cdc0d..ff90b76 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -380,7 +380,7 @@ impl<'t, T> ListView<'t, T> {
     fn max_scroll(&self) -> usize {
         let body_height = self.tbody_height() as usize;
         if self.displayed_rows_count > body_height {
-            self.displayed_rows_count - body_height + 1
+            (self.displayed_rows_count - body_height + 1).min(self.displayed_rows_count - 1)
         } else {
             0
         }
-- 
2.43.0


From 5b87a3cae806d57d10afc7feaa699f371c6bd921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 29/56] fix: keep the cursor visible when it goes below the
 visible lines of an input field

---
 src/views/input_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 52d8803..37208cb 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -497,7 +497,7 @@ impl InputField {
                 } else if pos.y >= self.scroll.y + height {
                     self.scroll.y = pos.y - height + 1;
                     if pos.y + 1 < lines.len() && height > 1 {
-                        self.scroll.y -= 1;
+                        self.scroll.y += 1;
                     }
                 }
             }
-- 
2.43.0


From 59de9e105e860ffdae3db9c5b18af1913d6362d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:32 +0000
Subject: [PATCH 30/56] fix: don't draw out of an input field whose width is 1

---
 src/views/input_field.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 37208cb..df15e42 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -477,7 +477,9 @@ impl InputField {
         let lines = &self.content.lines();
         let has_y_scroll = lines.len() > height;
         if has_y_scroll {
-            width -= 1;
+            if width > 1 {
+                width -= 1; // scrollbar
+            }
         } else {
             self.scroll.y = 0;
         }
@@ -559,9 +561,12 @@ impl InputField {
         let mut width = self.area.width as usize;
         let pos = self.content.cursor_pos();
         let mut terminal_cursor_pos = None;
-        let scrollbar = self
-            .area
-            .scrollbar(self.scroll.y, self.content.line_count());
+        let scrollbar = if width > 1 {
+            self.area
+                .scrollbar(self.scroll.y, self.content.line_count())
+        } else {
+            None // there's no room for both the text and the scrollbar
+        };
         if scrollbar.is_some() {
             width -= 1;
         }
-- 
2.43.0


From a268747c7cd1e1d793989cd0b51b52737b3334dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 31/56] fix: scroll and click on the stars of a password input
 field and not on the hidden chars

---
 src/views/input_field.rs | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index df15e42..fd00911 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -1,5 +1,8 @@
 use {
-    super::*,
+    super::{
+        input_field_content::Line,
+        *,
+    },
     crate::{
         crossterm::{
             cursor,
@@ -366,9 +369,8 @@ impl InputField {
                 let y = ((y - self.area.top) as usize + self.scroll.y)
                     .min(self.content.line_count() - 1);
                 let line = &self.content.lines()[y];
-                let x = line
-                    .col_to_char_idx((x - self.area.left) as usize + self.scroll.x)
-                    .unwrap_or(line.chars.len());
+                let col = (x - self.area.left) as usize + self.scroll.x;
+                let x = self.displayed_char_idx(line, col);
                 self.content.set_cursor_pos(Pos { x, y });
             } else {
                 self.set_focus(true);
@@ -392,9 +394,8 @@ impl InputField {
                 let y = ((row - self.area.top) as usize + self.scroll.y)
                     .min(self.content.line_count() - 1);
                 let line = &self.content.lines()[y];
-                let x = line
-                    .col_to_char_idx((column - self.area.left) as usize + self.scroll.x)
-                    .unwrap_or(line.chars.len());
+                let col = (column - self.area.left) as usize + self.scroll.x;
+                let x = self.displayed_char_idx(line, col);
                 // We handle the selection click on down, so that it's set at the
                 // start of drag.
                 match kind {
@@ -471,6 +472,24 @@ impl InputField {
         }
     }
 
+    /// Return the number of columns used to display the first chars of a line
+    fn displayed_width(&self, line: &Line, chars_count: usize) -> usize {
+        if self.password_mode {
+            chars_count // there's a star per char
+        } else {
+            line.char_idx_to_col(chars_count)
+        }
+    }
+
+    /// Return the index in its line of the char displayed at the given column
+    fn displayed_char_idx(&self, line: &Line, col: usize) -> usize {
+        if self.password_mode {
+            col.min(line.chars.len())
+        } else {
+            line.col_to_char_idx(col).unwrap_or(line.chars.len())
+        }
+    }
+
     fn fix_scroll(&mut self) {
         let mut width = self.area.width as usize;
         let height = self.area.height as usize;
@@ -506,7 +525,7 @@ impl InputField {
         }
 
         let line = self.content.current_line();
-        let line_width = line.width();
+        let line_width = self.displayed_width(line, line.chars.len());
         if line_width < width {
             self.scroll.x = 0;
         } else {
@@ -522,7 +541,7 @@ impl InputField {
                         self.scroll.x = pos.x + 1 - width;
                     }
                 } else {
-                    let wpx = line.char_idx_to_col(pos.x);
+                    let wpx = self.displayed_width(line, pos.x);
                     if wpx < self.scroll.x + 2 {
                         if wpx < 2 {
                             self.scroll.x = 0;
-- 
2.43.0


From 2a0fc8a4d8956e210a2d699d50c85e57e98c2ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 32/56] fix: don't draw the thumb of a scrollbar at the bottom
 when the end of the content isn't visible

---
 src/area.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/area.rs b/src/area.rs
index 0b0c7ca..2f9f386 100644
--- a/src/area.rs
+++ b/src/area.rs
@@ -139,12 +139,12 @@ where
         track_before = 1;
     }
     let thumb_height = available_height * available_height / content_height;
-    let scrollbar_top = top + track_before;
+    let mut scrollbar_top = top + track_before;
     let mut scrollbar_bottom = scrollbar_top + thumb_height;
     if scroll + available_height < content_height && available_height > 3 {
-        scrollbar_bottom = scrollbar_bottom
-            .min(top + available_height - 2)
-            .max(scrollbar_top);
+        // the thumb must not reach the bottom
+        scrollbar_top = scrollbar_top.min(top + available_height - 2);
+        scrollbar_bottom = scrollbar_bottom.min(top + available_height - 2);
     }
     // by construction those two conversions are OK
     // (or it's a bug, which, well, is possible...)
-- 
2.43.0


From 1ec80efca207d3a7a3f65be372696a9106f2b522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 33/56] fix: don't overflow on a scroll of a MadView by a huge
 number of pages

---
 src/views/mad_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index ea96716..b326aca 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -74,7 +74,7 @@ impl MadView {
     /// set the scroll amount.
     /// lines_count can be negative
     pub fn try_scroll_pages(&mut self, pages_count: i32) {
-        self.try_scroll_lines(pages_count * i32::from(self.area.height));
+        self.try_scroll_lines(pages_count.saturating_mul(i32::from(self.area.height)));
     }
     /// Apply an event being a key: page_up, page_down, up and down.
     ///
-- 
2.43.0


From aa4c91fd3ccad9be7e12dfe6445801e00409c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 34/56] fix: blend the background of a compound style and not
 twice its foreground

---
 src/compound_style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index b5126c1..1d9be4d 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -86,7 +86,7 @@ impl CompoundStyle {
             let src: coolor::Color = (*fg).into();
             *fg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
         }
-        if let Some(bg) = self.object_style.foreground_color.as_mut() {
+        if let Some(bg) = self.object_style.background_color.as_mut() {
             let src: coolor::Color = (*bg).into();
             *bg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
         }
-- 
2.43.0


From 443a73693dc8d9d904e0110a1b29e9de2fa20a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 35/56] fix: display a blended styled char with the blended
 style

---
 src/styled_char.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/styled_char.rs b/src/styled_char.rs
index 67a0729..6c374a0 100644
--- a/src/styled_char.rs
+++ b/src/styled_char.rs
@@ -100,6 +100,7 @@ impl StyledChar {
     }
     pub fn blend_with<C: Into<coolor::Color>>(&mut self, color: C, weight: f32) {
         self.compound_style.blend_with(color, weight);
+        self.styled_char = self.compound_style.apply_to(self.nude_char);
     }
 }
 
-- 
2.43.0


From 22a6249e2a6e7c2cafb30f5f6d957e1cce734c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 36/56] fix: don't join words on wrapping when the spaces
 between them don't fit the line

---
 src/fit/wrap.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index ba83dfe..2a05d1a 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -108,11 +108,13 @@ pub fn hard_wrap_composite<'s, 'c>(
     );
     // Strategy 2:
     // we try to cut along tokens, using spaces to break
+    let mut line_change = false;
     for token in tokens.drain(..) {
         // TODO: does that really take first_width into account ?
-        if dst_composite.visible_length + token.width > width {
+        if line_change || dst_composite.visible_length + token.width > width {
+            // we skip blank composite at line change
+            line_change = token.blank;
             if !token.blank {
-                // we skip blank composite at line change
                 let mut repl_composite = follow_up_composite(&dst_composite, skin);
                 std::mem::swap(&mut dst_composite, &mut repl_composite);
                 composites.push(repl_composite);
-- 
2.43.0


From 5a09e6ef45a278069f87ea1166f2a91bea8354ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 37/56] fix: write style tokens with spaces between them and
 not before the first one

---
 src/parse/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 4892034..108d6f1 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -88,10 +88,10 @@ pub fn write_style_tokens<W: io::Write>(w: &mut W, tokens: &[StyleToken]) -> io:
     let mut first = true;
     for token in tokens {
         if first {
-            write!(w, " {token}")?;
+            write!(w, "{token}")?;
             first = false;
         } else {
-            write!(w, "{token}")?;
+            write!(w, " {token}")?;
         }
     }
     Ok(())
-- 
2.43.0


From f01a222ff94b3a355eb71ed6a1d46615aebd5cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 38/56] fix: replace a tabulation queued as a styled char, like
 the other queued ones

---
 src/fit/crop_writer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fit/crop_writer.rs b/src/fit/crop_writer.rs
index e96cb2b..9577272 100644
--- a/src/fit/crop_writer.rs
+++ b/src/fit/crop_writer.rs
@@ -62,6 +62,9 @@ where
         cs.queue(self.w, string)
     }
     pub fn queue_char(&mut self, cs: &CompoundStyle, c: char) -> Result<(), Error> {
+        if c == '\t' {
+            return self.queue_str(cs, self.tab_replacement);
+        }
         let width = UnicodeWidthChar::width(c).unwrap_or(0);
         if width < self.allowed {
             self.allowed -= width;
-- 
2.43.0


From 74a061eebb1958ce921bffff7f2ef400e3577916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 39/56] fix: fill_width also narrows a composite which was
 filled with more columns

---
 src/composite.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/composite.rs b/src/composite.rs
index 04dbc6a..d84cd22 100644
--- a/src/composite.rs
+++ b/src/composite.rs
@@ -96,6 +96,10 @@ impl<'s> FmtComposite<'s> {
     /// This calls the `fit_width` and `extend_width` methods.
     pub fn fill_width(&mut self, width: usize, align: Alignment, skin: &MadSkin) {
         self.fit_width(width, align, skin);
+        if let Some(ref mut spacing) = self.spacing {
+            // a previous spacing may be too wide
+            spacing.width = spacing.width.min(width);
+        }
         self.extend_width(width, align);
     }
 }
-- 
2.43.0


From 0a3546030956545a7947c5eda8b7fe86ba836e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 40/56] fix: overflow when fitting a token of which no char can
 be removed

---
 src/fit/composite_fit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fit/composite_fit.rs b/src/fit/composite_fit.rs
index 7e12f88..499d0db 100644
--- a/src/fit/composite_fit.rs
+++ b/src/fit/composite_fit.rs
@@ -171,6 +171,10 @@ impl Zone {
                 break;
             }
         }
+        if removed_width < 2 {
+            // there would be no gain
+            return 0;
+        }
         let start_byte_idx = self.byte_start_idx + self.char_infos[start_char_idx].byte_idx;
         let end_byte_idx = self.byte_start_idx + self.char_infos[end_char_idx].byte_idx;
         let head = compound.sub(0, start_byte_idx);
-- 
2.43.0


From 4e857d8e43f7d10902cc1d0e9681313323da3a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 41/56] fix: read dark colors (not the similar light ones),
 reset, and refuse words only holding the name of a color

---
 src/parse/parse_color.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/parse/parse_color.rs b/src/parse/parse_color.rs
index 0a9307c..9e88243 100644
--- a/src/parse/parse_color.rs
+++ b/src/parse/parse_color.rs
@@ -19,7 +19,7 @@ pub enum ParseColorError {
 
 pub fn write_color(f: &mut fmt::Formatter<'_>, c: Color) -> fmt::Result {
     match c {
-        Color::Reset => Ok(()),
+        Color::Reset => write!(f, "Reset"),
         Color::Black => write!(f, "Black"),
         Color::DarkGrey => write!(f, "DarkGrey"),
         Color::Red => write!(f, "Red"),
@@ -80,21 +80,23 @@ pub fn parse_color(s: &str) -> Result<Color, ParseColorError> {
             };
             rgb(r, g, b)
         }
-        "black"i => Color::AnsiValue(16),
-        "blue"i => Color::Blue,
-        "cyan"i => Color::Cyan,
-        "darkblue"i => Color::DarkBlue,
-        "darkcyan"i => Color::DarkCyan,
-        "darkgreen"i => Color::DarkGreen,
-        "darkmagenta"i => Color::DarkMagenta,
-        "darkred"i => Color::DarkRed,
-        "green"i => Color::Green,
-        "grey"i => Color::Grey,
-        "magenta"i => Color::Magenta,
-        "red"i => Color::Red,
-        "yellow"i => Color::Yellow,
-        "darkyellow"i => Color::DarkYellow,
-        "white"i => Color::AnsiValue(231),
+        "^black$"i => Color::AnsiValue(16),
+        "^blue$"i => Color::Blue,
+        "^cyan$"i => Color::Cyan,
+        "^darkblue$"i => Color::DarkBlue,
+        "^darkcyan$"i => Color::DarkCyan,
+        "^darkgreen$"i => Color::DarkGreen,
+        "^darkgrey$"i => Color::DarkGrey,
+        "^darkmagenta$"i => Color::DarkMagenta,
+        "^darkred$"i => Color::DarkRed,
+        "^green$"i => Color::Green,
+        "^grey$"i => Color::Grey,
+        "^magenta$"i => Color::Magenta,
+        "^red$"i => Color::Red,
+        "^reset$"i => Color::Reset,
+        "^yellow$"i => Color::Yellow,
+        "^darkyellow$"i => Color::DarkYellow,
+        "^white$"i => Color::AnsiValue(231),
     )
     .ok_or(ParseColorError::Unrecognized)
 }
-- 
2.43.0


From ce13f02f0971fa1eca2f8ce9431ffde424ea5f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 42/56] fix: keep the blinking attributes in serialized styles

---
 src/compound_style.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index 1d9be4d..1d39389 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -32,6 +32,8 @@ pub static ATTRIBUTES: &[Attribute] = &[
     Attribute::Dim,
     Attribute::Italic,
     Attribute::Underlined,
+    Attribute::SlowBlink,
+    Attribute::RapidBlink,
     Attribute::Reverse,
     Attribute::CrossedOut,
     Attribute::Encircled,
-- 
2.43.0


From c3300db6a025ef148c9206ed91e81a81b7ff081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 43/56] fix: accept strikeout as attribute, as documented

---
 src/parse/parse_attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/parse_attribute.rs b/src/parse/parse_attribute.rs
index 98104da..f289d7e 100644
--- a/src/parse/parse_attribute.rs
+++ b/src/parse/parse_attribute.rs
@@ -44,7 +44,7 @@ pub fn write_attribute(f: &mut fmt::Formatter<'_>, a: Attribute) -> fmt::Result
 pub fn parse_attribute(s: &str) -> Result<Attribute, ParseAttributeError> {
     if regex_is_match!("bold"i, s) {
         Ok(Attribute::Bold)
-    } else if regex_is_match!("crossed[_-]?out"i, s) {
+    } else if regex_is_match!("crossed[_-]?out|strikeout"i, s) {
         Ok(Attribute::CrossedOut)
     } else if regex_is_match!("dim"i, s) {
         Ok(Attribute::Dim)
-- 
2.43.0


From c7e28914d09646252543bbed9c1cda9421516e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 44/56] fix: margins of 65536 columns were written as 0

---
 src/parse/parse_line_style.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/parse_line_style.rs b/src/parse/parse_line_style.rs
index 3ad95cb..b4d1bd5 100644
--- a/src/parse/parse_line_style.rs
+++ b/src/parse/parse_line_style.rs
@@ -46,8 +46,8 @@ impl PushStyleTokens for LineStyle {
         self.compound_style.push_style_tokens(tokens);
         tokens.push(StyleToken::Align(self.align));
         if self.left_margin > 0 || self.right_margin > 0 {
-            tokens.push(StyleToken::Dimension(self.left_margin.min(65536) as u16));
-            tokens.push(StyleToken::Dimension(self.right_margin.min(65536) as u16));
+            tokens.push(StyleToken::Dimension(self.left_margin.min(u16::MAX as usize) as u16));
+            tokens.push(StyleToken::Dimension(self.right_margin.min(u16::MAX as usize) as u16));
         }
     }
 }
-- 
2.43.0


From fb051c2276c05bbece5ab5b332eb2e1461fb2f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 45/56] fix: serialized scrollbar style losing attributes and
 missing colors

---
 src/serde/serde_scrollbar_style.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/serde/serde_scrollbar_style.rs b/src/serde/serde_scrollbar_style.rs
index cb2a5c9..71a66e4 100644
--- a/src/serde/serde_scrollbar_style.rs
+++ b/src/serde/serde_scrollbar_style.rs
@@ -28,14 +28,9 @@ pub enum ScrollBarStyleDef {
 
 impl From<&ScrollBarStyle> for ScrollBarStyleDef {
     fn from(sc: &ScrollBarStyle) -> Self {
-        let simple = sc.track.nude_char() == sc.thumb.nude_char()
-            && sc.track.get_bg().is_none()
-            && sc.thumb.get_bg().is_none();
-        if simple {
-            Self::Simple(StyledChar::new(
-                CompoundStyle::new(sc.thumb.get_fg(), sc.track.get_fg(), Default::default()),
-                sc.track.nude_char(),
-            ))
+        let simplified = Self::simplified(sc);
+        if *sc == ScrollBarStyle::from(simplified.clone()) {
+            Self::Simple(simplified)
         } else {
             Self::Rich {
                 track: sc.track.clone(),
@@ -46,6 +41,13 @@ impl From<&ScrollBarStyle> for ScrollBarStyleDef {
 }
 
 impl ScrollBarStyleDef {
+    /// the simple representation, which may not hold everything
+    fn simplified(sc: &ScrollBarStyle) -> StyledChar {
+        StyledChar::new(
+            CompoundStyle::new(sc.thumb.get_fg(), sc.track.get_fg(), Default::default()),
+            sc.track.nude_char(),
+        )
+    }
     pub fn into_scrollbar_style(self) -> ScrollBarStyle {
         match self {
             Self::Simple(sc) => sc.into(),
-- 
2.43.0


From 9fe19796a172e383a8f5445317aa2b2b2bd322b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:46 +0000
Subject: [PATCH 46/56] fix: wide chars and tabs in list views were drawn out
 of their cells

---
 src/spacing.rs         | 23 ++++++++++-------------
 src/views/list_view.rs |  5 +++--
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/spacing.rs b/src/spacing.rs
index 999a6c7..6daf541 100644
--- a/src/spacing.rs
+++ b/src/spacing.rs
@@ -2,6 +2,7 @@ use {
     crate::{
         compound_style::CompoundStyle,
         errors::Result,
+        fit::StrFit,
     },
     minimad::Alignment,
 };
@@ -12,13 +13,6 @@ pub struct Spacing {
     pub align: Alignment,
 }
 
-fn truncate(s: &str, max_chars: usize) -> &str {
-    match s.char_indices().nth(max_chars) {
-        None => s,
-        Some((idx, _)) => &s[..idx],
-    }
-}
-
 impl Spacing {
     /// compute the number of chars to add left and write of inner_width
     /// to fill outer_width
@@ -67,8 +61,12 @@ impl Spacing {
     {
         if str_width >= self.width {
             // we must truncate
-            let s = truncate(s, self.width);
-            style.queue_str(w, s)?;
+            let (s, fitting_width) = StrFit::make_cow(s, self.width);
+            style.queue_str(w, s.as_ref())?;
+            if fitting_width < self.width {
+                // there was no room for a wide char
+                style.queue(w, " ".repeat(self.width - fitting_width))?;
+            }
         } else {
             // we must complete with spaces
             // This part could be written in a more efficient way
@@ -77,7 +75,7 @@ impl Spacing {
             for _ in 0..lp {
                 con.push(' ');
             }
-            con.push_str(s);
+            con.push_str(&StrFit::make_cow(s, usize::MAX).0);
             for _ in 0..rp {
                 con.push(' ');
             }
@@ -85,12 +83,11 @@ impl Spacing {
         }
         Ok(())
     }
-    // FIXME use the number of chars instead of their real width,
-    // the crop writer should be used when wide characters are expected
     pub fn write_str<W>(&self, w: &mut W, s: &str, style: &CompoundStyle) -> Result<()>
     where
         W: std::io::Write,
     {
-        self.write_counted_str(w, s, s.chars().count(), style)
+        let (_, str_width) = StrFit::count_fitting(s, usize::MAX);
+        self.write_counted_str(w, s, str_width, style)
     }
 }
diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index ff90b76..5fb41cf 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -17,6 +17,7 @@ use {
         CompoundStyle,
         MadSkin,
         Spacing,
+        StrFit,
     },
     std::{
         cmp::Ordering,
@@ -30,7 +31,7 @@ use {
 pub struct ListViewCell<'t> {
     con: String,
     style: &'t CompoundStyle,
-    width: usize, // length of content in chars
+    width: usize, // number of columns of the content
 }
 
 pub struct Title {
@@ -75,7 +76,7 @@ pub struct ListView<'t, T> {
 
 impl<'t> ListViewCell<'t> {
     pub fn new(con: String, style: &'t CompoundStyle) -> Self {
-        let width = con.chars().count();
+        let (_, width) = StrFit::count_fitting(&con, usize::MAX);
         Self { con, style, width }
     }
 }
-- 
2.43.0


From 94e3634bde50343734b9406a03f8ba3e22a4b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:46 +0000
Subject: [PATCH 47/56] fix: selection tail set from the length of another line

---
 src/views/input_field_content.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index 91fbe38..1ef81e2 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -179,7 +179,7 @@ impl InputFieldContent {
         } else {
             self.selection_tail = Some(Pos {
                 y: sel_tail.y,
-                x: sel_tail.x.min(self.lines[self.pos.y].chars.len()),
+                x: sel_tail.x.min(self.lines[sel_tail.y].chars.len()),
             });
         }
     }
-- 
2.43.0


From 4597a822b2ceff3c09de91fb188e6dfdf57e71f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:04 +0000
Subject: [PATCH 48/56] fix: the content width didn't count the borders of
 tables without rules

---
 src/line.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 20e3f72..64f05d9 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -43,7 +43,11 @@ impl<'s> FmtLine<'s> {
     pub fn visible_length(&self) -> usize {
         match self {
             FmtLine::Normal(composite) => composite.visible_length,
-            FmtLine::TableRow(row) => row.cells.iter().fold(0, |s, c| s + c.visible_length), // Is that right ? no spacing ?
+            FmtLine::TableRow(row) => {
+                1 + row.cells.iter().fold(0, |s, c| {
+                    s + c.spacing.map_or(c.visible_length, |sp| sp.width) + 1
+                })
+            }
             FmtLine::TableRule(rule) => 1 + rule.widths.iter().fold(0, |s, w| s + w + 1),
             FmtLine::HorizontalRule => 0, // No intrinsic width
         }
-- 
2.43.0


From 2deafbd6b06011e9d8a94bd142c6f38decf629ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 49/56] fix: the content width didn't count the right padding
 of wrapped code blocks

---
 src/line.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 64f05d9..201caa1 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -42,7 +42,11 @@ impl<'s> FmtLine<'s> {
     }
     pub fn visible_length(&self) -> usize {
         match self {
-            FmtLine::Normal(composite) => composite.visible_length,
+            FmtLine::Normal(composite) => composite
+                .spacing
+                .map_or(composite.visible_length, |sp| {
+                    sp.width.max(composite.visible_length)
+                }),
             FmtLine::TableRow(row) => {
                 1 + row.cells.iter().fold(0, |s, c| {
                     s + c.spacing.map_or(c.visible_length, |sp| sp.width) + 1
-- 
2.43.0


From 762c7b559515332a6806c495b86a2ffd9ed39295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 50/56] fix: upper case chars were missing in displayed escape
 sequences

---
 src/events/escape_sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events/escape_sequence.rs b/src/events/escape_sequence.rs
index 746b865..241c0c9 100644
--- a/src/events/escape_sequence.rs
+++ b/src/events/escape_sequence.rs
@@ -26,7 +26,7 @@ impl fmt::Display for EscapeSequence {
         for key in &self.keys {
             if let KeyEvent {
                 code: KeyCode::Char(c),
-                modifiers: KeyModifiers::NONE,
+                modifiers: KeyModifiers::NONE | KeyModifiers::SHIFT,
                 ..
             } = key
             {
-- 
2.43.0


From fc9ec4013ca4dc1f092ae40bbc1c5c277323c5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:24 +0000
Subject: [PATCH 51/56] fix: the returned cursor position wasn't the one of the
 cursor in selections made backward

---
 src/views/input_field.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index fd00911..b7b94ce 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -640,11 +640,13 @@ impl InputField {
                         if !is_last || displayed_width + char_width > width {
                             if self.focused && selection.contains(i, y) {
                                 self.cursor_style.queue(w, fit::ELLIPSIS)?;
-                                // set terminal cursor position
-                                terminal_cursor_pos = Some((
-                                    left + displayed_width as u16,
-                                    self.area.top + j,
-                                ));
+                                if y == pos.y && i == pos.x {
+                                    // set terminal cursor position
+                                    terminal_cursor_pos = Some((
+                                        left + displayed_width as u16,
+                                        self.area.top + j,
+                                    ));
+                                }
                             } else {
                                 normal_style.queue(w, fit::ELLIPSIS)?;
                             }
@@ -654,9 +656,11 @@ impl InputField {
                     }
                     if self.focused && selection.contains(i, y) {
                         queue_char(w, &self.cursor_style, c)?;
-                        // set terminal cursor position
-                        terminal_cursor_pos =
-                            Some((left + displayed_width as u16, self.area.top + j));
+                        if y == pos.y && i == pos.x {
+                            // set terminal cursor position
+                            terminal_cursor_pos =
+                                Some((left + displayed_width as u16, self.area.top + j));
+                        }
                     } else {
                         queue_char(w, normal_style, c)?;
                     }
-- 
2.43.0


From 49875f1c6d84faca5384a13deccbc8b8ae3e2c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:21 +0000
Subject: [PATCH 52/56] fix: the only column of a table wasn't said to be
 reduced

---
 src/fit/tbl_fit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit/tbl_fit.rs b/src/fit/tbl_fit.rs
index 8bb386f..51b2690 100644
--- a/src/fit/tbl_fit.rs
+++ b/src/fit/tbl_fit.rs
@@ -91,7 +91,7 @@ impl TblFit {
         }
         if self.cols.len() == 1 {
             return TblFitResult {
-                reduced: false,
+                reduced: true,
                 col_widths: vec![self.available_sum_width],
             };
         }
-- 
2.43.0


From c37b22cca29eadb2f472be560c36287eb10deba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:12 +0000
Subject: [PATCH 53/56] fix: the thumb given by compute_scrollbar could go one
 line below the available height

---
 src/area.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/area.rs b/src/area.rs
index 2f9f386..3fc4fe8 100644
--- a/src/area.rs
+++ b/src/area.rs
@@ -146,6 +146,10 @@ where
         scrollbar_top = scrollbar_top.min(top + available_height - 2);
         scrollbar_bottom = scrollbar_bottom.min(top + available_height - 2);
     }
+    // the thumb must not go over the available height
+    let bottom = top + available_height.saturating_sub(1);
+    scrollbar_top = scrollbar_top.min(bottom);
+    scrollbar_bottom = scrollbar_bottom.min(bottom);
     // by construction those two conversions are OK
     // (or it's a bug, which, well, is possible...)
     let scrollbar_top = scrollbar_top.try_into().unwrap();
-- 
2.43.0


From 41d037013c130a864740abfc376f21c1f1f2ff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:05 +0000
Subject: [PATCH 54/56] fix: making the text of an area without width panicked

---
 src/skin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skin.rs b/src/skin.rs
index 827afa2..1dea5c4 100644
--- a/src/skin.rs
+++ b/src/skin.rs
@@ -363,7 +363,7 @@ impl MadSkin {
     ///
     /// Code blocs will be right justified
     pub fn area_text<'k, 's>(&'k self, src: &'s str, area: &Area) -> FmtText<'k, 's> {
-        FmtText::from(self, src, Some(area.width as usize - 1))
+        FmtText::from(self, src, Some((area.width as usize).saturating_sub(1)))
     }
 
     pub fn write_in_area(&self, markdown: &str, area: &Area) -> Result<()> {
-- 
2.43.0


From 63cb1da2263c5849417cd91b2c088e354394b61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:05 +0000
Subject: [PATCH 55/56] fix: views drew out of areas without room for them
 (null width or height, lists of one line)

---
 src/views/input_field.rs | 3 +++
 src/views/list_view.rs   | 6 ++++++
 src/views/text_view.rs   | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index b7b94ce..fb8e024 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -571,6 +571,9 @@ impl InputField {
     /// w is typically either stderr or stdout. This function doesn't
     /// flush by itself (useful to avoid flickering)
     pub fn display_on<W: Write>(&self, w: &mut W) -> Result<Option<(u16, u16)>, Error> {
+        if self.area.width == 0 {
+            return Ok(None); // there's no room for anything
+        }
         let normal_style = if self.focused {
             &self.focused_style
         } else {
diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 5fb41cf..d662d1c 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -260,6 +260,9 @@ impl<'t, T> ListView<'t, T> {
     where
         W: std::io::Write,
     {
+        if self.area.width == 0 || self.area.height == 0 {
+            return Ok(()); // there's no room for anything
+        }
         let sx = self.area.left + self.area.width.saturating_sub(1);
         let vbar = self.skin.table.compound_style.style_char('│');
         let tee = self.skin.table.compound_style.style_char('┬');
@@ -288,6 +291,9 @@ impl<'t, T> ListView<'t, T> {
                 &self.skin.headers[0].compound_style,
             )?;
         }
+        if self.area.height == 1 {
+            return Ok(()); // there's no room for the separator
+        }
         // separator line
         queue!(w, MoveTo(self.area.left, self.area.top + 1))?;
         for (title_idx, title) in self.titles.iter().enumerate() {
diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index 00e9daf..0d4c74c 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -99,6 +99,9 @@ impl<'a, 't> TextView<'a, 't> {
 
     /// display the text in the area, taking the scroll into account.
     pub fn write_on<W: Write>(&self, w: &mut W) -> Result<()> {
+        if self.area.width == 0 {
+            return Ok(()); // there's no room for anything
+        }
         let scrollbar = self.scrollbar();
         let mut lines = self.text.lines.iter().skip(self.scroll);
         let mut width = self.area.width as usize;
-- 
2.43.0


From b2b870ba230e4e7ed217b657288d96ccc888151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:15 +0000
Subject: [PATCH 56/56] fix: a rectangle was drawn out of areas of one column
 or without room

---
 src/rect.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/rect.rs b/src/rect.rs
index 4ec1963..c0ad00b 100644
--- a/src/rect.rs
+++ b/src/rect.rs
@@ -100,6 +100,10 @@ impl<'s> Rect<'s> {
         let area = &self.area;
         let cs = &self.colors;
         let bs = &self.border_style;
+        if area.width == 0 || area.height == 0 {
+            return Ok(()); // there's no room for anything
+        }
+        let has_right_side = area.width > 1;
         let mut y = area.top;
         w.queue(cursor::MoveTo(area.left, y))?;
         cs.queue(w, bs.top_left)?;
@@ -108,7 +112,9 @@ impl<'s> Rect<'s> {
                 cs.queue(w, bs.top)?;
             }
         }
-        cs.queue(w, bs.top_right)?;
+        if has_right_side {
+            cs.queue(w, bs.top_right)?;
+        }
         y += 1;
         while y < area.top + area.height - 1 {
             w.queue(cursor::MoveTo(area.left, y))?;
@@ -120,7 +126,9 @@ impl<'s> Rect<'s> {
             } else {
                 w.queue(cursor::MoveTo(area.left + area.width - 1, y))?;
             }
-            cs.queue(w, bs.right)?;
+            if has_right_side {
+                cs.queue(w, bs.right)?;
+            }
             y += 1;
         }
         w.queue(cursor::MoveTo(area.left, area.bottom() - 1))?;
@@ -130,7 +138,9 @@ impl<'s> Rect<'s> {
                 cs.queue(w, bs.bottom)?;
             }
         }
-        cs.queue(w, bs.bottom_right)?;
+        if has_right_side {
+            cs.queue(w, bs.bottom_right)?;
+        }
         Ok(())
     }
 }
-- 
2.43.0

