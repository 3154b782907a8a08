From cdc40636eee55130e3ddae4b850026f1712debd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 01/37] fix: Track the cursor position after a wide character
 in Screen::refresh

A wide character advances the terminal cursor by its width, not by one.
---
 src/buffer.rs      | 5 +++++
 src/unix/screen.rs | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 020715e..b553e2e 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -507,6 +507,11 @@ impl Cell {
         self.text.chars().next().expect("empty cell text")
     }
 
+    /// Returns the number of columns taken by the cell's character.
+    pub fn width(&self) -> usize {
+        char_width(self.first_char()).unwrap_or(0)
+    }
+
     fn is_wide(&self) -> bool {
         self.text.chars().next()
             .and_then(char_width).unwrap_or(0) == 2
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 5597355..9d10970 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -192,7 +192,7 @@ impl<'a> ScreenWriteGuard<'a> {
 
             self.apply_attrs(cell.attrs())?;
             self.writer.write_str(cell.text())?;
-            self.data.real_cursor.column += 1;
+            self.data.real_cursor.column += cell.width();
         }
 
         self.writer.clear_attributes()?;
-- 
2.43.0


From 17f8c8c50b4674c2d4ab0db630773fb14afc6d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 02/37] fix: Fill the end of a line with spaces when a wide
 character does not fit

The cells were filled with the wide character itself, so that it was
also displayed at the end of the line.
---
 src/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index b553e2e..d389def 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -195,7 +195,7 @@ impl ScreenBuffer {
                 let mut pos = self.cursor;
 
                 for _ in 0..rem {
-                    self.set_cell(pos, ch);
+                    self.set_cell(pos, ' ');
                     pos.column += 1;
                 }
 
-- 
2.43.0


From 763ebf6068893925826a19817937798f1223985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 03/37] fix: Attach a combining mark to the preceding wide
 character

The mark was added to the second cell of the wide character, which is
never displayed.
---
 src/buffer.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index d389def..30a9efe 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -142,6 +142,20 @@ impl ScreenBuffer {
         &mut self.buffer[pos.as_index(size)]
     }
 
+    /// Returns the position of the character that covers the given cell;
+    /// this is a cell to its left if that cell contains a wide character.
+    fn lead_cell(&mut self, pos: Cursor) -> Cursor {
+        if let Some(prev) = pos.column.checked_sub(1) {
+            let lead = Cursor{column: prev, ..pos};
+
+            if self.cell_mut(lead).is_wide() {
+                return lead;
+            }
+        }
+
+        pos
+    }
+
     fn set_cell(&mut self, pos: Cursor, ch: char) {
         let fg = self.fg;
         let bg = self.bg;
@@ -172,7 +186,8 @@ impl ScreenBuffer {
         } else if is_combining_mark(ch) {
             if let Some(prev) = self.cursor.previous(self.size) {
                 self.try_cursor_at(prev)?;
-                self.cell_mut(prev).text.push(ch);
+                let pos = self.lead_cell(prev);
+                self.cell_mut(pos).text.push(ch);
             }
         } else if is_visible(ch) {
             self.try_cursor()?;
-- 
2.43.0


From 91a45c5b3e2bc6ccbcb432136f5711c56b6b6888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 04/37] fix: Redraw cells that are no longer covered by a wide
 character

The back buffer kept the former contents of a cell covered by a wide
character, so that the cell was not drawn when the wide character was
removed and the cell received those contents again.
---
 src/buffer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 30a9efe..8452e3c 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -114,7 +114,11 @@ impl ScreenBuffer {
 
             // Skip cells overlapped by wide characters
             if width == 2 {
-                let _ = indices.next();
+                if let Some(covered) = indices.next() {
+                    // The cell does not display its own contents; it must be
+                    // redrawn when it is not overlapped anymore.
+                    self.back_buffer[covered] = Cell::invalid();
+                }
             }
 
             if self.buffer[idx] != self.back_buffer[idx] {
-- 
2.43.0


From 4b794293e17961ef175abc7375a89785cf8eb9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 05/37] fix: Handle characters wider than two columns in Screen

The third column of U+17D8 was drawn separately, erasing the character.
---
 src/buffer.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 8452e3c..25f1f45 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -9,6 +9,9 @@ use crate::util::{char_width, is_combining_mark};
 
 const TAB_STOP: usize = 8;
 
+// Greatest possible width of a character; U+17D8 is three columns wide.
+const MAX_WIDTH: usize = 3;
+
 pub struct ScreenBuffer {
     buffer: Vec<Cell>,
     back_buffer: Vec<Cell>,
@@ -109,11 +112,8 @@ impl ScreenBuffer {
     // interefere with Screen implementations calling `&mut self` methods.
     pub fn next_cell(&mut self, indices: &mut Range<usize>) -> Option<(Cursor, Cell)> {
         while let Some(idx) = indices.next() {
-            let first = self.buffer[idx].first_char();
-            let width = char_width(first).unwrap_or(0);
-
             // Skip cells overlapped by wide characters
-            if width == 2 {
+            for _ in 1..self.buffer[idx].width() {
                 if let Some(covered) = indices.next() {
                     // The cell does not display its own contents; it must be
                     // redrawn when it is not overlapped anymore.
@@ -149,11 +149,13 @@ impl ScreenBuffer {
     /// Returns the position of the character that covers the given cell;
     /// this is a cell to its left if that cell contains a wide character.
     fn lead_cell(&mut self, pos: Cursor) -> Cursor {
-        if let Some(prev) = pos.column.checked_sub(1) {
-            let lead = Cursor{column: prev, ..pos};
+        for n in 1..MAX_WIDTH {
+            if let Some(column) = pos.column.checked_sub(n) {
+                let lead = Cursor{column, ..pos};
 
-            if self.cell_mut(lead).is_wide() {
-                return lead;
+                if self.cell_mut(lead).width() > n {
+                    return lead;
+                }
             }
         }
 
@@ -196,12 +198,10 @@ impl ScreenBuffer {
         } else if is_visible(ch) {
             self.try_cursor()?;
 
-            if let Some(prev) = self.cursor.previous(self.size) {
-                let cell = self.cell_mut(prev);
+            let lead = self.lead_cell(self.cursor);
 
-                if cell.is_wide() {
-                    *cell = Cell::default();
-                }
+            if lead != self.cursor {
+                *self.cell_mut(lead) = Cell::default();
             }
 
             let rem = self.size.columns - self.cursor.column;
@@ -530,11 +530,6 @@ impl Cell {
     pub fn width(&self) -> usize {
         char_width(self.first_char()).unwrap_or(0)
     }
-
-    fn is_wide(&self) -> bool {
-        self.text.chars().next()
-            .and_then(char_width).unwrap_or(0) == 2
-    }
 }
 
 impl Default for Cell {
-- 
2.43.0


From dc656c24f21aadb5a17563b2f4a42d7280df3a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 06/37] fix: Blank a wide character that is cut in half by
 resizing the Screen

The character was kept in the last column, where it cannot be displayed
and made the terminal wrap or scroll.
---
 src/buffer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index 25f1f45..17fe0a1 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -550,6 +550,13 @@ fn resize_buffer(buf: &mut Vec<Cell>, old: Size, new: Size) {
                 for i in 0..n_cols {
                     swap(&mut new[i], &mut old[i]);
                 }
+
+                // Blank a wide character cut by the new edge
+                for i in n_cols.saturating_sub(MAX_WIDTH)..n_cols {
+                    if i + new[i].width() > n_cols {
+                        new[i] = Cell::default();
+                    }
+                }
             }
         }
 
-- 
2.43.0


From e5afb3573c6653d23d17530061e1a94748c17244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 07/37] fix: Do not panic when writing a character wider than
 the Screen

---
 src/buffer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 17fe0a1..eede4b5 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -198,6 +198,13 @@ impl ScreenBuffer {
         } else if is_visible(ch) {
             self.try_cursor()?;
 
+            let width = char_width(ch).unwrap_or(0);
+
+            if width > self.size.columns {
+                // The character does not fit on any line
+                return Err(OutOfBounds(()));
+            }
+
             let lead = self.lead_cell(self.cursor);
 
             if lead != self.cursor {
@@ -205,7 +212,6 @@ impl ScreenBuffer {
             }
 
             let rem = self.size.columns - self.cursor.column;
-            let width = char_width(ch).unwrap_or(0);
 
             // If insufficient space exists on the current line,
             // fill it with spaces and write the char on the next line.
-- 
2.43.0


From e45f3d0b6b892235c33fffca5cc9eba55c47d829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 08/37] fix: Give spacing combining marks their own cell

Marks with a nonzero width, such as U+0903, advance the terminal cursor;
joining them to the previous cell displaced the rest of the line.
---
 src/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index eede4b5..1633d8d 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -189,7 +189,7 @@ impl ScreenBuffer {
         } else if ch == '\n' {
             self.cursor.line += 1;
             self.cursor.column = 0;
-        } else if is_combining_mark(ch) {
+        } else if is_combining_mark(ch) && !is_visible(ch) {
             if let Some(prev) = self.cursor.previous(self.size) {
                 self.try_cursor_at(prev)?;
                 let pos = self.lead_cell(prev);
-- 
2.43.0


From 7e01a1fc8e0d1e9a12f1022b3bd77de48de9aaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 09/37] fix: Clear attributes in Screen::write_styled when text
 does not fit

The attributes remained set if the text reached the end of the screen.
---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 1633d8d..b5efce0 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -271,10 +271,10 @@ impl ScreenBuffer {
         self.bg = bg;
         self.style = style;
 
-        self.write_str(text)?;
+        let res = self.write_str(text);
         self.clear_attributes();
 
-        Ok(())
+        res
     }
 
     pub fn write_styled_at(&mut self, pos: Cursor,
-- 
2.43.0


From 2dc70d2399b3f0fa6a431318f9a25da563c10592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 10/37] fix: Do not overflow when moving to the next line of a
 Screen

set_cursor accepts any position, including the greatest line number.
---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index b5efce0..84330e5 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -62,7 +62,7 @@ impl ScreenBuffer {
     }
 
     pub fn next_line(&mut self, column: usize) {
-        self.cursor.line += 1;
+        self.cursor.line = self.cursor.line.saturating_add(1);
         self.cursor.column = column;
     }
 
@@ -187,7 +187,7 @@ impl ScreenBuffer {
         } else if ch == '\r' {
             self.cursor.column = 0;
         } else if ch == '\n' {
-            self.cursor.line += 1;
+            self.cursor.line = self.cursor.line.saturating_add(1);
             self.cursor.column = 0;
         } else if is_combining_mark(ch) && !is_visible(ch) {
             if let Some(prev) = self.cursor.previous(self.size) {
-- 
2.43.0


From 1cdaed0653394d2a7cea8e26c6ea627cd202cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 11/37] fix: Redraw the cell whose output failed on the next
 Screen refresh

The cell being written when the device reported an error was considered
drawn and remained wrong on the display.
---
 src/buffer.rs      |  6 ++++++
 src/unix/screen.rs | 13 ++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 84330e5..b022b54 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -136,6 +136,12 @@ impl ScreenBuffer {
         None
     }
 
+    /// Causes a cell to be returned again by `next_cell`.
+    pub fn invalidate_cell(&mut self, pos: Cursor) {
+        let idx = pos.as_index(self.size);
+        self.back_buffer[idx] = Cell::invalid();
+    }
+
     #[cfg(test)]
     fn cell(&self, pos: Cursor) -> &Cell {
         &self.buffer[pos.as_index(self.size)]
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 9d10970..770216c 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -188,10 +188,17 @@ impl<'a> ScreenWriteGuard<'a> {
         let mut indices = self.data.buffer.indices();
 
         while let Some((pos, cell)) = self.data.buffer.next_cell(&mut indices) {
-            self.move_cursor(pos)?;
+            let res = self.move_cursor(pos)
+                .and_then(|_| self.apply_attrs(cell.attrs()))
+                .and_then(|_| self.writer.write_str(cell.text()));
+
+            if let Err(e) = res {
+                // The cell was not drawn; draw it on the next refresh
+                self.data.buffer.invalidate_cell(pos);
+                self.data.real_cursor = (!0, !0).into();
+                return Err(e);
+            }
 
-            self.apply_attrs(cell.attrs())?;
-            self.writer.write_str(cell.text())?;
             self.data.real_cursor.column += cell.width();
         }
 
-- 
2.43.0


From f7ca06eaa90b5b84678b43a72f7e3bae92756d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 12/37] fix: Continue after the written bytes when a write is
 partial

Each further write began at the start of the buffer again.
---
 src/unix/terminal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 4efd294..b41176f 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1026,7 +1026,7 @@ impl<'a> TerminalWriteGuard<'a> {
                 break Ok(());
             }
 
-            match write(self.term.out_fd, buf) {
+            match write(self.term.out_fd, &buf[offset..]) {
                 Ok(0) => break Err(io::Error::from(io::ErrorKind::WriteZero)),
                 Ok(n) => offset += n,
                 Err(Errno::EINTR) => continue,
-- 
2.43.0


From 3926c0ed146637d955050ccd40cc32873c4519ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 13/37] fix: Do not expand large terminfo parameters as
 negative numbers

---
 src/unix/terminal.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index b41176f..c8ca874 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1414,16 +1414,7 @@ fn not_supported(op: &str) -> io::Error {
         format!("operation not supported: {}", op))
 }
 
-#[cfg(target_pointer_width = "64")]
 fn to_u32(u: usize) -> u32 {
-    if u > u32::max_value() as usize {
-        u32::max_value()
-    } else {
-        u as u32
-    }
-}
-
-#[cfg(any(target_pointer_width = "16", target_pointer_width = "32"))]
-fn to_u32(u: usize) -> u32 {
-    u as u32
+    // terminfo parameters are signed; greater values would become negative
+    u32::try_from(u).unwrap_or(u32::max_value()).min(i32::max_value() as u32)
 }
-- 
2.43.0


From ce8d709869fe8f0028d2a06d4f9bdff4df9c946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 14/37] fix: Do not scroll when moving the cursor up from the
 first line

---
 src/unix/terminal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index c8ca874..6b78a1d 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -907,9 +907,11 @@ impl<'a> TerminalWriteGuard<'a> {
     }
 
     pub fn move_up(&mut self, n: usize) -> io::Result<()> {
-        if n == 1 {
+        if n == 1 && self.term.info.get::<cap::ParmUpCursor>().is_none() {
             expand_req!(self, cap::CursorUp, "cursor_up")?;
         } else if n != 0 {
+            // Prefer ParmUpCursor because CursorUp may be a reverse line feed,
+            // which scrolls when the cursor is on the first line.
             expand_req!(self, cap::ParmUpCursor, "parm_cursor_up",
                 |ex| ex.parameters(to_u32(n)))?;
         }
-- 
2.43.0


From f0eeebdadb2fea34f150c7d2622cfbb0a61a4b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:57 +0000
Subject: [PATCH 15/37] fix: Keep waiting for an event after an unreported
 signal or partial input

---
 src/unix/terminal.rs | 57 +++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 6b78a1d..a75cd9c 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -7,7 +7,7 @@ use std::path::Path;
 use std::str::from_utf8;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::{LockResult, Mutex, MutexGuard, TryLockResult};
-use std::time::Duration;
+use std::time::{Duration, Instant};
 
 use libc::{
     ioctl,
@@ -490,20 +490,23 @@ impl<'a> TerminalReadGuard<'a> {
     }
 
     pub fn read_event(&mut self, timeout: Option<Duration>) -> io::Result<Option<Event>> {
-        if let Some(ev) = self.try_read()? {
-            return Ok(Some(ev));
-        }
+        let deadline = Deadline::new(timeout);
 
-        match self.read_into_buffer(timeout)? {
-            Some(Event::Raw(_)) => self.try_read(),
-            Some(Event::Signal(sig)) => {
-                if let Some(ev) = self.handle_signal(sig)? {
-                    Ok(Some(ev))
-                } else {
-                    Ok(None)
+        loop {
+            if let Some(ev) = self.try_read()? {
+                return Ok(Some(ev));
+            }
+
+            match self.read_into_buffer(deadline.remaining())? {
+                // Input may not contain a whole character yet
+                Some(Event::Raw(n)) if n != 0 => (),
+                Some(Event::Signal(sig)) => {
+                    if let Some(ev) = self.handle_signal(sig)? {
+                        return Ok(Some(ev));
+                    }
                 }
+                _ => return Ok(None)
             }
-            r => Ok(r)
         }
     }
 
@@ -517,15 +520,17 @@ impl<'a> TerminalReadGuard<'a> {
             return Ok(Some(Event::Raw(n)));
         }
 
-        match self.read_input(buf, timeout)? {
-            Some(Event::Signal(sig)) => {
-                if let Some(event) = self.handle_signal(sig)? {
-                    Ok(Some(event))
-                } else {
-                    Ok(None)
+        let deadline = Deadline::new(timeout);
+
+        loop {
+            match self.read_input(buf, deadline.remaining())? {
+                Some(Event::Signal(sig)) => {
+                    if let Some(event) = self.handle_signal(sig)? {
+                        return Ok(Some(event));
+                    }
                 }
+                r => return Ok(r)
             }
-            r => Ok(r)
         }
     }
 
@@ -1128,6 +1133,20 @@ pub struct PrepareState {
     prev_resume: Option<Resume>,
 }
 
+/// The end of a wait that may be interrupted
+struct Deadline(Option<Instant>);
+
+impl Deadline {
+    fn new(timeout: Option<Duration>) -> Deadline {
+        // A time that is not representable is never reached
+        Deadline(timeout.and_then(|t| Instant::now().checked_add(t)))
+    }
+
+    fn remaining(&self) -> Option<Duration> {
+        self.0.map(|t| t.saturating_duration_since(Instant::now()))
+    }
+}
+
 #[derive(Copy, Clone, Debug)]
 struct Resume {
     config: PrepareConfig,
-- 
2.43.0


From c0bc10189d4685de87be2ea2f22acc0fabe24e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:28 +0000
Subject: [PATCH 16/37] fix: Do not panic on mouse reports with a zero
 coordinate

---
 src/unix/terminal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index a75cd9c..33a40c5 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1319,8 +1319,8 @@ fn parse_mouse_data(mut buf: &[u8]) -> Option<(MouseEvent, usize)> {
 
     let position = Cursor{
         // Parsed line and column begin at 1; we begin at 0
-        line: (line - 1) as usize,
-        column: (column - 1) as usize,
+        line: line.checked_sub(1)? as usize,
+        column: column.checked_sub(1)? as usize,
     };
 
     Some((MouseEvent{
-- 
2.43.0


From eafbf2914b30d61fbbf6e5eb09d593858d8f48f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:28 +0000
Subject: [PATCH 17/37] fix: Accept every timeout and do not cut it to whole
 milliseconds

---
 src/unix/terminal.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 33a40c5..1090248 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1211,16 +1211,16 @@ fn ti_to_io(e: terminfo::Error) -> io::Error {
 }
 
 fn to_timeval(d: Duration) -> TimeVal {
-    const MAX_SECS: i64 = i64::max_value() / 1_000;
+    const MAX_SECS: u64 = i32::max_value() as u64;
 
-    let secs = match d.as_secs() {
-        n if n > MAX_SECS as u64 => MAX_SECS,
-        n => n as i64,
-    };
+    if d.as_secs() >= MAX_SECS {
+        return TimeVal::seconds(MAX_SECS as _);
+    }
 
-    let millis = d.subsec_millis() as i64;
+    // Round up so that a timeout never ends early
+    let micros = (d.subsec_nanos() as i64 + 999) / 1_000;
 
-    TimeVal::milliseconds(secs * 1_000 + millis)
+    TimeVal::microseconds(d.as_secs() as i64 * 1_000_000 + micros)
 }
 
 fn peek_event(buf: &[u8], sequences: &SeqMap)
-- 
2.43.0


From 9406bb9e68a8dd7e0e8d2188de3d6c17ef1e88f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:27 +0000
Subject: [PATCH 18/37] fix: Do not split sequences at the end of an internal
 read

---
 src/unix/terminal.rs | 52 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 1090248..84c2a64 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -493,19 +493,32 @@ impl<'a> TerminalReadGuard<'a> {
         let deadline = Deadline::new(timeout);
 
         loop {
-            if let Some(ev) = self.try_read()? {
-                return Ok(Some(ev));
+            // Buffered input may end within a sequence whose remainder
+            // has already arrived, but has not been read yet.
+            let incomplete = is_incomplete(&self.reader.in_buffer, &self.term.sequences);
+
+            if !incomplete {
+                if let Some(ev) = self.try_read()? {
+                    return Ok(Some(ev));
+                }
             }
 
-            match self.read_into_buffer(deadline.remaining())? {
+            let timeout = if incomplete {
+                Some(Duration::from_secs(0))
+            } else {
+                deadline.remaining()
+            };
+
+            match self.read_into_buffer(timeout) {
                 // Input may not contain a whole character yet
-                Some(Event::Raw(n)) if n != 0 => (),
-                Some(Event::Signal(sig)) => {
+                Ok(Some(Event::Raw(n))) if n != 0 => (),
+                Ok(Some(Event::Signal(sig))) => {
                     if let Some(ev) = self.handle_signal(sig)? {
                         return Ok(Some(ev));
                     }
                 }
-                _ => return Ok(None)
+                _ if incomplete => return self.try_read(),
+                r => return r.map(|_| None)
             }
         }
     }
@@ -1273,6 +1286,33 @@ fn peek_event(buf: &[u8], sequences: &SeqMap)
     Ok(Some((res, n)))
 }
 
+/// Returns whether further input may change the first event of `buf`.
+fn is_incomplete(buf: &[u8], sequences: &SeqMap) -> bool {
+    let s = match from_utf8(buf) {
+        Ok(s) => s,
+        // Sequences are ASCII; this is not the beginning of one.
+        Err(_) => return false
+    };
+
+    for pfx in prefixes(s) {
+        match sequences.find(pfx) {
+            FindResult::NotFound => return false,
+            FindResult::Found(SeqData::XTermMouse) |
+            FindResult::Undecided(SeqData::XTermMouse) =>
+                return is_mouse_data_prefix(&buf[pfx.len()..]),
+            FindResult::Found(_) => return false,
+            FindResult::Incomplete | FindResult::Undecided(_) => ()
+        }
+    }
+
+    !s.is_empty()
+}
+
+fn is_mouse_data_prefix(buf: &[u8]) -> bool {
+    buf.iter().all(|b| b.is_ascii_digit() || *b == b';') &&
+        buf.iter().filter(|&&b| b == b';').count() <= 2
+}
+
 fn parse_mouse_data(mut buf: &[u8]) -> Option<(MouseEvent, usize)> {
     let orig_len = buf.len();
 
-- 
2.43.0


From 96e65ace0e7feb11291ab4b9cd5b12f7bca92b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 19/37] fix: Find a key sequence that begins a malformed mouse
 report

---
 src/unix/terminal.rs | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 84c2a64..25977a2 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1248,34 +1248,32 @@ fn peek_event(buf: &[u8], sequences: &SeqMap)
         let mut last_match = None;
 
         for pfx in prefixes(s) {
-            match sequences.find(pfx) {
+            let (value, last) = match sequences.find(pfx) {
                 FindResult::NotFound => break,
-                FindResult::Found(value) => {
-                    last_match = Some((pfx, *value));
-                    break;
-                }
-                FindResult::Incomplete => (),
-                FindResult::Undecided(value) => {
-                    last_match = Some((pfx, *value));
-                }
-            }
-        }
+                FindResult::Found(value) => (value, true),
+                FindResult::Incomplete => continue,
+                FindResult::Undecided(value) => (value, false)
+            };
 
-        let res = last_match.and_then(|(seq, value)| {
-            match value {
-                SeqData::Key(key) => Some((Event::Key(key), seq.len())),
+            match *value {
+                SeqData::Key(key) => {
+                    last_match = Some((Event::Key(key), pfx.len()));
+                }
                 SeqData::XTermMouse => {
-                    if let Some((data, len)) = parse_mouse_data(&buf[seq.len()..]) {
-                        Some((Event::Mouse(data), seq.len() + len))
-                    } else {
-                        // Input sequence was incomplete
-                        None
+                    // If input is not a mouse report, a key sequence
+                    // that was already found remains.
+                    if let Some((data, len)) = parse_mouse_data(&buf[pfx.len()..]) {
+                        last_match = Some((Event::Mouse(data), pfx.len() + len));
                     }
                 }
             }
-        });
 
-        if let Some(res) = res {
+            if last {
+                break;
+            }
+        }
+
+        if let Some(res) = last_match {
             res
         } else {
             let ch = s.chars().next().unwrap();
-- 
2.43.0


From 3ef3374f708fc1e90cfe76a70080e3014923af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 20/37] fix: Do not lose a signal when another one arrives

---
 src/unix/terminal.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 25977a2..bb38c06 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1420,10 +1420,11 @@ fn utf8_prefix(buf: &[u8]) -> io::Result<&str> {
     }
 }
 
-static LAST_SIGNAL: AtomicUsize = AtomicUsize::new(0);
+/// Signals that have arrived and were not taken yet; a bit for each signal number
+static SIGNALS: AtomicUsize = AtomicUsize::new(0);
 
 extern "C" fn handle_signal(signum: c_int) {
-    LAST_SIGNAL.store(signum as usize, Ordering::Relaxed);
+    SIGNALS.fetch_or(1 << signum, Ordering::Relaxed);
 }
 
 fn conv_signal(sig: c_int) -> Option<Signal> {
@@ -1438,11 +1439,31 @@ fn conv_signal(sig: c_int) -> Option<Signal> {
 }
 
 fn get_signal() -> Option<Signal> {
-    conv_signal(LAST_SIGNAL.load(Ordering::Relaxed) as c_int)
+    let signals = SIGNALS.load(Ordering::Relaxed);
+
+    if signals == 0 {
+        None
+    } else {
+        conv_signal(signals.trailing_zeros() as c_int)
+    }
 }
 
 fn take_signal() -> Option<Signal> {
-    conv_signal(LAST_SIGNAL.swap(0, Ordering::Relaxed) as c_int)
+    loop {
+        let signals = SIGNALS.load(Ordering::Relaxed);
+
+        if signals == 0 {
+            return None;
+        }
+
+        let signum = signals.trailing_zeros();
+        let bit = 1 << signum;
+
+        // Another thread may have taken this signal in the meantime
+        if SIGNALS.fetch_and(!bit, Ordering::Relaxed) & bit != 0 {
+            return conv_signal(signum as c_int);
+        }
+    }
 }
 
 fn ascii_str(s: &[u8]) -> Option<&str> {
-- 
2.43.0


From 6c6d62333e47b8855b09b9e89e3a9980b30c080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 21/37] fix: Do not miss a signal that arrives just before
 waiting

---
 src/unix/terminal.rs | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index bb38c06..2e969cc 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -16,16 +16,16 @@ use libc::{
 };
 
 use nix::errno::Errno;
-use nix::sys::select::{select, FdSet};
+use nix::sys::select::{pselect, FdSet};
 use nix::sys::signal::{
     sigaction,
-    SaFlags, SigAction, SigHandler, Signal as NixSignal, SigSet,
+    SaFlags, SigAction, SigHandler, SigmaskHow, Signal as NixSignal, SigSet,
 };
 use nix::sys::termios::{
     tcgetattr, tcsetattr,
     SetArg, InputFlags, LocalFlags,
 };
-use nix::sys::time::{TimeVal, TimeValLike};
+use nix::sys::time::TimeSpec;
 use nix::unistd::{read, write};
 
 use smallstr::SmallString;
@@ -462,11 +462,13 @@ impl<'a> TerminalReadGuard<'a> {
             return Ok(true);
         }
 
-        let mut timeout = timeout.map(to_timeval);
+        let deadline = Deadline::new(timeout);
 
         let n = loop {
             let in_fd = self.term.in_fd;
 
+            let timeout = deadline.remaining().map(to_timespec);
+
             let mut r_fds = FdSet::new();
             r_fds.insert(in_fd);
 
@@ -474,8 +476,21 @@ impl<'a> TerminalReadGuard<'a> {
             let mut e_fds = FdSet::new();
             e_fds.insert(in_fd);
 
-            match select(in_fd + 1,
-                    Some(&mut r_fds), None, Some(&mut e_fds), timeout.as_mut()) {
+            // Signals are let through only during the wait. Otherwise,
+            // one may arrive just before the wait and not end it.
+            let mask = SigSet::all().thread_swap_mask(SigmaskHow::SIG_BLOCK)
+                .map_err(nix_to_io)?;
+
+            let res = if get_signal().is_some() {
+                Err(Errno::EINTR)
+            } else {
+                pselect(in_fd + 1,
+                    Some(&mut r_fds), None, Some(&mut e_fds), timeout.as_ref(), &mask)
+            };
+
+            mask.thread_set_mask().map_err(nix_to_io)?;
+
+            match res {
                 Ok(n) => break n,
                 Err(Errno::EINTR) =>
                     if get_signal().is_some() {
@@ -1223,17 +1238,10 @@ fn ti_to_io(e: terminfo::Error) -> io::Error {
     }
 }
 
-fn to_timeval(d: Duration) -> TimeVal {
+fn to_timespec(d: Duration) -> TimeSpec {
     const MAX_SECS: u64 = i32::max_value() as u64;
 
-    if d.as_secs() >= MAX_SECS {
-        return TimeVal::seconds(MAX_SECS as _);
-    }
-
-    // Round up so that a timeout never ends early
-    let micros = (d.subsec_nanos() as i64 + 999) / 1_000;
-
-    TimeVal::microseconds(d.as_secs() as i64 * 1_000_000 + micros)
+    TimeSpec::from_duration(d.min(Duration::from_secs(MAX_SECS)))
 }
 
 fn peek_event(buf: &[u8], sequences: &SeqMap)
-- 
2.43.0


From 27954e095c8c42315708568a3d3050095d7dedea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 22/37] fix: Restore the set of reported signals

---
 src/unix/terminal.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 2e969cc..a23a1dc 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -336,6 +336,7 @@ impl<'a> TerminalReadGuard<'a> {
             restore_keypad: false,
             restore_mouse: false,
             prev_resume: self.reader.resume,
+            prev_report_signals: self.reader.report_signals,
         };
 
         tio.input_flags.remove(
@@ -419,6 +420,7 @@ impl<'a> TerminalReadGuard<'a> {
     pub fn restore_with_lock(&mut self, writer: &mut TerminalWriteGuard,
             state: PrepareState) -> io::Result<()> {
         self.reader.resume = state.prev_resume;
+        self.reader.report_signals = state.prev_report_signals;
 
         if state.restore_mouse {
             writer.disable_mouse()?;
@@ -1159,6 +1161,7 @@ pub struct PrepareState {
     restore_keypad: bool,
     restore_mouse: bool,
     prev_resume: Option<Resume>,
+    prev_report_signals: SignalSet,
 }
 
 /// The end of a wait that may be interrupted
-- 
2.43.0


From 7e48307ea742f6d361c86ae1f41417032ee2ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 23/37] fix: Restore keypad and mouse modes of an outer
 preparation

---
 src/unix/terminal.rs | 90 +++++++++++++++++++++++++++++++-------------
 1 file changed, 63 insertions(+), 27 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index a23a1dc..0cf332b 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -96,6 +96,15 @@ struct Writer {
     fg: Option<Color>,
     bg: Option<Color>,
     cur_style: Style,
+    modes: Modes,
+}
+
+/// Modes that are currently enabled
+#[derive(Copy, Clone, Default)]
+struct Modes {
+    keypad: bool,
+    mouse: bool,
+    mouse_motion: bool,
 }
 
 impl Terminal {
@@ -333,8 +342,7 @@ impl<'a> TerminalReadGuard<'a> {
             old_sigtstp: None,
             old_sigquit: None,
             old_sigwinch: None,
-            restore_keypad: false,
-            restore_mouse: false,
+            prev_modes: writer.writer.modes,
             prev_resume: self.reader.resume,
             prev_report_signals: self.reader.report_signals,
         };
@@ -375,15 +383,11 @@ impl<'a> TerminalReadGuard<'a> {
         tcsetattr(self.term.in_fd, SetArg::TCSANOW, &tio).map_err(nix_to_io)?;
 
         if config.enable_mouse {
-            if writer.enable_mouse(config.always_track_motion)? {
-                state.restore_mouse = true;
-            }
+            writer.enable_mouse(config.always_track_motion)?;
         }
 
         if config.enable_keypad {
-            if writer.enable_keypad()? {
-                state.restore_keypad = true;
-            }
+            writer.enable_keypad()?;
         }
 
         writer.flush()?;
@@ -422,13 +426,7 @@ impl<'a> TerminalReadGuard<'a> {
         self.reader.resume = state.prev_resume;
         self.reader.report_signals = state.prev_report_signals;
 
-        if state.restore_mouse {
-            writer.disable_mouse()?;
-        }
-
-        if state.restore_keypad {
-            writer.disable_keypad()?;
-        }
+        writer.restore_modes(state.prev_modes)?;
 
         writer.flush()?;
 
@@ -657,7 +655,12 @@ impl<'a> TerminalReadGuard<'a> {
 
     fn resume(&mut self) -> io::Result<()> {
         if let Some(resume) = self.reader.resume {
-            let _ = self.prepare(resume.config)?;
+            let mut writer = self.term.lock_writer();
+
+            // An outer preparation may have enabled other modes
+            writer.resume_modes()?;
+
+            let _ = self.prepare_with_lock(&mut writer, resume.config)?;
         }
         Ok(())
     }
@@ -710,33 +713,66 @@ impl<'a> TerminalWriteGuard<'a> {
         if let Some(local) = self.term.info.get::<cap::KeypadLocal>() {
             self.expand(local.expand())?;
         }
+        self.writer.modes.keypad = false;
         Ok(())
     }
 
-    fn enable_keypad(&mut self) -> io::Result<bool> {
+    fn enable_keypad(&mut self) -> io::Result<()> {
         if let Some(xmit) = self.term.info.get::<cap::KeypadXmit>() {
             self.expand(xmit.expand())?;
-            Ok(true)
-        } else {
-            Ok(false)
+            self.writer.modes.keypad = true;
         }
+        Ok(())
     }
 
     fn disable_mouse(&mut self) -> io::Result<()> {
         self.write_bytes(XTERM_DISABLE_MOUSE.as_bytes())?;
-        self.write_bytes(XTERM_DISABLE_MOUSE_MOTION.as_bytes())
+        self.write_bytes(XTERM_DISABLE_MOUSE_MOTION.as_bytes())?;
+        self.writer.modes.mouse = false;
+        self.writer.modes.mouse_motion = false;
+        Ok(())
     }
 
-    fn enable_mouse(&mut self, track_motion: bool) -> io::Result<bool> {
+    fn enable_mouse(&mut self, track_motion: bool) -> io::Result<()> {
         if self.term.is_xterm() {
+            if self.writer.modes.mouse_motion && !track_motion {
+                self.write_bytes(XTERM_DISABLE_MOUSE_MOTION.as_bytes())?;
+                self.writer.modes.mouse_motion = false;
+            }
             self.write_bytes(XTERM_ENABLE_MOUSE.as_bytes())?;
+            self.writer.modes.mouse = true;
             if track_motion {
                 self.write_bytes(XTERM_ENABLE_MOUSE_MOTION.as_bytes())?;
+                self.writer.modes.mouse_motion = true;
             }
-            Ok(true)
-        } else {
-            Ok(false)
         }
+        Ok(())
+    }
+
+    /// Enables modes which the terminal may have lost.
+    fn resume_modes(&mut self) -> io::Result<()> {
+        let modes = self.writer.modes;
+
+        if modes.mouse {
+            self.enable_mouse(modes.mouse_motion)?;
+        }
+        if modes.keypad {
+            self.enable_keypad()?;
+        }
+        Ok(())
+    }
+
+    fn restore_modes(&mut self, prev: Modes) -> io::Result<()> {
+        if self.writer.modes.mouse {
+            self.disable_mouse()?;
+        }
+        if self.writer.modes.keypad && !prev.keypad {
+            self.disable_keypad()?;
+        }
+
+        // Enable again what was already enabled
+        self.writer.modes = prev;
+        self.resume_modes()
     }
 
     fn enter_screen(&mut self) -> io::Result<()> {
@@ -1099,6 +1135,7 @@ impl Writer {
             fg: None,
             bg: None,
             cur_style: Style::empty(),
+            modes: Modes::default(),
         }
     }
 }
@@ -1158,8 +1195,7 @@ pub struct PrepareState {
     old_sigtstp: Option<SigAction>,
     old_sigquit: Option<SigAction>,
     old_sigwinch: Option<SigAction>,
-    restore_keypad: bool,
-    restore_mouse: bool,
+    prev_modes: Modes,
     prev_resume: Option<Resume>,
     prev_report_signals: SignalSet,
 }
-- 
2.43.0


From 4d6e2eeb2f2f34636ad065102738b78cc05fa781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 24/37] fix: Do not wait for the write lock to report a resize
 event

---
 src/unix/terminal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 0cf332b..8248ec2 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -640,7 +640,8 @@ impl<'a> TerminalReadGuard<'a> {
                 self.resume()?;
             }
             Signal::Resize => {
-                let size = self.term.size()?;
+                // Does not take the write lock, which may be held elsewhere
+                let size = get_winsize(self.term.out_fd)?;
                 return Ok(Some(Event::Resize(size)));
             }
             _ => ()
-- 
2.43.0


From fae1ee5dbe2909debfa2f4c837778439765a3677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:44 +0000
Subject: [PATCH 25/37] fix: Do not send padding markers of the terminal
 description

A failed expansion does not leave part of a sequence in the output buffer.
---
 src/unix/terminal.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 8248ec2..189d204 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1113,10 +1113,17 @@ impl<'a> TerminalWriteGuard<'a> {
 
     fn expand<T: AsRef<[u8]>>(&mut self, exp: Expansion<T>) -> io::Result<()> {
         let writer = &mut *self.writer;
+        let mut seq = Vec::new();
+
         exp
             .with(&mut writer.context)
-            .to(&mut writer.out_buffer)
-            .map_err(ti_to_io)
+            .to(&mut seq)
+            .map_err(ti_to_io)?;
+
+        remove_padding(&mut seq);
+        writer.out_buffer.extend(seq);
+
+        Ok(())
     }
 }
 
@@ -1141,6 +1148,33 @@ impl Writer {
     }
 }
 
+/// Removes padding markers, e.g. `$<5*/>`, from an expanded capability.
+fn remove_padding(seq: &mut Vec<u8>) {
+    let mut start = 0;
+
+    while start < seq.len() {
+        match padding_len(&seq[start..]) {
+            Some(len) => { seq.drain(start..start + len); }
+            None => start += 1
+        }
+    }
+}
+
+fn padding_len(seq: &[u8]) -> Option<usize> {
+    if !seq.starts_with(b"$<") {
+        return None;
+    }
+
+    let len = seq.iter().position(|&b| b == b'>')?;
+
+    if len > 2 && seq[2..len].iter().all(
+            |b| b.is_ascii_digit() || b".*/".contains(b)) {
+        Some(len + 1)
+    } else {
+        None
+    }
+}
+
 fn is_xterm(name: &str) -> bool {
     // Includes such terminal names as "xterm-256color"
     name == "xterm" || name.starts_with("xterm-")
-- 
2.43.0


From 1cdec43ce87eea87c45391a43cffae27c62f9a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:44 +0000
Subject: [PATCH 26/37] fix: Remove styles that the terminal has no sequence to
 remove

---
 src/unix/terminal.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 189d204..683c9b7 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -876,9 +876,7 @@ impl<'a> TerminalWriteGuard<'a> {
     pub fn remove_style(&mut self, style: Style) -> io::Result<()> {
         let remove = style & self.writer.cur_style;
 
-        if remove.intersects(Style::BOLD | Style::REVERSE) {
-            // terminfo does not contain entries to remove bold or reverse.
-            // Instead, we must reset all attributes.
+        if self.needs_reset(remove) {
             let new_style = self.writer.cur_style - remove;
             let fg = self.writer.fg;
             let bg = self.writer.bg;
@@ -904,9 +902,7 @@ impl<'a> TerminalWriteGuard<'a> {
         let add = style - self.writer.cur_style;
         let remove = self.writer.cur_style - style;
 
-        if remove.intersects(Style::BOLD | Style::REVERSE) {
-            // terminfo does not contain entries to remove bold or reverse.
-            // Instead, we must reset all attributes.
+        if self.needs_reset(remove) {
             let fg = self.writer.fg;
             let bg = self.writer.bg;
             self.clear_attributes()?;
@@ -921,6 +917,19 @@ impl<'a> TerminalWriteGuard<'a> {
         Ok(())
     }
 
+    /// Returns whether removing `style` requires resetting all attributes.
+    fn needs_reset(&self, style: Style) -> bool {
+        let info = &self.term.info;
+
+        // terminfo does not contain entries to remove bold or reverse.
+        // Some terminals have no entries to remove italic or underline.
+        style.intersects(Style::BOLD | Style::REVERSE) ||
+            (style.contains(Style::ITALIC) &&
+                info.get::<cap::ExitItalicsMode>().is_none()) ||
+            (style.contains(Style::UNDERLINE) &&
+                info.get::<cap::ExitUnderlineMode>().is_none())
+    }
+
     pub fn set_theme(&mut self, theme: Theme) -> io::Result<()> {
         self.set_attrs(theme.fg, theme.bg, theme.style)
     }
-- 
2.43.0


From 99682e03208a31761893f3f1e32abc2d501c3ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:58 +0000
Subject: [PATCH 27/37] fix: Restore the terminal on drop after a panic with a
 guard held

Poisoned locks caused a panic in drop, which aborted the process
during unwinding.
---
 src/priv_util.rs     |  4 ++++
 src/unix/screen.rs   |  9 +++++++--
 src/unix/terminal.rs | 14 +++++++-------
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/priv_util.rs b/src/priv_util.rs
index cd22111..567d868 100644
--- a/src/priv_util.rs
+++ b/src/priv_util.rs
@@ -19,6 +19,10 @@ pub fn is_visible(ch: char) -> bool {
     }
 }
 
+pub fn ignore_poison<T>(res: LockResult<T>) -> T {
+    res.unwrap_or_else(PoisonError::into_inner)
+}
+
 pub fn map_lock_result<F, T, U>(res: LockResult<T>, f: F) -> LockResult<U>
         where F: FnOnce(T) -> U {
     match res {
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 770216c..f7cb8d3 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -4,6 +4,7 @@ use std::time::Duration;
 
 use crate::buffer::ScreenBuffer;
 use crate::priv_util::{
+    ignore_poison,
     map_lock_result, map_try_lock_result,
     map2_lock_result, map2_try_lock_result,
 };
@@ -123,13 +124,17 @@ impl Screen {
 
 impl Drop for Screen {
     fn drop(&mut self) {
+        // A panic while a guard was held must not prevent restoring
+        let mut reader = ignore_poison(self.term.lock_read());
+        let mut writer = ignore_poison(self.term.lock_write());
+
         let res = if let Some(state) = self.state.take() {
-            self.term.restore(state)
+            reader.restore_with_lock(&mut writer, state)
         } else {
             Ok(())
         };
 
-        if let Err(e) = res.and_then(|_| self.term.exit_screen()) {
+        if let Err(e) = res.and_then(|_| writer.exit_screen()) {
             eprintln!("failed to restore terminal: {}", e);
         }
     }
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 683c9b7..5939b37 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -34,7 +34,7 @@ use terminfo::{self, capability as cap, Database};
 use terminfo::capability::Expansion;
 use terminfo::expand::Context;
 
-use crate::priv_util::{map_lock_result, map_try_lock_result};
+use crate::priv_util::{ignore_poison, map_lock_result, map_try_lock_result};
 use crate::sequence::{FindResult, SequenceMap};
 use crate::signal::{Signal, SignalSet};
 use crate::terminal::{
@@ -175,10 +175,6 @@ impl Terminal {
         self.lock_writer().enter_screen()
     }
 
-    pub fn exit_screen(&self) -> io::Result<()> {
-        self.lock_writer().exit_screen()
-    }
-
     pub fn prepare(&self, config: PrepareConfig) -> io::Result<PrepareState> {
         self.lock_reader().prepare(config)
     }
@@ -308,7 +304,11 @@ impl Terminal {
 
 impl Drop for Terminal {
     fn drop(&mut self) {
-        if let Err(e) = self.set_cursor_mode(CursorMode::Normal) {
+        // A panic while a guard was held must not prevent restoring
+        let res = ignore_poison(self.lock_write())
+            .set_cursor_mode(CursorMode::Normal);
+
+        if let Err(e) = res {
             eprintln!("failed to restore terminal: {}", e);
         }
 
@@ -801,7 +801,7 @@ impl<'a> TerminalWriteGuard<'a> {
         Ok(())
     }
 
-    fn exit_screen(&mut self) -> io::Result<()> {
+    pub fn exit_screen(&mut self) -> io::Result<()> {
         if let Some(exit) = self.term.info.get::<cap::ExitCaMode>() {
             self.expand(exit.expand())?;
             self.flush()?;
-- 
2.43.0


From 524e1493bacab378c4580aeb5c8e72ed61cb87e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:28 +0000
Subject: [PATCH 28/37] fix: Deliver carriage return when the terminal ignored
 it before prepare

---
 src/unix/terminal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 5939b37..f4a2083 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -349,7 +349,7 @@ impl<'a> TerminalReadGuard<'a> {
 
         tio.input_flags.remove(
             // Disable carriage return/line feed conversion
-            InputFlags::INLCR | InputFlags::ICRNL
+            InputFlags::INLCR | InputFlags::ICRNL | InputFlags::IGNCR
         );
 
         tio.local_flags.remove(
-- 
2.43.0


From a2ac6ca10a0384ffbc16d539ea6b9410dfd129d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 29/37] fix: attributes left by a failed refresh remained after
 the end of a Screen

---
 src/unix/terminal.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index f4a2083..b280e8f 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -802,6 +802,9 @@ impl<'a> TerminalWriteGuard<'a> {
     }
 
     pub fn exit_screen(&mut self) -> io::Result<()> {
+        // A refresh that failed may have left some
+        self.clear_attributes()?;
+
         if let Some(exit) = self.term.info.get::<cap::ExitCaMode>() {
             self.expand(exit.expand())?;
             self.flush()?;
-- 
2.43.0


From 070c0c2a32c039960d6dc3ffcff0e3f0f1f80727 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 30/37] fix: Clear attributes in Terminal::write_styled when
 writing fails

---
 src/unix/terminal.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index b280e8f..3aca93d 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1081,8 +1081,10 @@ impl<'a> TerminalWriteGuard<'a> {
             -> io::Result<()> {
         self.set_attrs(fg, bg, style)?;
 
-        self.write_str(text)?;
-        self.clear_attributes()
+        // Attributes are removed even if writing fails
+        let res = self.write_str(text);
+        self.clear_attributes()?;
+        res
     }
 
     fn write_bytes(&mut self, buf: &[u8]) -> io::Result<()> {
-- 
2.43.0


From f3163f53bab42e33c15f8aeb6f4dd516280fc517 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 31/37] fix: Restore line settings and signal handlers when the
 device refuses output

---
 src/unix/terminal.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 3aca93d..7c1287d 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -426,9 +426,9 @@ impl<'a> TerminalReadGuard<'a> {
         self.reader.resume = state.prev_resume;
         self.reader.report_signals = state.prev_report_signals;
 
-        writer.restore_modes(state.prev_modes)?;
-
-        writer.flush()?;
+        // A device that refuses output must not prevent the rest
+        let res = writer.restore_modes(state.prev_modes)
+            .and_then(|_| writer.flush());
 
         tcsetattr(self.term.in_fd, SetArg::TCSANOW, &state.old_tio.into()).map_err(nix_to_io)?;
 
@@ -450,7 +450,7 @@ impl<'a> TerminalReadGuard<'a> {
             }
         }
 
-        Ok(())
+        res
     }
 
     pub fn wait_event(&mut self, timeout: Option<Duration>) -> io::Result<bool> {
-- 
2.43.0


From b034673ddb2ac98b6120579a71c6ac192b34f1f4 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 32/37] fix: Leave the screen on drop when restoring the
 terminal failed

---
 src/unix/screen.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index f7cb8d3..039e9e1 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -134,7 +134,10 @@ impl Drop for Screen {
             Ok(())
         };
 
-        if let Err(e) = res.and_then(|_| writer.exit_screen()) {
+        // Leave the screen even if restoring failed
+        let exit = writer.exit_screen();
+
+        if let Err(e) = res.and(exit) {
             eprintln!("failed to restore terminal: {}", e);
         }
     }
-- 
2.43.0


From 29ff2c2385fe47a59449a556c2b5ed8b0650439a Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 33/37] fix: Undo a prepare that fails

---
 src/unix/terminal.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 7c1287d..ad9febb 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -330,6 +330,22 @@ impl<'a> TerminalReadGuard<'a> {
 
     pub fn prepare_with_lock(&mut self, writer: &mut TerminalWriteGuard,
             config: PrepareConfig) -> io::Result<PrepareState> {
+        let old_tio = tcgetattr(self.term.in_fd).map_err(nix_to_io)?;
+        let prev_modes = writer.writer.modes;
+
+        let res = self.try_prepare(writer, config);
+
+        if res.is_err() {
+            // Leave the terminal as it was
+            let _ = writer.restore_modes(prev_modes);
+            let _ = tcsetattr(self.term.in_fd, SetArg::TCSANOW, &old_tio);
+        }
+
+        res
+    }
+
+    fn try_prepare(&mut self, writer: &mut TerminalWriteGuard,
+            config: PrepareConfig) -> io::Result<PrepareState> {
         use nix::sys::termios::SpecialCharacterIndices::*;
 
         let old_tio = tcgetattr(self.term.in_fd).map_err(nix_to_io)?;
@@ -661,7 +677,7 @@ impl<'a> TerminalReadGuard<'a> {
             // An outer preparation may have enabled other modes
             writer.resume_modes()?;
 
-            let _ = self.prepare_with_lock(&mut writer, resume.config)?;
+            let _ = self.try_prepare(&mut writer, resume.config)?;
         }
         Ok(())
     }
-- 
2.43.0


From c7a8631aa562c2b0fc1216bf37137e94d807ff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:55 +0000
Subject: [PATCH 34/37] fix: Do not panic when an error of a destructor cannot
 be reported

Standard error is usually the same device; when it refuses output,
eprintln! panicked in drop, and aborted the process while unwinding.
---
 src/unix/screen.rs   |  5 +++--
 src/unix/terminal.rs | 12 +++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 039e9e1..75f1fc9 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -9,6 +9,7 @@ use crate::priv_util::{
     map2_lock_result, map2_try_lock_result,
 };
 use crate::sys::{Terminal, TerminalReadGuard, TerminalWriteGuard, PrepareState};
+use crate::sys::terminal::report_error;
 use crate::terminal::{Color, Cursor, CursorMode, Event, Size, Style, PrepareConfig};
 
 pub struct Screen {
@@ -138,7 +139,7 @@ impl Drop for Screen {
         let exit = writer.exit_screen();
 
         if let Err(e) = res.and(exit) {
-            eprintln!("failed to restore terminal: {}", e);
+            report_error("restore terminal", &e);
         }
     }
 }
@@ -243,7 +244,7 @@ impl<'a> ScreenWriteGuard<'a> {
 impl<'a> Drop for ScreenWriteGuard<'a> {
     fn drop(&mut self) {
         if let Err(e) = self.refresh() {
-            eprintln!("failed to refresh screen: {}", e);
+            report_error("refresh screen", &e);
         }
     }
 }
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index ad9febb..5db6572 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1,6 +1,6 @@
 use std::convert::TryFrom;
 use std::fs::File;
-use std::io;
+use std::io::{self, Write};
 use std::mem::{replace, zeroed};
 use std::os::unix::io::{FromRawFd, IntoRawFd, RawFd};
 use std::path::Path;
@@ -309,7 +309,7 @@ impl Drop for Terminal {
             .set_cursor_mode(CursorMode::Normal);
 
         if let Err(e) = res {
-            eprintln!("failed to restore terminal: {}", e);
+            report_error("restore terminal", &e);
         }
 
         if self.owned_fd {
@@ -1157,10 +1157,16 @@ impl<'a> TerminalWriteGuard<'a> {
     }
 }
 
+/// Reports an error of a destructor. Unlike `eprintln!`, this does not panic
+/// if standard error, which may be the same device, is failing, too.
+pub fn report_error(what: &str, e: &io::Error) {
+    let _ = io::stderr().write_fmt(format_args!("failed to {}: {}\n", what, e));
+}
+
 impl<'a> Drop for TerminalWriteGuard<'a> {
     fn drop(&mut self) {
         if let Err(e) = self.flush() {
-            eprintln!("failed to flush terminal: {}", e);
+            report_error("flush terminal", &e);
         }
     }
 }
-- 
2.43.0


From d2e6b2e701d31687e925fe3522f44cfb8c006d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:46 +0000
Subject: [PATCH 35/37] fix: Wait on descriptors not less than FD_SETSIZE

---
 src/unix/terminal.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 5db6572..cfb2ac6 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -16,6 +16,9 @@ use libc::{
 };
 
 use nix::errno::Errno;
+#[cfg(any(target_os = "android", target_os = "freebsd", target_os = "linux"))]
+use nix::poll::{ppoll, PollFd, PollFlags};
+#[cfg(not(any(target_os = "android", target_os = "freebsd", target_os = "linux")))]
 use nix::sys::select::{pselect, FdSet};
 use nix::sys::signal::{
     sigaction,
@@ -485,13 +488,6 @@ impl<'a> TerminalReadGuard<'a> {
 
             let timeout = deadline.remaining().map(to_timespec);
 
-            let mut r_fds = FdSet::new();
-            r_fds.insert(in_fd);
-
-            // FIXME: FdSet does not implement Copy or Clone
-            let mut e_fds = FdSet::new();
-            e_fds.insert(in_fd);
-
             // Signals are let through only during the wait. Otherwise,
             // one may arrive just before the wait and not end it.
             let mask = SigSet::all().thread_swap_mask(SigmaskHow::SIG_BLOCK)
@@ -500,8 +496,7 @@ impl<'a> TerminalReadGuard<'a> {
             let res = if get_signal().is_some() {
                 Err(Errno::EINTR)
             } else {
-                pselect(in_fd + 1,
-                    Some(&mut r_fds), None, Some(&mut e_fds), timeout.as_ref(), &mask)
+                wait_input(in_fd, timeout, &mask)
             };
 
             mask.thread_set_mask().map_err(nix_to_io)?;
@@ -1354,6 +1349,26 @@ fn to_timespec(d: Duration) -> TimeSpec {
     TimeSpec::from_duration(d.min(Duration::from_secs(MAX_SECS)))
 }
 
+/// Waits for input while `mask` is in effect.
+#[cfg(any(target_os = "android", target_os = "freebsd", target_os = "linux"))]
+fn wait_input(fd: RawFd, timeout: Option<TimeSpec>, mask: &SigSet) -> nix::Result<c_int> {
+    // Unlike `pselect`, this accepts descriptors not less than FD_SETSIZE
+    ppoll(&mut [PollFd::new(fd, PollFlags::POLLIN)], timeout, Some(*mask))
+}
+
+/// Waits for input while `mask` is in effect.
+#[cfg(not(any(target_os = "android", target_os = "freebsd", target_os = "linux")))]
+fn wait_input(fd: RawFd, timeout: Option<TimeSpec>, mask: &SigSet) -> nix::Result<c_int> {
+    let mut r_fds = FdSet::new();
+    r_fds.insert(fd);
+
+    // FIXME: FdSet does not implement Copy or Clone
+    let mut e_fds = FdSet::new();
+    e_fds.insert(fd);
+
+    pselect(fd + 1, Some(&mut r_fds), None, Some(&mut e_fds), timeout.as_ref(), mask)
+}
+
 fn peek_event(buf: &[u8], sequences: &SeqMap)
         -> io::Result<Option<(Event, usize)>> {
     let (res, n) = {
-- 
2.43.0


From d7ccb808e1c7c12baf596504783080de493e9be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 36/37] fix: Return the content of TERM as the name of the
 terminal

---
 src/unix/terminal.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index cfb2ac6..90fbe8b 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1,4 +1,5 @@
 use std::convert::TryFrom;
+use std::env;
 use std::fs::File;
 use std::io::{self, Write};
 use std::mem::{replace, zeroed};
@@ -68,6 +69,7 @@ enum SeqData {
 }
 
 pub struct Terminal {
+    name: String,
     info: Database,
     out_fd: RawFd,
     in_fd: RawFd,
@@ -112,10 +114,12 @@ struct Modes {
 
 impl Terminal {
     fn new(in_fd: RawFd, out_fd: RawFd, owned_fd: bool) -> io::Result<Terminal> {
-        let info = Database::from_env().map_err(ti_to_io)?;
+        let name = env::var("TERM").unwrap_or_default();
+        let info = Database::from_name(&name).map_err(ti_to_io)?;
         let sequences = sequences(&info);
 
         Ok(Terminal{
+            name,
             info,
             in_fd,
             out_fd,
@@ -151,11 +155,12 @@ impl Terminal {
     }
 
     pub fn name(&self) -> &str {
-        self.info.name()
+        // The entry may have been found by a name which is not its first
+        &self.name
     }
 
     fn is_xterm(&self) -> bool {
-        is_xterm(self.name())
+        is_xterm(self.info.name())
     }
 
     pub fn size(&self) -> io::Result<Size> {
-- 
2.43.0


From ce938a71e77b84ca3b623780137293f655480f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:24 +0000
Subject: [PATCH 37/37] fix: Restore signal handlers although line settings
 cannot be set

---
 src/unix/terminal.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 90fbe8b..874bf89 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -454,7 +454,9 @@ impl<'a> TerminalReadGuard<'a> {
         let res = writer.restore_modes(state.prev_modes)
             .and_then(|_| writer.flush());
 
-        tcsetattr(self.term.in_fd, SetArg::TCSANOW, &state.old_tio.into()).map_err(nix_to_io)?;
+        // Nor must a device which is gone
+        let tio_res = tcsetattr(self.term.in_fd, SetArg::TCSANOW, &state.old_tio.into())
+            .map_err(nix_to_io);
 
         unsafe {
             if let Some(ref old) = state.old_sigcont {
@@ -474,7 +476,7 @@ impl<'a> TerminalReadGuard<'a> {
             }
         }
 
-        res
+        res.and(tio_res)
     }
 
     pub fn wait_event(&mut self, timeout: Option<Duration>) -> io::Result<bool> {
-- 
2.43.0

