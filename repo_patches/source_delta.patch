From 7ca40ec40e6626d948676762c16ff68ec87601b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 01/77] fix: do not hold the pending lock while completing
 requests on disconnect

A callback that sends a request, or that waits for a lock held by a thread
that is sending one, deadlocked against `pending`.
---
 rust/rpc/src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index 14d79bd..f490b28 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -42,6 +42,7 @@ pub mod test_utils;
 use std::cmp;
 use std::collections::{BTreeMap, BinaryHeap, VecDeque};
 use std::io::{self, BufRead, Write};
+use std::mem;
 use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 use std::sync::mpsc;
 use std::sync::{Arc, Condvar, Mutex};
@@ -541,13 +542,13 @@ impl<W: Write> RawPeer<W> {
 
     /// send disconnect error to pending requests.
     fn disconnect(&self) {
-        let mut pending = self.0.pending.lock().unwrap();
-        let ids = pending.keys().cloned().collect::<Vec<_>>();
-        for id in &ids {
-            let callback = pending.remove(id).unwrap();
+        self.0.needs_exit.store(true, Ordering::SeqCst);
+        // Callbacks may send further requests, or wait for a thread which is
+        // sending one, so they must not run while `pending` is locked.
+        let pending = mem::replace(&mut *self.0.pending.lock().unwrap(), BTreeMap::new());
+        for (_, callback) in pending {
             callback.invoke(Err(Error::PeerDisconnect));
         }
-        self.0.needs_exit.store(true, Ordering::Relaxed);
     }
 
     /// Returns `true` if an error has occured in the main thread.
-- 
2.43.0


From 22a20607d58392ca40264f19f2603cbbaeeeabf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 02/77] fix: do not run request callbacks on the sender's stack
 when the send fails

The callback ran with `pending` locked and with whatever the sender holds, so
a callback that sends a request or takes one of the sender's locks deadlocked.
---
 rust/rpc/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index f490b28..86be6b1 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -183,6 +183,17 @@ impl ResponseHandler {
             ResponseHandler::Callback(f) => f.call(result),
         }
     }
+
+    /// Like `invoke`, but a callback doesn't run on the current thread. The
+    /// sender of a request may hold locks which its callback also takes.
+    fn invoke_detached(self, result: Result<Value, Error>) {
+        match self {
+            ResponseHandler::Chan(_) => self.invoke(result),
+            ResponseHandler::Callback(_) => {
+                thread::spawn(move || self.invoke(result));
+            }
+        }
+    }
 }
 
 #[derive(Debug, PartialEq, Eq)]
@@ -475,9 +486,9 @@ impl<W: Write> RawPeer<W> {
             "method": method,
             "params": params,
         })) {
-            let mut pending = self.0.pending.lock().unwrap();
-            if let Some(rh) = pending.remove(&id) {
-                rh.invoke(Err(Error::Io(e)));
+            let handler = self.0.pending.lock().unwrap().remove(&id);
+            if let Some(rh) = handler {
+                rh.invoke_detached(Err(Error::Io(e)));
             }
         }
     }
-- 
2.43.0


From 9b81de2de4cdc2cf06c408391d81931fc3ca88c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 03/77] fix: complete requests that are sent after the
 connection has ended

A request sent after the read thread stopped was never completed: a blocking
request hung its thread forever.
---
 rust/rpc/src/lib.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index 86be6b1..0a2a747 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -286,8 +286,9 @@ impl<W: Write + Send> RpcLoop<W> {
                         Err(err) => {
                             if self.peer.0.is_blocked.load(Ordering::Acquire) {
                                 error!("failed to parse response json: {}", err);
-                                self.peer.disconnect();
                             }
+                            // no response can arrive any more
+                            self.peer.disconnect();
                             self.peer.put_rx(Err(err));
                             break;
                         }
@@ -481,15 +482,19 @@ impl<W: Write> RawPeer<W> {
             let mut pending = self.0.pending.lock().unwrap();
             pending.insert(id, rh);
         }
-        if let Err(e) = self.send(&json!({
+        let err = match self.send(&json!({
             "id": id,
             "method": method,
             "params": params,
         })) {
-            let handler = self.0.pending.lock().unwrap().remove(&id);
-            if let Some(rh) = handler {
-                rh.invoke_detached(Err(Error::Io(e)));
-            }
+            Err(e) => Error::Io(e),
+            // `disconnect` may have run before the request was added to `pending`.
+            Ok(()) if self.needs_exit() => Error::PeerDisconnect,
+            Ok(()) => return,
+        };
+        let handler = self.0.pending.lock().unwrap().remove(&id);
+        if let Some(rh) = handler {
+            rh.invoke_detached(Err(err));
         }
     }
 
-- 
2.43.0


From 4296e75c1014a9bcf9b55d0064f65bc8bdf1e547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 04/77] fix: ignore responses whose id is not an unsigned
 integer

The read thread panicked on them, and the main loop then waited forever.
---
 rust/rpc/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index 0a2a747..4b9f2d0 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -294,7 +294,13 @@ impl<W: Write + Send> RpcLoop<W> {
                         }
                     };
                     if json.is_response() {
-                        let id = json.get_id().unwrap();
+                        let id = match json.get_id() {
+                            Some(id) => id,
+                            None => {
+                                error!("ignoring response with invalid id: {:?}", json.0);
+                                continue;
+                            }
+                        };
                         let _resp =
                             trace_block_payload("read loop response", &["rpc"], format!("{}", id));
                         match json.into_response() {
-- 
2.43.0


From 7d5302f4f06d3e4e8ac3c4db6e44861beb0e4aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:17 +0000
Subject: [PATCH 05/77] fix: show a caret at the end of the document only on
 the last line

---
 rust/core-lib/src/view.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 24283d2..55bdc38 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -622,7 +622,7 @@ impl View {
         line: VisualLine,
         text: Option<&Rope>,
         style_spans: Option<&Spans<Style>>,
-        last_pos: usize,
+        is_last_line: bool,
     ) -> Value {
         let start_pos = line.interval.start;
         let pos = line.interval.end;
@@ -635,7 +635,7 @@ impl View {
             if (c > start_pos && c < pos)
                 || (!region.is_upstream() && c == start_pos)
                 || (region.is_upstream() && c == pos)
-                || (c == pos && c == last_pos)
+                || (c == pos && is_last_line)
             {
                 cursors.push(c - start_pos);
             }
@@ -789,6 +789,7 @@ impl View {
             }
         }
 
+        let last_line = self.line_of_offset(text, text.len());
         let mut b = line_cache_shadow::Builder::new();
         let mut ops = Vec::new();
         let mut line_num = 0; // tracks old line cache
@@ -834,14 +835,15 @@ impl View {
                                 .lines
                                 .iter_lines(text, start_line)
                                 .take(seg.n)
-                                .map(|l| {
+                                .enumerate()
+                                .map(|(i, l)| {
                                     self.encode_line(
                                         client,
                                         styles,
                                         l,
                                         /* text = */ None,
                                         /* style_spans = */ None,
-                                        text.len(),
+                                        start_line + i == last_line,
                                     )
                                 })
                                 .collect::<Vec<_>>();
@@ -862,14 +864,15 @@ impl View {
                                 .lines
                                 .iter_lines(text, start_line)
                                 .take(seg.n)
-                                .map(|l| {
+                                .enumerate()
+                                .map(|(i, l)| {
                                     self.encode_line(
                                         client,
                                         styles,
                                         l,
                                         Some(text),
                                         Some(style_spans),
-                                        text.len(),
+                                        start_line + i == last_line,
                                     )
                                 })
                                 .collect::<Vec<_>>();
-- 
2.43.0


From 8191fa5d48fe523b03fb153d9320ada1edeb4508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 06/77] fix: transpose whole characters, and never overlapping
 ones

---
 rust/core-lib/src/edit_ops.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 075695a..b5c685c 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -289,7 +289,7 @@ pub fn transpose(base: &Rope, regions: &[SelRegion]) -> RopeDelta {
     let mut optional_previous_selection: Option<(Interval, Rope)> =
         last_selection_region(regions).map(|&region| sel_region_to_interval_and_rope(base, region));
 
-    for &region in regions {
+    for (i, &region) in regions.iter().enumerate() {
         if region.is_caret() {
             let mut middle = region.end;
             let mut start = base.prev_grapheme_offset(middle).unwrap_or(0);
@@ -302,9 +302,18 @@ pub fn transpose(base: &Rope, regions: &[SelRegion]) -> RopeDelta {
                     LogicalLines.offset_of_line(base, LogicalLines.line_of_offset(base, end));
                 // include end != base.len() because if the editor is entirely empty, we dont' want to pull from empty space
                 if (end == middle || end == end_line_offset) && end != base.len() {
+                    end = middle;
                     middle = start;
                     start = base.prev_grapheme_offset(middle).unwrap_or(0);
-                    end = middle.wrapping_add(1);
+                }
+
+                // leave the text alone if the characters to swap belong to another region
+                let overlaps_next = match regions.get(i + 1) {
+                    Some(next) => !next.is_caret() && end > next.min(),
+                    None => false,
+                };
+                if start < last || overlaps_next {
+                    continue;
                 }
 
                 let interval = Interval::new(start, end);
@@ -317,6 +326,7 @@ pub fn transpose(base: &Rope, regions: &[SelRegion]) -> RopeDelta {
         } else if let Some(previous_selection) = optional_previous_selection {
             let current_interval = sel_region_to_interval_and_rope(base, region);
             builder.replace(current_interval.0, previous_selection.1);
+            last = region.max();
             optional_previous_selection = Some(current_interval);
         }
     }
-- 
2.43.0


From 0d4c0957ea62c5268239b5a88c40b886820dcf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 07/77] fix: duplicate the last line

---
 rust/core-lib/src/edit_ops.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index b5c685c..0fb72a2 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -88,9 +88,9 @@ pub fn duplicate_line(base: &Rope, regions: &[SelRegion], config: &BufferItems)
             }
         };
 
-        if let Some(line_end) = cursor.next::<LinesMetric>() {
-            to_duplicate.insert((line_start, line_end));
-        }
+        // the last line is not followed by a line break
+        let line_end = cursor.next::<LinesMetric>().unwrap_or_else(|| base.len());
+        to_duplicate.insert((line_start, line_end));
     }
 
     for (start, end) in to_duplicate {
@@ -99,7 +99,7 @@ pub fn duplicate_line(base: &Rope, regions: &[SelRegion], config: &BufferItems)
         builder.replace(iv, base.slice(start..end));
 
         // last line does not have new line character so it needs to be manually added
-        if end == base.len() {
+        if end == start || base.byte_at(end - 1) != b'\n' {
             builder.replace(iv, Rope::from(&config.line_ending))
         }
     }
-- 
2.43.0


From 5de891090db76f15e99272567774fc38ff57ef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 08/77] fix: insert_tab with several regions on one line

---
 rust/core-lib/src/edit_ops.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 0fb72a2..9839654 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -204,29 +204,35 @@ pub fn insert_newline(base: &Rope, regions: &[SelRegion], config: &BufferItems)
 }
 
 pub fn insert_tab(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> RopeDelta {
-    let mut builder = DeltaBuilder::new(base.len());
     let const_tab_text = get_tab_text(config, None);
+    // several regions can share a line: collect what is to be done, then do it in order
+    let mut lines = BTreeSet::new();
+    let mut replacements = Vec::new();
 
     for region in regions {
         let line_range = LogicalLines.get_line_range(base, region);
 
         if line_range.len() > 1 {
-            for line in line_range {
-                let offset = LogicalLines.line_col_to_offset(base, line, 0);
-                let iv = Interval::new(offset, offset);
-                builder.replace(iv, Rope::from(const_tab_text));
-            }
+            lines.extend(line_range);
         } else {
             let (_, col) = LogicalLines.offset_to_line_col(base, region.start);
             let mut tab_size = config.tab_size;
             tab_size = tab_size - (col % tab_size);
             let tab_text = get_tab_text(config, Some(tab_size));
 
-            let iv = Interval::new(region.min(), region.max());
-            builder.replace(iv, Rope::from(tab_text));
+            replacements.push((region.min(), region.max(), tab_text));
         }
     }
+    for line in lines {
+        let offset = LogicalLines.line_col_to_offset(base, line, 0);
+        replacements.push((offset, offset, const_tab_text));
+    }
+    replacements.sort();
 
+    let mut builder = DeltaBuilder::new(base.len());
+    for (start, end, tab_text) in replacements {
+        builder.replace(Interval::new(start, end), Rope::from(tab_text));
+    }
     builder.build()
 }
 
-- 
2.43.0


From 499af8f186cd8bd332e60b1e8681beb20e6d35c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 09/77] fix: delete_backward with carets that share a tab stop

---
 rust/core-lib/src/edit_ops.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 9839654..da85d8f 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -111,16 +111,14 @@ pub fn duplicate_line(base: &Rope, regions: &[SelRegion], config: &BufferItems)
 pub fn delete_backward(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> RopeDelta {
     // TODO: this function is workable but probably overall code complexity
     // could be improved by implementing a "backspace" movement instead.
-    let mut builder = DeltaBuilder::new(base.len());
+    // The deletions of neighbouring carets can overlap (tab stops), so they are merged.
+    let mut deletions = Selection::new();
     for region in regions {
         let start = offset_for_delete_backwards(&region, base, &config);
-        let iv = Interval::new(start, region.max());
-        if !iv.is_empty() {
-            builder.delete(iv);
-        }
+        deletions.add_region(SelRegion::new(start, region.max()));
     }
 
-    builder.build()
+    delete_sel_regions(base, &deletions)
 }
 
 /// Common logic for a number of delete methods. For each region in the
-- 
2.43.0


From 8ccf074f540d918483c82526d8f4e35f893cd192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 10/77] fix: change a number once when several carets are in it

---
 rust/core-lib/src/edit_ops.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index da85d8f..5a8a33d 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -372,6 +372,7 @@ pub fn change_number<F: Fn(i128) -> Option<i128>>(
     transform_function: F,
 ) -> RopeDelta {
     let mut builder = DeltaBuilder::new(base.len());
+    let mut last_end = None;
     for region in regions {
         let mut cursor = WordCursor::new(base, region.end);
         let (mut start, end) = cursor.select_word();
@@ -381,10 +382,16 @@ pub fn change_number<F: Fn(i128) -> Option<i128>>(
             start -= 1;
         }
 
+        // several carets can be in the same number
+        if last_end.map_or(false, |last_end| start < last_end) {
+            continue;
+        }
+
         let word = base.slice_to_cow(start..end);
         if let Some(number) = word.parse::<i128>().ok().and_then(&transform_function) {
             let interval = Interval::new(start, end);
             builder.replace(interval, Rope::from(number.to_string()));
+            last_end = Some(end);
         }
     }
 
-- 
2.43.0


From f950327dfd02554d548ca82393ba3c5603ec52b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 11/77] fix: capitalize words that start with a multi-byte
 character or are selected twice

---
 rust/core-lib/src/edit_ops.rs |  8 ++++++--
 rust/core-lib/src/editor.rs   | 10 +++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 5a8a33d..04d93a7 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -402,6 +402,7 @@ pub fn change_number<F: Fn(i128) -> Option<i128>>(
 pub fn capitalize_text(base: &Rope, regions: &[SelRegion]) -> (RopeDelta, Selection) {
     let mut builder = DeltaBuilder::new(base.len());
     let mut final_selection = Selection::new();
+    let mut last_end = 0;
 
     for &region in regions {
         final_selection.add_region(SelRegion::new(region.max(), region.max()));
@@ -411,12 +412,15 @@ pub fn capitalize_text(base: &Rope, regions: &[SelRegion]) -> (RopeDelta, Select
             // capitalize each word in the current selection
             let (start, end) = word_cursor.select_word();
 
-            if start < end {
+            // several regions can touch the same word
+            if start < end && start >= last_end {
+                last_end = end;
                 let interval = Interval::new(start, end);
                 let word = base.slice_to_cow(start..end);
 
                 // first letter is uppercase, remaining letters are lowercase
-                let (first_char, rest) = word.split_at(1);
+                let first_len = word.chars().next().map_or(0, |c| c.len_utf8());
+                let (first_char, rest) = word.split_at(first_len);
                 let capitalized_text = [first_char.to_uppercase(), rest.to_lowercase()].concat();
                 builder.replace(interval, Rope::from(capitalized_text));
             }
diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 26e4bdb..cf09b57 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -482,15 +482,15 @@ impl Editor {
 
     fn do_capitalize_text(&mut self, view: &mut View) {
         let (delta, final_selection) = edit_ops::capitalize_text(&self.text, view.sel_regions());
-        if !delta.is_identity() {
-            self.this_edit_type = EditType::Other;
-            self.add_delta(delta);
-        }
 
         // at the end of the transformation carets are located at the end of the words that were
         // transformed last in the selections
-        view.collapse_selections(&self.text);
         view.set_selection(&self.text, final_selection);
+
+        if !delta.is_identity() {
+            self.this_edit_type = EditType::Other;
+            self.add_delta(delta);
+        }
     }
 
     fn do_modify_indent(&mut self, view: &View, config: &BufferItems, direction: IndentDirection) {
-- 
2.43.0


From c9944c0386374da6cd9d308b66c8c651b515df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:29 +0000
Subject: [PATCH 12/77] fix: allow tabs wider than 32 spaces

---
 rust/core-lib/src/edit_ops.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 04d93a7..6893c9e 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -223,7 +223,7 @@ pub fn insert_tab(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> R
     }
     for line in lines {
         let offset = LogicalLines.line_col_to_offset(base, line, 0);
-        replacements.push((offset, offset, const_tab_text));
+        replacements.push((offset, offset, const_tab_text.clone()));
     }
     replacements.sort();
 
@@ -254,8 +254,8 @@ pub fn modify_indent(
         }
     }
     match direction {
-        IndentDirection::In => indent(base, lines, tab_text),
-        IndentDirection::Out => outdent(base, lines, tab_text),
+        IndentDirection::In => indent(base, lines, &tab_text),
+        IndentDirection::Out => outdent(base, lines, &tab_text),
     }
 }
 
@@ -449,15 +449,11 @@ fn last_selection_region(regions: &[SelRegion]) -> Option<&SelRegion> {
     None
 }
 
-fn get_tab_text(config: &BufferItems, tab_size: Option<usize>) -> &'static str {
+fn get_tab_text(config: &BufferItems, tab_size: Option<usize>) -> String {
     let tab_size = tab_size.unwrap_or(config.tab_size);
-    let tab_text = if config.translate_tabs_to_spaces { n_spaces(tab_size) } else { "\t" };
-
-    tab_text
-}
-
-fn n_spaces(n: usize) -> &'static str {
-    let spaces = "                                ";
-    assert!(n <= spaces.len());
-    &spaces[..n]
+    if config.translate_tabs_to_spaces {
+        " ".repeat(tab_size)
+    } else {
+        "\t".to_string()
+    }
 }
-- 
2.43.0


From b14f59912e65b0bfc08da8b426ceb896993f7164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:29 +0000
Subject: [PATCH 13/77] fix: make the deprecated click command place the caret
 again

---
 rust/core-lib/src/view.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 55bdc38..ad4b1ca 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -274,11 +274,17 @@ impl View {
                         GestureType::SelectExtend { granularity: SelectionGranularity::Point },
                     )
                 } else if click_count == Some(2) {
-                    self.do_gesture(text, line, column, GestureType::WordSelect)
+                    let granularity = SelectionGranularity::Word;
+                    let ty = GestureType::Select { granularity, multi: false };
+                    self.do_gesture(text, line, column, ty)
                 } else if click_count == Some(3) {
-                    self.do_gesture(text, line, column, GestureType::LineSelect)
+                    let granularity = SelectionGranularity::Line;
+                    let ty = GestureType::Select { granularity, multi: false };
+                    self.do_gesture(text, line, column, ty)
                 } else {
-                    self.do_gesture(text, line, column, GestureType::PointSelect)
+                    let granularity = SelectionGranularity::Point;
+                    let ty = GestureType::Select { granularity, multi: false };
+                    self.do_gesture(text, line, column, ty)
                 }
             }
             Drag(MouseAction { line, column, .. }) => {
-- 
2.43.0


From 927031b12d86ceec9e56e0d17c79b01c1c6f7057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:29 +0000
Subject: [PATCH 14/77] fix: selection_into_lines keeps the last selected
 character

---
 rust/core-lib/src/view.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index ad4b1ca..5922780 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -552,9 +552,8 @@ impl View {
                 while cursor.pos() < region.max() {
                     let sel_start = cursor.pos();
                     let end_of_line = match cursor.next::<LinesMetric>() {
-                        Some(end) if end >= region.max() => max(0, region.max() - 1),
-                        Some(end) => max(0, end - 1),
-                        None if cursor.pos() == text.len() => cursor.pos(),
+                        Some(end) => min(end - 1, region.max()),
+                        None if cursor.pos() == text.len() => region.max(),
                         _ => break,
                     };
 
-- 
2.43.0


From 8456fabe1f7e6fffdc42948822570bf823c5bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:29 +0000
Subject: [PATCH 15/77] fix: accept a scroll range that is empty or reversed

---
 rust/core-lib/src/view.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 5922780..d7ef370 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -336,7 +336,7 @@ impl View {
         let first = max(first, 0) as usize;
         let last = max(last, 0) as usize;
         self.first_line = first;
-        self.height = last - first;
+        self.height = last.saturating_sub(first);
     }
 
     pub fn scroll_height(&self) -> usize {
@@ -348,8 +348,8 @@ impl View {
         let line = self.line_of_offset(text, end);
         if line < self.first_line {
             self.first_line = line;
-        } else if self.first_line + self.height <= line {
-            self.first_line = line - (self.height - 1);
+        } else if self.first_line.saturating_add(self.height) <= line {
+            self.first_line = line - self.height.saturating_sub(1);
         }
         // We somewhat arbitrarily choose the last region for setting the old-style
         // selection state, and for scrolling it into view if needed. This choice can
-- 
2.43.0


From 721faef7cd37650e27d6f44dda4b1b4ea78d2fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:29 +0000
Subject: [PATCH 16/77] fix: add_selection_above and below from an empty last
 line

---
 rust/core-lib/src/movement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/movement.rs b/rust/core-lib/src/movement.rs
index 210005b..748d5a7 100644
--- a/rust/core-lib/src/movement.rs
+++ b/rust/core-lib/src/movement.rs
@@ -111,7 +111,7 @@ fn vertical_motion_exact_pos(
     let mut line = if move_up { init_line - 1 } else { init_line.saturating_add(1) };
 
     // If the active columns is longer than the current line, use the current line length.
-    let col = if line_length < col { line_length - 1 } else { col };
+    let col = if line_length < col { line_length.saturating_sub(1) } else { col };
 
     loop {
         line_length = lo.offset_of_line(text, line + 1) - lo.offset_of_line(text, line);
-- 
2.43.0


From 880baab002d5d265f10c1aa29b6afcb975957a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:04 +0000
Subject: [PATCH 17/77] fix: changing the case at a caret is not an undo step

---
 rust/core-lib/src/edit_ops.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 6893c9e..25b6359 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -346,6 +346,10 @@ pub fn transform_text<F: Fn(&str) -> String>(
     let mut builder = DeltaBuilder::new(base.len());
 
     for region in regions {
+        // a caret selects no text, and must not make an undo step that does nothing
+        if region.is_caret() {
+            continue;
+        }
         let selected_text = base.slice_to_cow(region);
         let interval = Interval::new(region.min(), region.max());
         builder.replace(interval, Rope::from(transform_function(&selected_text)));
-- 
2.43.0


From 663f678d831c6a367017998454d4a9bd9e1cacfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:27 +0000
Subject: [PATCH 18/77] fix: delete_to_end_of_paragraph on the last line

---
 rust/core-lib/src/movement.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/core-lib/src/movement.rs b/rust/core-lib/src/movement.rs
index 748d5a7..50d8633 100644
--- a/rust/core-lib/src/movement.rs
+++ b/rust/core-lib/src/movement.rs
@@ -272,6 +272,9 @@ pub fn region_movement(
                         }
                     }
                 }
+            } else {
+                // the last line is not followed by a line break
+                offset = text.len();
             }
             (offset, None)
         }
-- 
2.43.0


From 548bae1c60b13a94e243dd7966fa0a702fabf3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:52 +0000
Subject: [PATCH 19/77] fix: find both of two adjacent regions that touch a
 position

---
 rust/core-lib/src/selection.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/selection.rs b/rust/core-lib/src/selection.rs
index acde566..9a5462d 100644
--- a/rust/core-lib/src/selection.rs
+++ b/rust/core-lib/src/selection.rs
@@ -130,7 +130,8 @@ impl Selection {
     pub fn regions_in_range(&self, start: usize, end: usize) -> &[SelRegion] {
         let first = self.search(start);
         let mut last = self.search(end);
-        if last < self.regions.len() && self.regions[last].min() <= end {
+        // two adjacent regions can touch the end of the range
+        while last < self.regions.len() && self.regions[last].min() <= end {
             last += 1;
         }
         &self.regions[first..last]
@@ -146,7 +147,7 @@ impl Selection {
         if !delete_adjacent && self.regions[first].max() == start {
             first += 1;
         }
-        if last < self.regions.len()
+        while last < self.regions.len()
             && ((delete_adjacent && self.regions[last].min() <= end)
                 || (!delete_adjacent && self.regions[last].min() < end))
         {
-- 
2.43.0


From 4e29e29e2b584a34cfbc13f55cb73cf182f108bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:32 +0000
Subject: [PATCH 20/77] fix: redraw carets when an edit merges regions

---
 rust/core-lib/src/view.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index d7ef370..c07d8c7 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -390,9 +390,14 @@ impl View {
         self.scroll_to_cursor(text);
     }
 
-    /// Sets the selection to a new value, without invalidating.
+    /// Sets the selection to a new value. The lines that have been edited are already
+    /// invalid; others only change if regions were merged, which can move a caret.
     fn set_selection_for_edit(&mut self, text: &Rope, sel: Selection) {
+        let merged = sel.len() != self.selection.len();
         self.selection = sel;
+        if merged {
+            self.invalidate_selection(text);
+        }
         self.scroll_to_cursor(text);
     }
 
-- 
2.43.0


From 5a19a1df4f1d5f119f0b788d079e2aa7f0e31593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:45 +0000
Subject: [PATCH 21/77] fix: find: stop at the last line of the searched range
 and scan for the lower case of the query

---
 rust/rope/src/find.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/rope/src/find.rs b/rust/rope/src/find.rs
index b5862ac..1f72c82 100644
--- a/rust/rope/src/find.rs
+++ b/rust/rope/src/find.rs
@@ -137,7 +137,7 @@ pub fn find_progress(
                         let scanner = |s: &str| memchr(b, s.as_bytes());
                         find_progress_iter(cursor, lines, &pat_lower, scanner, matcher, num_steps)
                     } else {
-                        let c = pat.chars().next().unwrap();
+                        let c = pat_lower.chars().next().unwrap();
                         let scanner = |s: &str| scan_lowercase(c, s);
                         find_progress_iter(cursor, lines, &pat_lower, scanner, matcher, num_steps)
                     }
@@ -293,7 +293,11 @@ pub fn compare_cursor_regex(
     } else {
         match lines.next() {
             Some(line) => text = line,
-            _ => return None,
+            _ => {
+                // no lines left to search
+                cursor.set(cursor.total_len());
+                return None;
+            }
         }
     }
 
-- 
2.43.0


From 091a7ea5b329a1d841b529ef1cba3632e5519fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:45 +0000
Subject: [PATCH 22/77] fix: find: keep matches up to date after edits, empty
 matches and multi-byte words

---
 rust/core-lib/src/find.rs      | 93 +++++++++++++++-------------------
 rust/core-lib/src/selection.rs | 13 +++--
 2 files changed, 52 insertions(+), 54 deletions(-)

diff --git a/rust/core-lib/src/find.rs b/rust/core-lib/src/find.rs
index ae9e712..32fb8ad 100644
--- a/rust/core-lib/src/find.rs
+++ b/rust/core-lib/src/find.rs
@@ -19,11 +19,10 @@ use std::iter;
 
 use crate::annotations::{AnnotationRange, AnnotationSlice, AnnotationType, ToAnnotation};
 use crate::line_offset::LineOffset;
-use crate::selection::{InsertDrift, SelRegion, Selection};
+use crate::selection::{SelRegion, Selection};
 use crate::view::View;
 use crate::word_boundaries::WordCursor;
 use regex::{Regex, RegexBuilder};
-use xi_rope::delta::DeltaRegion;
 use xi_rope::find::{find, is_multiline_regex, CaseMatching};
 use xi_rope::{Cursor, Interval, LinesMetric, Metric, Rope, RopeDelta};
 
@@ -138,53 +137,39 @@ impl Find {
     pub fn update_highlights(&mut self, text: &Rope, delta: &RopeDelta) {
         // update search highlights for changed regions
         if self.search_string.is_some() {
-            // invalidate occurrences around deletion positions
-            for DeltaRegion { old_offset, len, .. } in delta.iter_deletions() {
-                self.occurrences.delete_range(old_offset, old_offset + len, false);
-            }
+            let is_multiline = LinesMetric::next(self.search_string.as_ref().unwrap(), 0).is_some();
+
+            // an empty match at the end of a line is also one at the start of the next line
+            let matches_empty = self.regex.as_ref().map_or(false, |regex| regex.is_match(""));
 
-            self.occurrences = self.occurrences.apply_delta(delta, false, InsertDrift::Default);
-
-            // invalidate occurrences around insert positions
-            for DeltaRegion { new_offset, len, .. } in delta.iter_inserts() {
-                // also invalidate previous occurrence since it might expand after insertion
-                // eg. for regex .* every insertion after match will be part of match
-                self.occurrences.delete_range(
-                    new_offset.saturating_sub(1),
-                    new_offset + len,
-                    false,
-                );
+            if is_multiline || self.is_multiline_regex() || matches_empty {
+                // a match anywhere in the text may depend on the changed region
+                self.update_find(text, 0, text.len(), false);
+                return;
             }
 
-            // update find for the whole delta and everything after
+            // matches don't extend past a line break, so exactly the matches on the lines that
+            // were changed have to be searched again
             let (iv, new_len) = delta.summary();
-
-            // get last valid occurrence that was unaffected by the delta
-            let start = match self.occurrences.regions_in_range(0, iv.start()).last() {
-                Some(reg) => reg.end,
-                None => 0,
-            };
-
-            // invalidate all search results from the point of the last valid search result until ...
-            let is_multiline = LinesMetric::next(self.search_string.as_ref().unwrap(), 0).is_some();
-
-            if is_multiline || self.is_multiline_regex() {
-                // ... the end of the file
-                self.occurrences.delete_range(iv.start(), text.len(), false);
-                self.update_find(text, start, text.len(), false);
-            } else {
-                // ... the end of the line including line break
-                let mut cursor = Cursor::new(&text, iv.end() + new_len);
-
-                let end_of_line = match cursor.next::<LinesMetric>() {
-                    Some(end) => end,
-                    None if cursor.pos() == text.len() => cursor.pos(),
-                    _ => return,
-                };
-
-                self.occurrences.delete_range(iv.start(), end_of_line, false);
-                self.update_find(text, start, end_of_line, false);
+            let start = text.offset_of_line(text.line_of_offset(iv.start()));
+            let new_end = Cursor::new(&text, iv.start() + new_len)
+                .next::<LinesMetric>()
+                .unwrap_or_else(|| text.len());
+            let old_end = new_end - new_len + iv.size();
+
+            let mut occurrences = Selection::new();
+            for region in self.occurrences.iter() {
+                if region.min() < start {
+                    occurrences.add_range_distinct(*region);
+                } else if region.min() >= old_end && new_end < text.len() {
+                    occurrences.add_range_distinct(SelRegion::new(
+                        region.start - old_end + new_end,
+                        region.end - old_end + new_end,
+                    ));
+                }
             }
+            self.occurrences = occurrences;
+            self.update_find(text, start, new_end, false);
         }
     }
 
@@ -252,6 +237,11 @@ impl Find {
             return;
         }
 
+        if start == 0 && end >= text.len() {
+            // everything is searched again, so nothing of earlier searches needs to be kept
+            self.occurrences = Selection::new();
+        }
+
         // extend the search by twice the string length (twice, because case matching may increase
         // the length of an occurrence)
         let slop = if include_slop { self.search_string.as_ref().unwrap().len() * 2 } else { 0 };
@@ -280,7 +270,7 @@ impl Find {
         ) {
             let end = find_cursor.pos();
 
-            if self.whole_words && !self.is_matching_whole_words(text, start, end) {
+            if start != end && self.whole_words && !self.is_matching_whole_words(text, start, end) {
                 raw_lines = text.lines_raw(find_cursor.pos()..to);
                 continue;
             }
@@ -305,10 +295,9 @@ impl Find {
             if start == end {
                 // determine whether end of text is reached and stop search or increase
                 // cursor manually
-                if end + 1 >= text.len() {
-                    break;
-                } else {
-                    find_cursor.set(end + 1);
+                match text.next_codepoint_offset(end) {
+                    Some(next) if next < to => find_cursor.set(next),
+                    _ => break,
                 }
             }
 
@@ -389,8 +378,10 @@ impl Find {
 
     /// Checks if the start and end of a match is matching whole words.
     fn is_matching_whole_words(&self, text: &Rope, start: usize, end: usize) -> bool {
-        let mut word_end_cursor = WordCursor::new(text, end - 1);
-        let mut word_start_cursor = WordCursor::new(text, start + 1);
+        let last = text.prev_codepoint_offset(end).unwrap_or(0);
+        let after_first = text.next_codepoint_offset(start).unwrap_or_else(|| text.len());
+        let mut word_end_cursor = WordCursor::new(text, last);
+        let mut word_start_cursor = WordCursor::new(text, after_first);
 
         if let Some(start_boundary) = word_start_cursor.prev_boundary() {
             if start_boundary != start {
diff --git a/rust/core-lib/src/selection.rs b/rust/core-lib/src/selection.rs
index 9a5462d..5413c8e 100644
--- a/rust/core-lib/src/selection.rs
+++ b/rust/core-lib/src/selection.rs
@@ -166,7 +166,14 @@ impl Selection {
     pub fn add_range_distinct(&mut self, region: SelRegion) -> (usize, usize) {
         let mut ix = self.search(region.min());
 
-        if ix < self.regions.len() && self.regions[ix].max() == region.min() {
+        // skip regions that merely touch the new one; among them can be an empty region
+        while ix > 0 && self.regions[ix - 1].max() == region.min() {
+            ix -= 1;
+        }
+        while ix < self.regions.len()
+            && self.regions[ix].max() == region.min()
+            && !(self.regions[ix].is_caret() && region.is_caret())
+        {
             ix += 1;
         }
 
@@ -181,8 +188,8 @@ impl Selection {
         }
 
         // delete ambiguous regions to the right
-        let mut last = self.search(region.max());
-        if last < self.regions.len() && self.regions[last].min() < region.max() {
+        let mut last = ix;
+        while last < self.regions.len() && self.regions[last].min() < region.max() {
             last += 1;
         }
         remove_n_at(&mut self.regions, ix, last - ix);
-- 
2.43.0


From 5a04ab2b465d55422e07926940ebc9da24681fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:45 +0000
Subject: [PATCH 23/77] fix: restart an unfinished search after an edit, ignore
 only unknown find ids

---
 rust/core-lib/src/view.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index c07d8c7..46c54a7 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -1018,6 +1018,10 @@ impl View {
             find.update_highlights(text, delta);
             self.find_changed = FindStatusChange::All;
         }
+        if self.find_in_progress() {
+            // the ranges that were searched so far refer to the old text
+            self.find_progress = FindProgress::Started;
+        }
 
         // Note: for committing plugin edits, we probably want to know the priority
         // of the delta so we can set the cursor before or after the edit, as needed.
@@ -1072,7 +1076,10 @@ impl View {
                     // update existing query
                     match self.find.iter().position(|f| f.id() == id) {
                         Some(p) => p,
-                        None => return,
+                        None => {
+                            warn!("find query with unknown id {}", id);
+                            continue;
+                        }
                     }
                 }
                 None => {
-- 
2.43.0


From 57198f073bfe3a3aab713ec83f8077f90d0e8a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:45 +0000
Subject: [PATCH 24/77] fix: no empty update ops, nor copy ops for a view that
 was never rendered

---
 rust/core-lib/src/event_context.rs     | 6 +++++-
 rust/core-lib/src/line_cache_shadow.rs | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 55df61a..86b1e1a 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -389,7 +389,11 @@ impl<'a> EventContext<'a> {
         let wrap_width = self.config.wrap_width;
         let word_wrap = self.config.word_wrap;
 
-        self.with_view(|view, text| view.update_wrap_settings(text, wrap_width, word_wrap));
+        self.with_view(|view, text| {
+            view.update_wrap_settings(text, wrap_width, word_wrap);
+            // the front-end has nothing yet; other events can render before finish_init
+            view.set_dirty(text);
+        });
     }
 
     pub(crate) fn finish_init(&mut self, config: &Table) {
diff --git a/rust/core-lib/src/line_cache_shadow.rs b/rust/core-lib/src/line_cache_shadow.rs
index 3bbdf4f..8198ac6 100644
--- a/rust/core-lib/src/line_cache_shadow.rs
+++ b/rust/core-lib/src/line_cache_shadow.rs
@@ -280,6 +280,9 @@ impl RenderPlan {
 
     /// Upgrade a range of lines to the "Render" tactic.
     pub fn request_lines(&mut self, start: usize, end: usize) {
+        if start >= end {
+            return;
+        }
         let mut spans: Vec<(usize, RenderTactic)> = Vec::new();
         let mut i = 0;
         let mut line_num = 0;
-- 
2.43.0


From 03e64e70b85deeef6631d4652724f12171069003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:19 +0000
Subject: [PATCH 25/77] fix: next codepoint boundary from inside a codepoint

---
 rust/rope/src/rope.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/rope/src/rope.rs b/rust/rope/src/rope.rs
index b678bb1..112e6ec 100644
--- a/rust/rope/src/rope.rs
+++ b/rust/rope/src/rope.rs
@@ -200,8 +200,12 @@ impl Metric<RopeInfo> for BaseMetric {
             // with offset == s.len(), but be defensive.
             None
         } else {
-            let b = s.as_bytes()[offset];
-            Some(offset + len_utf8_from_first_byte(b))
+            // `offset` can be inside of a codepoint
+            let mut next = offset + 1;
+            while !s.is_char_boundary(next) {
+                next += 1;
+            }
+            Some(next)
         }
     }
 
-- 
2.43.0


From f67454d6d032109a99bd30cc29f4481e897e5568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:19 +0000
Subject: [PATCH 26/77] fix: redraw everything when an edit also finishes
 pending line wrapping

---
 rust/core-lib/src/linewrap.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/linewrap.rs b/rust/core-lib/src/linewrap.rs
index badf218..fded064 100644
--- a/rust/core-lib/src/linewrap.rs
+++ b/rust/core-lib/src/linewrap.rs
@@ -324,6 +324,8 @@ impl Lines {
             });
         }
 
+        // if there was wrapping left to do then more can change than the lines around the edit
+        let was_converged = self.work.is_empty();
         let new_task = prev_break..next_hard_break;
         self.add_task(new_task);
 
@@ -333,7 +335,7 @@ impl Lines {
             let WrapSummary { start_line, new_soft, .. } = summary;
             // if we haven't converged after this update we can't do minimal invalidation
             // because we don't have complete knowledge of the new breaks state.
-            if self.is_converged() {
+            if was_converged && self.is_converged() {
                 let inval_count = old_hard_count + inval_soft;
                 let new_count = new_hard_count + new_soft;
                 Some(InvalLines { start_line, new_count, inval_count })
-- 
2.43.0


From 8726461209eb65cc4dcecd378e29674e5a87edce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:12 +0000
Subject: [PATCH 27/77] fix: redraw lines whose search highlights changed
 outside of the edited lines

---
 rust/core-lib/src/find.rs |  7 +++++--
 rust/core-lib/src/view.rs | 10 +++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/find.rs b/rust/core-lib/src/find.rs
index 32fb8ad..1b3ec40 100644
--- a/rust/core-lib/src/find.rs
+++ b/rust/core-lib/src/find.rs
@@ -134,7 +134,9 @@ impl Find {
         self.hls_dirty = is_dirty
     }
 
-    pub fn update_highlights(&mut self, text: &Rope, delta: &RopeDelta) {
+    /// Updates the occurrences after an edit. Returns `true` if the occurrences can have changed
+    /// on other lines than those that were edited.
+    pub fn update_highlights(&mut self, text: &Rope, delta: &RopeDelta) -> bool {
         // update search highlights for changed regions
         if self.search_string.is_some() {
             let is_multiline = LinesMetric::next(self.search_string.as_ref().unwrap(), 0).is_some();
@@ -145,7 +147,7 @@ impl Find {
             if is_multiline || self.is_multiline_regex() || matches_empty {
                 // a match anywhere in the text may depend on the changed region
                 self.update_find(text, 0, text.len(), false);
-                return;
+                return true;
             }
 
             // matches don't extend past a line break, so exactly the matches on the lines that
@@ -171,6 +173,7 @@ impl Find {
             self.occurrences = occurrences;
             self.update_find(text, start, new_end, false);
         }
+        false
     }
 
     /// Returns `true` if the search query is a multi-line regex.
diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 46c54a7..df2493f 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -1014,10 +1014,14 @@ impl View {
         self.annotations.invalidate(iv);
 
         // update only find highlights affected by change
+        let mut other_lines_changed = false;
         for find in &mut self.find {
-            find.update_highlights(text, delta);
+            other_lines_changed |= find.update_highlights(text, delta);
             self.find_changed = FindStatusChange::All;
         }
+        if other_lines_changed && self.highlight_find {
+            self.invalidate_styles(text, 0, text.len());
+        }
         if self.find_in_progress() {
             // the ranges that were searched so far refer to the old text
             self.find_progress = FindProgress::Started;
@@ -1166,6 +1170,10 @@ impl View {
                     }
                 }
             }
+            if self.highlight_find {
+                // lines that were rendered already can have got matches
+                self.invalidate_styles(text, 0, text.len());
+            }
         }
     }
 
-- 
2.43.0


From 524c6bc65733794de07c0967f44e1a504eeef34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:48 +0000
Subject: [PATCH 28/77] fix: removing a find query redraws and reports the find
 state

---
 rust/core-lib/src/view.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index df2493f..680655e 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -1072,7 +1072,9 @@ impl View {
         let mut find_changed = queries.len() != self.find.len();
 
         // remove deleted queries
+        let prev_count = self.find.len();
         self.find.retain(|f| queries.iter().any(|q| q.id == Some(f.id())));
+        find_changed |= self.find.len() != prev_count;
 
         for query in &queries {
             let pos = match query.id {
-- 
2.43.0


From 374f15786dc2ee39c7c026074494b56718f0f7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:43 +0000
Subject: [PATCH 29/77] fix: finish wrapping the lines of a large edit

---
 rust/core-lib/src/event_context.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 86b1e1a..7b29446 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -280,6 +280,9 @@ impl<'a> EventContext<'a> {
         };
 
         self.update_views(&self.editor.borrow(), &delta, &last_text, drift);
+        if self.view.borrow().needs_more_wrap() {
+            self.schedule_rewrap();
+        }
         self.update_plugins(&mut self.editor.borrow_mut(), delta, author);
 
         //if we have no plugins we always render immediately.
-- 
2.43.0


From c6ce76984097e62a3f392360c1a71b1a4d86bf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 30/77] fix: keep noticing changes of an open file after it has
 been replaced

Saving replaces the file, and so do many other programs. The watch was of the
old file, so no later change was noticed. Watch the directory instead. Also go
on after an error of the watcher.
---
 rust/core-lib/src/tabs.rs    |  1 +
 rust/core-lib/src/watcher.rs | 31 ++++++++++++++++++++++++-------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 85bed50..d1f78c7 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -709,6 +709,7 @@ impl CoreState {
             EventKind::Create(CreateKind::Any)
             | EventKind::Modify(ModifyKind::Metadata(MetadataKind::Any))
             | EventKind::Modify(ModifyKind::Any) => &event.paths[0],
+            EventKind::Modify(ModifyKind::Name(RenameMode::Both)) => &event.paths[1],
             other => {
                 debug!("Ignoring event in open file {:?}", other);
                 return;
diff --git a/rust/core-lib/src/watcher.rs b/rust/core-lib/src/watcher.rs
index d138a59..8fe24a7 100644
--- a/rust/core-lib/src/watcher.rs
+++ b/rust/core-lib/src/watcher.rs
@@ -101,7 +101,14 @@ impl FileWatcher {
         let inner = watcher(tx_event, Duration::from_millis(100)).expect("watcher should spawn");
 
         thread::spawn(move || {
-            while let Ok(Ok(event)) = rx_event.recv() {
+            while let Ok(event) = rx_event.recv() {
+                let event = match event {
+                    Ok(event) => event,
+                    Err(e) => {
+                        warn!("error watching files: {:?}", e);
+                        continue;
+                    }
+                };
                 let mut state = state_clone.lock().unwrap();
                 let WatcherState { ref mut events, ref mut watchees } = *state;
 
@@ -159,8 +166,8 @@ impl FileWatcher {
         let w = Watchee { path, recursive, token, filter };
         let mode = mode_from_bool(w.recursive);
 
-        if !state.watchees.iter().any(|w2| w.path == w2.path) {
-            if let Err(e) = self.inner.watch(&w.path, mode) {
+        if !state.watchees.iter().any(|w2| w.root() == w2.root()) {
+            if let Err(e) = self.inner.watch(w.root(), mode) {
                 warn!("watching error {:?}", e);
             }
         }
@@ -178,8 +185,8 @@ impl FileWatcher {
 
         if let Some(idx) = idx {
             let removed = state.watchees.remove(idx);
-            if !state.watchees.iter().any(|w| w.path == removed.path) {
-                if let Err(e) = self.inner.unwatch(&removed.path) {
+            if !state.watchees.iter().any(|w| w.root() == removed.root()) {
+                if let Err(e) = self.inner.unwatch(removed.root()) {
                     warn!("unwatching error {:?}", e);
                 }
             }
@@ -200,8 +207,8 @@ impl FileWatcher {
                 let to_add = state
                     .watchees
                     .iter()
-                    .filter(|w| w.path.starts_with(&removed.path))
-                    .map(|w| (w.path.to_owned(), mode_from_bool(w.recursive)))
+                    .filter(|w| w.root().starts_with(&removed.path))
+                    .map(|w| (w.root().to_owned(), mode_from_bool(w.recursive)))
                     .collect::<Vec<_>>();
 
                 for (path, mode) in to_add {
@@ -222,6 +229,16 @@ impl FileWatcher {
 }
 
 impl Watchee {
+    /// The path that is registered with the inner watcher. For a file this is the directory it
+    /// is in: a watch of the file itself is lost when the file is replaced, as it is by a save.
+    fn root(&self) -> &Path {
+        if self.recursive || self.path.is_dir() {
+            &self.path
+        } else {
+            self.path.parent().unwrap_or(&self.path)
+        }
+    }
+
     fn wants_event(&self, event: &Event) -> bool {
         match &event.kind {
             EventKind::Create(CreateKind::Any)
-- 
2.43.0


From 2f849e509aad7eca2749cbc4378940a4a3462f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 31/77] fix: never overwrite a file that changed since it was
 loaded

Check when saving, and not only when the watcher reports a change; take the
modification time from the open file, so that a change right after it was read
or written is not taken for known; a time that cannot be read is no change.
---
 rust/core-lib/src/file.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 2467780..390129e 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -96,9 +96,11 @@ impl FileManager {
     /// This state is stashed.
     pub fn check_file(&mut self, path: &Path, id: BufferId) -> bool {
         if let Some(info) = self.file_info.get_mut(&id) {
-            let mod_t = get_mod_time(path);
-            if mod_t != info.mod_time {
-                info.has_changed = true
+            // nothing is known of a file that cannot be examined or is gone
+            if let Ok(mod_t) = fs::metadata(path).and_then(|meta| meta.modified()) {
+                if Some(mod_t) != info.mod_time {
+                    info.has_changed = true
+                }
             }
             return info.has_changed;
         }
@@ -138,12 +140,12 @@ impl FileManager {
     }
 
     fn save_new(&mut self, path: &Path, text: &Rope, id: BufferId) -> Result<(), FileError> {
-        try_save(path, text, CharacterEncoding::Utf8, self.get_info(id))
+        let mod_time = try_save(path, text, CharacterEncoding::Utf8, self.get_info(id))
             .map_err(|e| FileError::Io(e, path.to_owned()))?;
         let info = FileInfo {
             encoding: CharacterEncoding::Utf8,
             path: path.to_owned(),
-            mod_time: get_mod_time(path),
+            mod_time,
             has_changed: false,
             #[cfg(target_family = "unix")]
             permissions: get_permissions(path),
@@ -162,13 +164,13 @@ impl FileManager {
             self.open_files.remove(&prev_path);
             #[cfg(feature = "notify")]
             self.watcher.unwatch(&prev_path, OPEN_FILE_EVENT_TOKEN);
-        } else if self.file_info[&id].has_changed {
+        } else if self.check_file(path, id) {
             return Err(FileError::HasChanged(path.to_owned()));
         } else {
             let encoding = self.file_info[&id].encoding;
-            try_save(path, text, encoding, self.get_info(id))
+            let mod_time = try_save(path, text, encoding, self.get_info(id))
                 .map_err(|e| FileError::Io(e, path.to_owned()))?;
-            self.file_info.get_mut(&id).unwrap().mod_time = get_mod_time(path);
+            self.file_info.get_mut(&id).unwrap().mod_time = mod_time;
         }
         Ok(())
     }
@@ -182,6 +184,8 @@ where
     // it's arguable that the rope crate should have file loading functionality
     let mut f =
         File::open(path.as_ref()).map_err(|e| FileError::Io(e, path.as_ref().to_owned()))?;
+    // of what is read below, or older, so that no change is taken for known
+    let mod_time = f.metadata().and_then(|meta| meta.modified()).ok();
     let mut bytes = Vec::new();
     f.read_to_end(&mut bytes).map_err(|e| FileError::Io(e, path.as_ref().to_owned()))?;
 
@@ -189,7 +193,7 @@ where
     let rope = try_decode(bytes, encoding, path.as_ref())?;
     let info = FileInfo {
         encoding,
-        mod_time: get_mod_time(&path),
+        mod_time,
         #[cfg(target_family = "unix")]
         permissions: get_permissions(&path),
         path: path.as_ref().to_owned(),
@@ -204,7 +208,7 @@ fn try_save(
     text: &Rope,
     encoding: CharacterEncoding,
     file_info: Option<&FileInfo>,
-) -> io::Result<()> {
+) -> io::Result<Option<SystemTime>> {
     let tmp_extension = path.extension().map_or_else(
         || OsString::from("swp"),
         |ext| {
@@ -225,6 +229,8 @@ fn try_save(
         f.write_all(chunk.as_bytes())?;
     }
 
+    let mod_time = f.metadata()?.modified().ok();
+
     fs::rename(tmp_path, path)?;
 
     #[cfg(target_family = "unix")]
@@ -237,7 +243,7 @@ fn try_save(
         }
     }
 
-    Ok(())
+    Ok(mod_time)
 }
 
 fn try_decode(bytes: Vec<u8>, encoding: CharacterEncoding, path: &Path) -> Result<Rope, FileError> {
@@ -263,12 +269,6 @@ impl CharacterEncoding {
     }
 }
 
-/// Returns the modification timestamp for the file at a given path,
-/// if present.
-fn get_mod_time<P: AsRef<Path>>(path: P) -> Option<SystemTime> {
-    File::open(path).and_then(|f| f.metadata()).and_then(|meta| meta.modified()).ok()
-}
-
 /// Returns the file permissions for the file at a given path on UNIXy systems,
 /// if present.
 #[cfg(target_family = "unix")]
-- 
2.43.0


From 036c6fea753057b14ae1727f8d3a522fe395abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 32/77] fix: save durably and keep the permissions of the file
 that is replaced

---
 rust/core-lib/src/file.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 390129e..bcda648 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -220,6 +220,18 @@ fn try_save(
     let tmp_path = &path.with_extension(tmp_extension);
 
     let mut f = File::create(tmp_path)?;
+
+    // set the permissions before there is anything to see under either name
+    #[cfg(target_family = "unix")]
+    {
+        let mode = get_permissions(path).or_else(|| file_info.and_then(|info| info.permissions));
+        if let Some(mode) = mode {
+            f.set_permissions(Permissions::from_mode(mode)).unwrap_or_else(|e| {
+                warn!("Couldn't set permissions on file {} due to error {}", path.display(), e)
+            });
+        }
+    }
+
     match encoding {
         CharacterEncoding::Utf8WithBom => f.write_all(UTF8_BOM.as_bytes())?,
         CharacterEncoding::Utf8 => (),
@@ -229,17 +241,18 @@ fn try_save(
         f.write_all(chunk.as_bytes())?;
     }
 
+    // the contents must be on the disk before they replace the old ones, and the name after that
+    f.sync_all()?;
     let mod_time = f.metadata()?.modified().ok();
 
     fs::rename(tmp_path, path)?;
 
     #[cfg(target_family = "unix")]
     {
-        if let Some(info) = file_info {
-            fs::set_permissions(path, Permissions::from_mode(info.permissions.unwrap_or(0o644)))
-                .unwrap_or_else(|e| {
-                    warn!("Couldn't set permissions on file {} due to error {}", path.display(), e)
-                });
+        if let Some(dir) = path.parent() {
+            File::open(dir).and_then(|d| d.sync_all()).unwrap_or_else(|e| {
+                warn!("Couldn't sync directory {} due to error {}", dir.display(), e)
+            });
         }
     }
 
@@ -273,7 +286,7 @@ impl CharacterEncoding {
 /// if present.
 #[cfg(target_family = "unix")]
 fn get_permissions<P: AsRef<Path>>(path: P) -> Option<u32> {
-    File::open(path).and_then(|f| f.metadata()).map(|meta| meta.permissions().mode()).ok()
+    fs::metadata(path).map(|meta| meta.permissions().mode()).ok()
 }
 
 impl From<FileError> for RemoteError {
-- 
2.43.0


From 72715681812720402b944275eb7047ca7ba194e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 33/77] fix: reload every view of a file that changed on disk

---
 rust/core-lib/src/file.rs | 23 ++++++++++++---------
 rust/core-lib/src/tabs.rs | 43 +++++++++++++++++++--------------------
 2 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index bcda648..f263487 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -39,7 +39,6 @@ const UTF8_BOM: &str = "\u{feff}";
 
 /// Tracks all state related to open files.
 pub struct FileManager {
-    open_files: HashMap<PathBuf, BufferId>,
     file_info: HashMap<BufferId, FileInfo>,
     /// A monitor of filesystem events, for things like reloading changed files.
     #[cfg(feature = "notify")]
@@ -71,12 +70,12 @@ pub enum CharacterEncoding {
 impl FileManager {
     #[cfg(feature = "notify")]
     pub fn new(watcher: FileWatcher) -> Self {
-        FileManager { open_files: HashMap::new(), file_info: HashMap::new(), watcher }
+        FileManager { file_info: HashMap::new(), watcher }
     }
 
     #[cfg(not(feature = "notify"))]
     pub fn new() -> Self {
-        FileManager { open_files: HashMap::new(), file_info: HashMap::new() }
+        FileManager { file_info: HashMap::new() }
     }
 
     #[cfg(feature = "notify")]
@@ -88,8 +87,16 @@ impl FileManager {
         self.file_info.get(&id)
     }
 
-    pub fn get_editor(&self, path: &Path) -> Option<BufferId> {
-        self.open_files.get(path).cloned()
+    /// Returns all buffers that this file is open in.
+    pub fn get_editors(&self, path: &Path) -> Vec<BufferId> {
+        let mut ids: Vec<BufferId> = self
+            .file_info
+            .iter()
+            .filter(|(_, info)| info.path == path)
+            .map(|(id, _)| *id)
+            .collect();
+        ids.sort();
+        ids
     }
 
     /// Returns `true` if this file is open and has changed on disk.
@@ -108,13 +115,12 @@ impl FileManager {
     }
 
     pub fn open(&mut self, path: &Path, id: BufferId) -> Result<Rope, FileError> {
-        if !path.exists() {
+        if !path.exists() && !self.file_info.contains_key(&id) {
             return Ok(Rope::from(""));
         }
 
         let (rope, info) = try_load_file(path)?;
 
-        self.open_files.insert(path.to_owned(), id);
         if self.file_info.insert(id, info).is_none() {
             #[cfg(feature = "notify")]
             self.watcher.watch(path, false, OPEN_FILE_EVENT_TOKEN);
@@ -124,7 +130,6 @@ impl FileManager {
 
     pub fn close(&mut self, id: BufferId) {
         if let Some(info) = self.file_info.remove(&id) {
-            self.open_files.remove(&info.path);
             #[cfg(feature = "notify")]
             self.watcher.unwatch(&info.path, OPEN_FILE_EVENT_TOKEN);
         }
@@ -150,7 +155,6 @@ impl FileManager {
             #[cfg(target_family = "unix")]
             permissions: get_permissions(path),
         };
-        self.open_files.insert(path.to_owned(), id);
         self.file_info.insert(id, info);
         #[cfg(feature = "notify")]
         self.watcher.watch(path, false, OPEN_FILE_EVENT_TOKEN);
@@ -161,7 +165,6 @@ impl FileManager {
         let prev_path = self.file_info[&id].path.clone();
         if prev_path != path {
             self.save_new(path, text, id)?;
-            self.open_files.remove(&prev_path);
             #[cfg(feature = "notify")]
             self.watcher.unwatch(&prev_path, OPEN_FILE_EVENT_TOKEN);
         } else if self.check_file(path, id) {
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index d1f78c7..007aef7 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -716,28 +716,27 @@ impl CoreState {
             }
         };
 
-        let buffer_id = match self.file_manager.get_editor(path) {
-            Some(id) => id,
-            None => return,
-        };
-
-        let has_changes = self.file_manager.check_file(path, buffer_id);
-        let is_pristine = self.editors.get(&buffer_id).map(|ed| ed.borrow().is_pristine()).unwrap();
-        //TODO: currently we only use the file's modification time when
-        // determining if a file has been changed by another process.
-        // A more robust solution would also hash the file's contents.
-
-        if has_changes && is_pristine {
-            if let Ok(text) = self.file_manager.open(path, buffer_id) {
-                // this is ugly; we don't map buffer_id -> view_id anywhere
-                // but we know we must have a view.
-                let view_id = self
-                    .views
-                    .values()
-                    .find(|v| v.borrow().get_buffer_id() == buffer_id)
-                    .map(|v| v.borrow().get_view_id())
-                    .unwrap();
-                self.make_context(view_id).unwrap().reload(text);
+        for buffer_id in self.file_manager.get_editors(path) {
+            let has_changes = self.file_manager.check_file(path, buffer_id);
+            let is_pristine =
+                self.editors.get(&buffer_id).map_or(false, |ed| ed.borrow().is_pristine());
+            //TODO: currently we only use the file's modification time when
+            // determining if a file has been changed by another process.
+            // A more robust solution would also hash the file's contents.
+
+            if has_changes && is_pristine {
+                if let Ok(text) = self.file_manager.open(path, buffer_id) {
+                    // this is ugly; we don't map buffer_id -> view_id anywhere
+                    // but we know we must have a view.
+                    let view_id = self
+                        .views
+                        .values()
+                        .find(|v| v.borrow().get_buffer_id() == buffer_id)
+                        .map(|v| v.borrow().get_view_id());
+                    if let Some(mut ctx) = view_id.and_then(|id| self.make_context(id)) {
+                        ctx.reload(text);
+                    }
+                }
             }
         }
     }
-- 
2.43.0


From d38023fa7b7e6c323aee9236db0f90abb98a9d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 34/77] fix: a file that cannot be read is not opened as an
 empty one

---
 rust/core-lib/src/file.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index f263487..f71b1c3 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -115,11 +115,15 @@ impl FileManager {
     }
 
     pub fn open(&mut self, path: &Path, id: BufferId) -> Result<Rope, FileError> {
-        if !path.exists() && !self.file_info.contains_key(&id) {
-            return Ok(Rope::from(""));
-        }
-
-        let (rope, info) = try_load_file(path)?;
+        let (rope, info) = match try_load_file(path) {
+            // only a file that is known not to exist is a new one
+            Err(FileError::Io(ref e, _))
+                if e.kind() == io::ErrorKind::NotFound && !self.file_info.contains_key(&id) =>
+            {
+                return Ok(Rope::from(""));
+            }
+            loaded => loaded?,
+        };
 
         if self.file_info.insert(id, info).is_none() {
             #[cfg(feature = "notify")]
-- 
2.43.0


From c352f4d8501ae4cb8529d4ef0048ddf78c3afa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 35/77] fix: diffs never copy a part of the base twice nor
 split a codepoint

---
 rust/rope/src/compare.rs |  2 +-
 rust/rope/src/diff.rs    | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/rust/rope/src/compare.rs b/rust/rope/src/compare.rs
index 36da4b9..fc38331 100644
--- a/rust/rope/src/compare.rs
+++ b/rust/rope/src/compare.rs
@@ -248,7 +248,7 @@ impl<'a> RopeScanner<'a> {
                 ne_idx_rev(self.base_chunk.as_bytes(), self.target_chunk.as_bytes())
             {
                 // find nearest codepoint boundary
-                while idx > 1 && !self.base_chunk.is_char_boundary(self.base_chunk.len() - idx) {
+                while idx > 0 && !self.base_chunk.is_char_boundary(self.base_chunk.len() - idx) {
                     idx -= 1;
                 }
                 return stop.min(self.scanned + idx);
diff --git a/rust/rope/src/diff.rs b/rust/rope/src/diff.rs
index cead72e..adf3aee 100644
--- a/rust/rope/src/diff.rs
+++ b/rust/rope/src/diff.rs
@@ -114,21 +114,26 @@ impl Diff<RopeInfo> for LineHashDiff {
         // we keep track of how far forward we extend it each time, to avoid
         // having a subsequent scan extend backwards over the same region.
         let mut prev_end = start_offset;
+        // the same goes for the base: no region of it may be copied twice.
+        let mut prev_base_end = start_offset;
+        let base_end = base.len() - diff_end;
 
         for (targ_off, base_off) in longest_subseq {
-            if targ_off <= prev_end {
+            if targ_off <= prev_end || base_off < prev_base_end || base_off >= base_end {
                 continue;
             }
+            let max_left = (targ_off - prev_end).min(base_off - prev_base_end);
             let (left_dist, mut right_dist) =
-                expand_match(base, target, base_off, targ_off, prev_end);
+                expand_match(base, target, base_off, targ_off, max_left);
 
             // don't let last match expand past target_end
-            right_dist = right_dist.min(target_end - targ_off);
+            right_dist = right_dist.min(target_end - targ_off).min(base_end - base_off);
 
             let targ_start = targ_off - left_dist;
             let base_start = base_off - left_dist;
             let len = left_dist + right_dist;
             prev_end = targ_start + len;
+            prev_base_end = base_start + len;
 
             builder.copy(base_start, targ_start, len);
         }
@@ -152,10 +157,9 @@ fn expand_match(
     target: &Rope,
     base_off: usize,
     targ_off: usize,
-    prev_match_targ_end: usize,
+    max_left: usize,
 ) -> (usize, usize) {
     let mut scanner = RopeScanner::new(base, target);
-    let max_left = targ_off - prev_match_targ_end;
     let start = scanner.find_ne_char_back(base_off, targ_off, max_left);
     debug_assert!(start <= max_left, "{} <= {}", start, max_left);
     let end = scanner.find_ne_char(base_off, targ_off, None);
-- 
2.43.0


From dfb152fe3fd5058732d7bddb91b58cfb1f4e541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 36/77] fix: keep the byte order mark when saving under another
 name

---
 rust/core-lib/src/file.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index f71b1c3..231e360 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -149,10 +149,12 @@ impl FileManager {
     }
 
     fn save_new(&mut self, path: &Path, text: &Rope, id: BufferId) -> Result<(), FileError> {
-        let mod_time = try_save(path, text, CharacterEncoding::Utf8, self.get_info(id))
+        // a byte order mark is kept when the buffer is saved elsewhere
+        let encoding = self.get_info(id).map_or(CharacterEncoding::Utf8, |info| info.encoding);
+        let mod_time = try_save(path, text, encoding, self.get_info(id))
             .map_err(|e| FileError::Io(e, path.to_owned()))?;
         let info = FileInfo {
-            encoding: CharacterEncoding::Utf8,
+            encoding,
             path: path.to_owned(),
             mod_time,
             has_changed: false,
-- 
2.43.0


From c45c43951c1dfa98474747513efc9a2c1d87f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 37/77] fix: a view may be closed before its initialisation has
 finished

---
 rust/core-lib/src/tabs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 007aef7..4ab188f 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -582,8 +582,10 @@ impl CoreState {
         to_start.iter().for_each(|(id, config)| {
             let modified = self.detect_whitespace(*id, config);
             let config = modified.as_ref().unwrap_or(config);
-            let mut edit_ctx = self.make_context(*id).unwrap();
-            edit_ctx.finish_init(&config);
+            // the view may have been closed in the meantime
+            if let Some(mut edit_ctx) = self.make_context(*id) {
+                edit_ctx.finish_init(&config);
+            }
         });
     }
 
-- 
2.43.0


From 4a070fdce340ca37f8fcb402c85571f07d98bd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 38/77] fix: plugins can ask for the number of lines

---
 rust/core-lib/src/event_context.rs | 4 ++--
 rust/core-lib/src/plugins/rpc.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 7b29446..ed1e72d 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -260,11 +260,11 @@ impl<'a> EventContext<'a> {
     pub(crate) fn do_plugin_cmd_sync(&mut self, _plugin: PluginId, cmd: PluginRequest) -> Value {
         use self::PluginRequest::*;
         match cmd {
-            LineCount => json!(self.editor.borrow().plugin_n_lines()),
+            LineCount {} => json!(self.editor.borrow().plugin_n_lines()),
             GetData { start, unit, max_size, rev } => {
                 json!(self.editor.borrow().plugin_get_data(start, unit, max_size, rev))
             }
-            GetSelections => json!("not implemented"),
+            GetSelections {} => json!("not implemented"),
         }
     }
 
diff --git a/rust/core-lib/src/plugins/rpc.rs b/rust/core-lib/src/plugins/rpc.rs
index 1cd163e..f8fedd0 100644
--- a/rust/core-lib/src/plugins/rpc.rs
+++ b/rust/core-lib/src/plugins/rpc.rs
@@ -178,8 +178,8 @@ pub enum TextUnit {
 /// RPC requests sent from plugins.
 pub enum PluginRequest {
     GetData { start: usize, unit: TextUnit, max_size: usize, rev: u64 },
-    LineCount,
-    GetSelections,
+    LineCount {},
+    GetSelections {},
 }
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
-- 
2.43.0


From e433c84c8f4aaebca4cb265a58d98f56d3203180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 39/77] fix: a status item of a plugin that has stopped is
 ignored

---
 rust/core-lib/src/event_context.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index ed1e72d..06b0fca 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -239,8 +239,11 @@ impl<'a> EventContext<'a> {
             Edit { edit } => self.with_editor(|ed, _, _, _| ed.apply_plugin_edit(edit)),
             Alert { msg } => self.client.alert(&msg),
             AddStatusItem { key, value, alignment } => {
-                let plugin_name = &self.plugins.iter().find(|p| p.id == plugin).unwrap().name;
-                self.client.add_status_item(self.view_id, plugin_name, &key, &value, &alignment);
+                // the plugin may have been stopped since it sent this
+                if let Some(plugin) = self.plugins.iter().find(|p| p.id == plugin) {
+                    let name = &plugin.name;
+                    self.client.add_status_item(self.view_id, name, &key, &value, &alignment);
+                }
             }
             UpdateStatusItem { key, value } => {
                 self.client.update_status_item(self.view_id, &key, &value)
-- 
2.43.0


From 9be839ccf2a8b8cb26517763e838d6cfc0af3ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 40/77] fix: check what plugins send before using it

---
 rust/core-lib/src/editor.rs | 142 +++++++++++++++++++++++++-----------
 rust/core-lib/src/layers.rs |   9 ++-
 2 files changed, 108 insertions(+), 43 deletions(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index cf09b57..b960ff6 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -21,8 +21,8 @@ use serde_json::Value;
 use xi_rope::diff::{Diff, LineHashDiff};
 use xi_rope::engine::{Engine, RevId, RevToken};
 use xi_rope::rope::count_newlines;
-use xi_rope::spans::SpansBuilder;
-use xi_rope::{DeltaBuilder, Interval, LinesMetric, Rope, RopeDelta, Transformer};
+use xi_rope::spans::{Spans, SpansBuilder};
+use xi_rope::{DeltaBuilder, DeltaElement, Interval, LinesMetric, Rope, RopeDelta, Transformer};
 use xi_trace::{trace_block, trace_payload};
 
 use crate::annotations::{AnnotationType, Annotations};
@@ -234,6 +234,17 @@ impl Editor {
         let _t = trace_block("Editor::apply_plugin_edit", &["core"]);
         //TODO: get priority working, so that plugin edits don't necessarily move cursor
         let PluginEdit { rev, delta, priority, undo_group, .. } = edit;
+        match self.engine.get_rev(rev) {
+            Some(ref base) if delta_fits(&delta, base) => (),
+            Some(_) => {
+                error!("Plugin edit does not fit revision {}, ignoring", rev);
+                return;
+            }
+            None => {
+                error!("Revision {} of plugin edit not found, ignoring", rev);
+                return;
+            }
+        }
         let priority = priority as usize;
         let undo_group = undo_group.unwrap_or_else(|| self.calculate_undo_group());
         match self.engine.try_edit_rev(priority, undo_group, rev, delta) {
@@ -603,30 +614,76 @@ impl Editor {
         rev: RevToken,
     ) {
         let _t = trace_block("Editor::update_spans", &["core"]);
-        // TODO: more protection against invalid input
-        let mut start = start;
-        let mut end_offset = start + len;
+        let spans = spans
+            .into_iter()
+            // a style on no text has no effect
+            .filter(|span| span.start != span.end)
+            .map(|span| (span.start, span.end, span.scope_id));
+        let (iv, spans) = match self.spans_for_head(start, len, rev, false, spans) {
+            Some(result) => result,
+            None => return,
+        };
+        self.layers.update_layer(plugin, iv, spans);
+        view.invalidate_styles(&self.text, iv.start(), iv.end());
+    }
+
+    /// Turns spans which a plugin has sent for the region `start..start + len` of
+    /// revision `rev` into spans of the current text, with the region they are for.
+    ///
+    /// Returns `None` if the plugin has sent something that does not fit that revision.
+    fn spans_for_head<T: Clone>(
+        &self,
+        start: usize,
+        len: usize,
+        rev: RevToken,
+        may_overlap: bool,
+        items: impl Iterator<Item = (usize, usize, T)>,
+    ) -> Option<(Interval, Spans<T>)> {
+        let delta = if rev == self.engine.get_head_rev_id().token() {
+            None
+        } else {
+            match self.engine.try_delta_rev_head(rev) {
+                Ok(delta) => Some(delta),
+                Err(_) => {
+                    error!("Revision {} of plugin spans not found, ignoring", rev);
+                    return None;
+                }
+            }
+        };
+        let rev_len = delta.as_ref().map_or(self.text.len(), |delta| delta.base_len);
+        let end = match start.checked_add(len) {
+            Some(end) if end <= rev_len => end,
+            _ => {
+                error!("Plugin spans reach outside of revision {}, ignoring", rev);
+                return None;
+            }
+        };
+
         let mut sb = SpansBuilder::new(len);
-        for span in spans {
-            sb.add_span(Interval::new(span.start, span.end), span.scope_id);
+        let mut prev = 0;
+        for (span_start, span_end, data) in items {
+            if span_start < prev || span_end < span_start || span_end > len {
+                error!(
+                    "Plugin span {}..{} is out of order or range, ignoring",
+                    span_start, span_end
+                );
+                return None;
+            }
+            prev = if may_overlap { span_start } else { span_end };
+            sb.add_span(Interval::new(span_start, span_end), data);
         }
-        let mut spans = sb.build();
-        if rev != self.engine.get_head_rev_id().token() {
-            if let Ok(delta) = self.engine.try_delta_rev_head(rev) {
+        let spans = sb.build();
+
+        match delta {
+            None => Some((Interval::new(start, end), spans)),
+            Some(delta) => {
                 let mut transformer = Transformer::new(&delta);
                 let new_start = transformer.transform(start, false);
-                if !transformer.interval_untouched(Interval::new(start, end_offset)) {
-                    spans = spans.transform(start, end_offset, &mut transformer);
-                }
-                start = new_start;
-                end_offset = transformer.transform(end_offset, true);
-            } else {
-                error!("Revision {} not found", rev);
+                let new_end = transformer.transform(end, true);
+                let spans = spans.transform(start, end, &mut transformer);
+                Some((Interval::new(new_start, new_end), spans))
             }
         }
-        let iv = Interval::new(start, end_offset);
-        self.layers.update_layer(plugin, iv, spans);
-        view.invalidate_styles(&self.text, start, end_offset);
     }
 
     pub fn update_annotations(
@@ -641,27 +698,11 @@ impl Editor {
     ) {
         let _t = trace_block("Editor::update_annotations", &["core"]);
 
-        let mut start = start;
-        let mut end_offset = start + len;
-        let mut sb = SpansBuilder::new(len);
-        for span in annotation_spans {
-            sb.add_span(Interval::new(span.start, span.end), span.data);
-        }
-        let mut spans = sb.build();
-        if rev != self.engine.get_head_rev_id().token() {
-            if let Ok(delta) = self.engine.try_delta_rev_head(rev) {
-                let mut transformer = Transformer::new(&delta);
-                let new_start = transformer.transform(start, false);
-                if !transformer.interval_untouched(Interval::new(start, end_offset)) {
-                    spans = spans.transform(start, end_offset, &mut transformer);
-                }
-                start = new_start;
-                end_offset = transformer.transform(end_offset, true);
-            } else {
-                error!("Revision {} not found", rev);
-            }
-        }
-        let iv = Interval::new(start, end_offset);
+        let spans = annotation_spans.into_iter().map(|span| (span.start, span.end, span.data));
+        let (iv, spans) = match self.spans_for_head(start, len, rev, true, spans) {
+            Some(result) => result,
+            None => return,
+        };
         view.update_annotations(plugin, iv, Annotations { items: spans, annotation_type });
     }
 
@@ -735,6 +776,25 @@ impl EditType {
     }
 }
 
+/// Returns `true` if `delta` can be applied to `base`: it copies existing text, in order,
+/// and does not split a codepoint.
+fn delta_fits(delta: &RopeDelta, base: &Rope) -> bool {
+    let mut prev = 0;
+    delta.base_len == base.len()
+        && delta.els.iter().all(|el| match *el {
+            DeltaElement::Copy(start, end) => {
+                let fits = prev <= start
+                    && start < end
+                    && end <= base.len()
+                    && base.is_codepoint_boundary(start)
+                    && base.is_codepoint_boundary(end);
+                prev = end;
+                fits
+            }
+            DeltaElement::Insert(_) => true,
+        })
+}
+
 fn last_selection_region(regions: &[SelRegion]) -> Option<&SelRegion> {
     for region in regions.iter().rev() {
         if !region.is_caret() {
diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index eda38e1..9e5869a 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -90,7 +90,12 @@ impl Layers {
         if self.create_if_missing(layer).is_err() {
             return;
         }
-        self.layers.get_mut(&layer).unwrap().update_scopes(iv, &spans);
+        let layer = self.layers.get_mut(&layer).unwrap();
+        if spans.iter().any(|(_, scope_id)| *scope_id as usize >= layer.style_lookup.len()) {
+            error!("plugin spans use unknown scope ids, ignoring");
+            return;
+        }
+        layer.update_scopes(iv, &spans);
         self.resolve_styles(iv);
     }
 
@@ -240,7 +245,7 @@ impl ScopeLayer {
 
             // walk backwards through stack to see if we have an existing
             // style for any child stacks.
-            for i in 0..stack.len() - 1 {
+            for i in 0..stack.len().saturating_sub(1) {
                 let prev_range = 0..stack.len() - (i + 1);
                 if let Some(s) = self.style_cache.get(&stack[prev_range]) {
                     last_style = Some(*s);
-- 
2.43.0


From 2a9833086b35afdff00f39e21df4c80fc1c6506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 41/77] fix: spans of plugins never split a codepoint

---
 rust/core-lib/src/editor.rs | 44 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index b960ff6..26ecd85 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -639,22 +639,18 @@ impl Editor {
         may_overlap: bool,
         items: impl Iterator<Item = (usize, usize, T)>,
     ) -> Option<(Interval, Spans<T>)> {
-        let delta = if rev == self.engine.get_head_rev_id().token() {
-            None
-        } else {
-            match self.engine.try_delta_rev_head(rev) {
-                Ok(delta) => Some(delta),
-                Err(_) => {
-                    error!("Revision {} of plugin spans not found, ignoring", rev);
-                    return None;
-                }
+        let text = match self.engine.get_rev(rev) {
+            Some(text) => text,
+            None => {
+                error!("Revision {} of plugin spans not found, ignoring", rev);
+                return None;
             }
         };
-        let rev_len = delta.as_ref().map_or(self.text.len(), |delta| delta.base_len);
+        let is_valid = |offset: usize| offset <= text.len() && text.is_codepoint_boundary(offset);
         let end = match start.checked_add(len) {
-            Some(end) if end <= rev_len => end,
+            Some(end) if is_valid(start) && is_valid(end) => end,
             _ => {
-                error!("Plugin spans reach outside of revision {}, ignoring", rev);
+                error!("Region of plugin spans is not in revision {}, ignoring", rev);
                 return None;
             }
         };
@@ -662,7 +658,12 @@ impl Editor {
         let mut sb = SpansBuilder::new(len);
         let mut prev = 0;
         for (span_start, span_end, data) in items {
-            if span_start < prev || span_end < span_start || span_end > len {
+            if span_start < prev
+                || span_end < span_start
+                || span_end > len
+                || !is_valid(start + span_start)
+                || !is_valid(start + span_end)
+            {
                 error!(
                     "Plugin span {}..{} is out of order or range, ignoring",
                     span_start, span_end
@@ -674,16 +675,15 @@ impl Editor {
         }
         let spans = sb.build();
 
-        match delta {
-            None => Some((Interval::new(start, end), spans)),
-            Some(delta) => {
-                let mut transformer = Transformer::new(&delta);
-                let new_start = transformer.transform(start, false);
-                let new_end = transformer.transform(end, true);
-                let spans = spans.transform(start, end, &mut transformer);
-                Some((Interval::new(new_start, new_end), spans))
-            }
+        if rev == self.engine.get_head_rev_id().token() {
+            return Some((Interval::new(start, end), spans));
         }
+        let delta = self.engine.try_delta_rev_head(rev).ok()?;
+        let mut transformer = Transformer::new(&delta);
+        let new_start = transformer.transform(start, false);
+        let new_end = transformer.transform(end, true);
+        let spans = spans.transform(start, end, &mut transformer);
+        Some((Interval::new(new_start, new_end), spans))
     }
 
     pub fn update_annotations(
-- 
2.43.0


From a77e3415d740296e5ffc74573e3f67d92a3695ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 42/77] fix: a plugin that does not read its input cannot block
 the core

---
 rust/core-lib/src/plugins/mod.rs | 37 ++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/plugins/mod.rs b/rust/core-lib/src/plugins/mod.rs
index 07b2af2..0ec68ed 100644
--- a/rust/core-lib/src/plugins/mod.rs
+++ b/rust/core-lib/src/plugins/mod.rs
@@ -19,9 +19,10 @@ pub mod manifest;
 pub mod rpc;
 
 use std::fmt;
-use std::io::BufReader;
+use std::io::{self, BufReader, Write};
 use std::path::Path;
 use std::process::{Child, Command as ProcCommand, Stdio};
+use std::sync::mpsc::{self, Sender};
 use std::sync::Arc;
 use std::thread;
 
@@ -161,6 +162,38 @@ impl Plugin {
     }
 }
 
+/// Writes to a plugin from a thread of its own, so that a plugin which does not read
+/// its input cannot block the core.
+struct QueuedWriter(Sender<Vec<u8>>);
+
+impl QueuedWriter {
+    fn new<W: Write + Send + 'static>(mut inner: W) -> Self {
+        let (tx, rx) = mpsc::channel::<Vec<u8>>();
+        thread::spawn(move || {
+            for buf in rx {
+                if let Err(err) = inner.write_all(&buf).and_then(|_| inner.flush()) {
+                    warn!("error writing to plugin: {:?}", err);
+                    break;
+                }
+            }
+        });
+        QueuedWriter(tx)
+    }
+}
+
+impl Write for QueuedWriter {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        match self.0.send(buf.to_vec()) {
+            Ok(_) => Ok(buf.len()),
+            Err(_) => Err(io::ErrorKind::BrokenPipe.into()),
+        }
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        Ok(())
+    }
+}
+
 pub(crate) fn start_plugin_process(
     plugin_desc: Arc<PluginDescription>,
     id: PluginId,
@@ -179,7 +212,7 @@ pub(crate) fn start_plugin_process(
                 Ok(mut child) => {
                     let child_stdin = child.stdin.take().unwrap();
                     let child_stdout = child.stdout.take().unwrap();
-                    let mut looper = RpcLoop::new(child_stdin);
+                    let mut looper = RpcLoop::new(QueuedWriter::new(child_stdin));
                     let peer: RpcPeer = Box::new(looper.get_raw_peer());
                     let name = plugin_desc.name.clone();
                     peer.send_rpc_notification("ping", &Value::Array(Vec::new()));
-- 
2.43.0


From 53ef11eb6bc35688e3ad408c727de78e3960b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 43/77] fix: do not wait for plugins while saving a trace

---
 rust/core-lib/src/plugins/mod.rs |  7 ++++--
 rust/core-lib/src/tabs.rs        | 42 +++++++++++++++++++++++++-------
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/rust/core-lib/src/plugins/mod.rs b/rust/core-lib/src/plugins/mod.rs
index 0ec68ed..e0a3b54 100644
--- a/rust/core-lib/src/plugins/mod.rs
+++ b/rust/core-lib/src/plugins/mod.rs
@@ -115,8 +115,11 @@ impl Plugin {
         self.peer.send_rpc_notification("tracing_config", &json!({ "enabled": enabled }))
     }
 
-    pub fn collect_trace(&self) -> Result<Value, xi_rpc::Error> {
-        self.peer.send_rpc_request("collect_trace", &json!({}))
+    pub fn collect_trace<F>(&self, callback: F)
+    where
+        F: FnOnce(Result<Value, xi_rpc::Error>) + Send + 'static,
+    {
+        self.peer.send_rpc_request_async("collect_trace", &json!({}), Box::new(callback))
     }
 
     pub fn config_changed(&self, view_id: ViewId, changes: &Table) {
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 4ab188f..5049127 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -26,6 +26,7 @@ use std::fs::File;
 use std::io;
 use std::mem;
 use std::path::{Path, PathBuf};
+use std::sync::{Arc, Mutex};
 
 use serde::de::{self, Deserialize, Deserializer, Unexpected};
 use serde::ser::{Serialize, Serializer};
@@ -894,19 +895,42 @@ impl CoreState {
             all_traces.append(&mut traces);
         }
 
+        // The samples of the plugins are added as they arrive, and the last one writes the file.
+        // The core must not wait for them here: it could not answer the plugins meanwhile.
+        let dump = TraceDump { path: path.as_ref().to_owned(), samples: all_traces };
+        let dump = Arc::new(Mutex::new((self.running_plugins.len(), dump)));
+        if self.running_plugins.is_empty() {
+            dump.lock().unwrap().1.write();
+        }
         for plugin in &self.running_plugins {
-            match plugin.collect_trace() {
-                Ok(json) => {
-                    let mut trace = chrome_trace_dump::decode(json).unwrap();
-                    all_traces.append(&mut trace);
+            let dump = dump.clone();
+            plugin.collect_trace(move |response| {
+                let (ref mut pending, ref mut dump) = *dump.lock().unwrap();
+                match response.map(chrome_trace_dump::decode) {
+                    Ok(Ok(mut samples)) => dump.samples.append(&mut samples),
+                    Ok(Err(e)) => error!("error decoding trace {:?}", e),
+                    Err(e) => error!("trace error {:?}", e),
                 }
-                Err(e) => error!("trace error {:?}", e),
-            }
+                *pending -= 1;
+                if *pending == 0 {
+                    dump.write();
+                }
+            });
         }
+    }
+}
+
+/// A trace that is being saved.
+struct TraceDump {
+    path: PathBuf,
+    samples: Vec<xi_trace::Sample>,
+}
 
-        all_traces.sort_unstable();
+impl TraceDump {
+    fn write(&mut self) {
+        self.samples.sort_unstable();
 
-        let mut trace_file = match File::create(path.as_ref()) {
+        let mut trace_file = match File::create(&self.path) {
             Ok(f) => f,
             Err(e) => {
                 error!("error saving trace {:?}", e);
@@ -914,7 +938,7 @@ impl CoreState {
             }
         };
 
-        if let Err(e) = chrome_trace_dump::serialize(&all_traces, &mut trace_file) {
+        if let Err(e) = xi_trace::chrome_trace_dump::serialize(&self.samples, &mut trace_file) {
             error!("error saving trace {:?}", e);
         }
     }
-- 
2.43.0


From d5e569b9aafdbf7d461265250d7cbc721a3a36e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 44/77] fix: plugins are given each view once, after it has
 been initialized

---
 rust/core-lib/src/tabs.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 5049127..c6f6b1b 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -279,7 +279,12 @@ impl CoreState {
 
             let editor = &self.editors[&buffer_id];
             let info = self.file_manager.get_info(buffer_id);
-            let plugins = self.running_plugins.iter().collect::<Vec<_>>();
+            // plugins are not told about a view until it has been initialized
+            let plugins = if self.is_pending(view_id) {
+                Vec::new()
+            } else {
+                self.running_plugins.iter().collect::<Vec<_>>()
+            };
             let config = self.config_manager.get_buffer_config(buffer_id);
             let language = self.config_manager.get_buffer_language(buffer_id);
 
@@ -303,6 +308,11 @@ impl CoreState {
         })
     }
 
+    /// Returns `true` if the view has not been initialized yet.
+    fn is_pending(&self, view_id: ViewId) -> bool {
+        self.pending_views.iter().any(|(id, _)| *id == view_id)
+    }
+
     /// Produces an iterator over all event contexts, with each view appearing
     /// exactly once.
     fn iter_groups<'a>(&'a self) -> Iter<'a, Box<dyn Iterator<Item = &ViewId> + 'a>> {
@@ -950,8 +960,15 @@ impl CoreState {
     pub(crate) fn plugin_connect(&mut self, plugin: Result<Plugin, io::Error>) {
         match plugin {
             Ok(plugin) => {
-                let init_info =
-                    self.iter_groups().map(|mut ctx| ctx.plugin_info()).collect::<Vec<_>>();
+                // views which are pending get a `new_buffer` when they have been initialized
+                let init_info = self
+                    .iter_groups()
+                    .filter(|ctx| !self.is_pending(ctx.view_id))
+                    .map(|mut ctx| {
+                        ctx.plugin_started(&plugin);
+                        ctx.plugin_info()
+                    })
+                    .collect::<Vec<_>>();
                 plugin.initialize(init_info);
                 self.running_plugins.push(plugin);
             }
-- 
2.43.0


From 9225db25ed9930b536fb39314f16a565bab39b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:19 +0000
Subject: [PATCH 45/77] fix: a view is initialized with its current config

---
 rust/core-lib/src/tabs.rs | 54 ++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 32 deletions(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index c6f6b1b..f13f373 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -119,7 +119,7 @@ pub struct CoreState {
     /// it can be passed to plugins.
     self_ref: Option<WeakXiCore>,
     /// Views which need to have setup finished.
-    pending_views: Vec<(ViewId, Table)>,
+    pending_views: Vec<ViewId>,
     peer: Client,
     id_counter: Counter,
     plugins: PluginCatalog,
@@ -310,7 +310,7 @@ impl CoreState {
 
     /// Returns `true` if the view has not been initialized yet.
     fn is_pending(&self, view_id: ViewId) -> bool {
-        self.pending_views.iter().any(|(id, _)| *id == view_id)
+        self.pending_views.contains(&view_id)
     }
 
     /// Produces an iterator over all event contexts, with each view appearing
@@ -388,7 +388,7 @@ impl CoreState {
         self.editors.insert(buffer_id, editor);
         self.views.insert(view_id, view);
 
-        let config = self.config_manager.add_buffer(buffer_id, path.as_deref());
+        self.config_manager.add_buffer(buffer_id, path.as_deref());
 
         // NOTE: because this is a synchronous call, we have to initialize the
         // view and return the view_id before we can send any events to this
@@ -399,7 +399,7 @@ impl CoreState {
         let mut edit_ctx = self.make_context(view_id).unwrap();
         edit_ctx.view_init();
 
-        self.pending_views.push((view_id, config));
+        self.pending_views.push(view_id);
         self.peer.schedule_idle(NEW_VIEW_IDLE_TOKEN);
 
         Ok(json!(view_id))
@@ -590,32 +590,34 @@ impl CoreState {
     fn finalize_new_views(&mut self) {
         let to_start = mem::replace(&mut self.pending_views, Vec::new());
 
-        to_start.iter().for_each(|(id, config)| {
-            let modified = self.detect_whitespace(*id, config);
-            let config = modified.as_ref().unwrap_or(config);
+        to_start.iter().for_each(|id| {
+            self.detect_whitespace(*id);
             // the view may have been closed in the meantime
-            if let Some(mut edit_ctx) = self.make_context(*id) {
-                edit_ctx.finish_init(&config);
+            if let Ok(config) = self.do_get_config(*id) {
+                self.make_context(*id).unwrap().finish_init(&config);
             }
         });
     }
 
     // Detects whitespace settings from the file and merges them with the config
-    fn detect_whitespace(&mut self, id: ViewId, config: &Table) -> Option<Table> {
-        let buffer_id = self.views.get(&id).map(|v| v.borrow().get_buffer_id())?;
+    fn detect_whitespace(&mut self, id: ViewId) {
+        let buffer_id = match self.views.get(&id) {
+            Some(view) => view.borrow().get_buffer_id(),
+            None => return,
+        };
         let editor = self
             .editors
             .get(&buffer_id)
             .expect("existing buffer_id must have corresponding editor");
 
         if editor.borrow().get_buffer().is_empty() {
-            return None;
+            return;
         }
 
         let autodetect_whitespace =
             self.config_manager.get_buffer_config(buffer_id).items.autodetect_whitespace;
         if !autodetect_whitespace {
-            return None;
+            return;
         }
 
         let mut changes = Table::new();
@@ -650,25 +652,13 @@ impl CoreState {
             .config_manager
             .set_user_config(ConfigDomain::SysOverride(buffer_id), config_delta)
         {
-            Ok(ref mut items) if !items.is_empty() => {
-                assert!(
-                    items.len() == 1,
-                    "whitespace overrides can only update a single buffer's config\n{:?}",
-                    items
-                );
-                let table = items.remove(0).1;
-                let mut config = config.clone();
-                config.extend(table);
-                Some(config)
-            }
-            Ok(_) => {
-                warn!("set_user_config failed to update config, no tables were returned");
-                None
-            }
-            Err(err) => {
-                warn!("detect_whitespace failed to update config: {:?}", err);
-                None
-            }
+            Ok(ref items) if !items.is_empty() => assert!(
+                items.len() == 1,
+                "whitespace overrides can only update a single buffer's config\n{:?}",
+                items
+            ),
+            Ok(_) => warn!("set_user_config failed to update config, no tables were returned"),
+            Err(err) => warn!("detect_whitespace failed to update config: {:?}", err),
         }
     }
 
-- 
2.43.0


From 92cdb89c8dec3a75ce71b4c633d865624ff81b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:19 +0000
Subject: [PATCH 46/77] fix: an update tells that there is no cursor on a line
 any more

---
 rust/core-lib/src/view.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 680655e..d3769e4 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -690,7 +690,8 @@ impl View {
                 style_spans
             ));
         }
-        if !cursors.is_empty() {
+        // without text this updates a line, and an empty list deletes its cursors
+        if !cursors.is_empty() || text.is_none() {
             result["cursor"] = json!(cursors);
         }
         if let Some(line_num) = line.line_num {
-- 
2.43.0


From 69b017afcf1853940b94d268250bd56031ab2fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:19 +0000
Subject: [PATCH 47/77] fix: keep track of plugins which are being launched

---
 rust/core-lib/src/core.rs        |  4 +--
 rust/core-lib/src/plugins/mod.rs |  4 +--
 rust/core-lib/src/tabs.rs        | 45 ++++++++++++++++++++------------
 3 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/rust/core-lib/src/core.rs b/rust/core-lib/src/core.rs
index 9e659eb..f1da2ad 100644
--- a/rust/core-lib/src/core.rs
+++ b/rust/core-lib/src/core.rs
@@ -129,9 +129,9 @@ impl WeakXiCore {
 
     /// Called immediately after attempting to start a plugin,
     /// from the plugin's thread.
-    pub fn plugin_connect(&self, plugin: Result<Plugin, io::Error>) {
+    pub fn plugin_connect(&self, id: PluginId, plugin: Result<Plugin, io::Error>) {
         if let Some(core) = self.upgrade() {
-            core.inner().plugin_connect(plugin)
+            core.inner().plugin_connect(id, plugin)
         }
     }
 
diff --git a/rust/core-lib/src/plugins/mod.rs b/rust/core-lib/src/plugins/mod.rs
index e0a3b54..3a690ef 100644
--- a/rust/core-lib/src/plugins/mod.rs
+++ b/rust/core-lib/src/plugins/mod.rs
@@ -226,12 +226,12 @@ pub(crate) fn start_plugin_process(
                         plugin.toggle_tracing(true);
                     }
 
-                    core.plugin_connect(Ok(plugin));
+                    core.plugin_connect(id, Ok(plugin));
                     let mut core = core;
                     let err = looper.mainloop(|| BufReader::new(child_stdout), &mut core);
                     core.plugin_exit(id, err);
                 }
-                Err(err) => core.plugin_connect(Err(err)),
+                Err(err) => core.plugin_connect(id, Err(err)),
             }
         });
 
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index f13f373..a20d567 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -44,7 +44,7 @@ use crate::file::FileManager;
 use crate::line_ending::LineEnding;
 use crate::plugin_rpc::{PluginNotification, PluginRequest};
 use crate::plugins::rpc::ClientPluginInfo;
-use crate::plugins::{start_plugin_process, Plugin, PluginCatalog, PluginPid};
+use crate::plugins::{start_plugin_process, Plugin, PluginCatalog, PluginDescription, PluginPid};
 use crate::recorder::Recorder;
 use crate::rpc::{
     CoreNotification, CoreRequest, EditNotification, EditRequest,
@@ -125,6 +125,8 @@ pub struct CoreState {
     plugins: PluginCatalog,
     // for the time being we auto-start all plugins we find on launch.
     running_plugins: Vec<Plugin>,
+    /// plugins which have been launched but have not connected yet
+    launching_plugins: Vec<(PluginId, String)>,
 }
 
 /// Initial setup and bookkeeping
@@ -185,6 +187,7 @@ impl CoreState {
             id_counter: Counter::default(),
             plugins: PluginCatalog::default(),
             running_plugins: Vec::new(),
+            launching_plugins: Vec::new(),
         }
     }
 
@@ -222,15 +225,17 @@ impl CoreState {
         self.peer.available_themes(theme_names);
 
         // FIXME: temporary: we just launch every plugin we find at startup
-        for manifest in self.plugins.iter() {
-            start_plugin_process(
-                manifest.clone(),
-                self.next_plugin_id(),
-                self.self_ref.as_ref().unwrap().clone(),
-            );
+        for manifest in self.plugins.iter().collect::<Vec<_>>() {
+            self.launch_plugin(manifest);
         }
     }
 
+    fn launch_plugin(&mut self, manifest: Arc<PluginDescription>) {
+        let id = self.next_plugin_id();
+        self.launching_plugins.push((id, manifest.name.clone()));
+        start_plugin_process(manifest, id, self.self_ref.as_ref().unwrap().clone());
+    }
+
     /// Attempt to load a config file.
     fn load_file_based_config(&mut self, path: &Path) {
         let _t = trace_block("CoreState::load_config_file", &["core"]);
@@ -525,25 +530,24 @@ impl CoreState {
     }
 
     fn do_start_plugin(&mut self, _view_id: ViewId, plugin: &str) {
-        if self.running_plugins.iter().any(|p| p.name == plugin) {
+        if self.running_plugins.iter().any(|p| p.name == plugin)
+            || self.launching_plugins.iter().any(|(_, name)| name == plugin)
+        {
             info!("plugin {} already running", plugin);
             return;
         }
 
         if let Some(manifest) = self.plugins.get_named(plugin) {
-            //TODO: lots of races possible here, we need to keep track of
-            //pending launches.
-            start_plugin_process(
-                manifest,
-                self.next_plugin_id(),
-                self.self_ref.as_ref().unwrap().clone(),
-            );
+            self.launch_plugin(manifest);
         } else {
             warn!("no plugin found with name '{}'", plugin);
         }
     }
 
     fn do_stop_plugin(&mut self, _view_id: ViewId, plugin: &str) {
+        // a plugin which is no longer expected is shut down when it connects
+        self.launching_plugins.retain(|(_, name)| name != plugin);
+
         if let Some(p) = self
             .running_plugins
             .iter()
@@ -947,8 +951,17 @@ impl TraceDump {
 /// plugin event handling
 impl CoreState {
     /// Called from a plugin's thread after trying to start the plugin.
-    pub(crate) fn plugin_connect(&mut self, plugin: Result<Plugin, io::Error>) {
+    pub(crate) fn plugin_connect(&mut self, id: PluginId, plugin: Result<Plugin, io::Error>) {
+        let launching_idx = self.launching_plugins.iter().position(|(id2, _)| *id2 == id);
+        if let Some(idx) = launching_idx {
+            self.launching_plugins.remove(idx);
+        }
+
         match plugin {
+            Ok(ref plugin) if launching_idx.is_none() => {
+                info!("plugin {} was stopped before it connected", plugin.name);
+                plugin.shutdown();
+            }
             Ok(plugin) => {
                 // views which are pending get a `new_buffer` when they have been initialized
                 let init_info = self
-- 
2.43.0


From d7c1ffaced8d5762c1dcaf44fbf6717ed8050337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 48/77] fix: a cursor taken from a line that is not on the
 screen is taken from the front-end's

---
 rust/core-lib/src/line_cache_shadow.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/line_cache_shadow.rs b/rust/core-lib/src/line_cache_shadow.rs
index 8198ac6..40afd9d 100644
--- a/rust/core-lib/src/line_cache_shadow.rs
+++ b/rust/core-lib/src/line_cache_shadow.rs
@@ -153,7 +153,9 @@ impl LineCacheShadow {
         let mut clean = true;
         let mut line_num = 0;
         for span in &self.spans {
-            if start < line_num + span.n && end > line_num && (span.validity & invalid) != 0 {
+            // the client has lines with valid text, even when their cursors are invalid
+            let sent = span.validity & (invalid | TEXT_VALID);
+            if start < line_num + span.n && end > line_num && sent != 0 {
                 clean = false;
                 break;
             }
-- 
2.43.0


From e340bcbb6393e016c0003ab47308b2a569d4fd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 49/77] fix: forgetting undo groups keeps edits which later
 ones build on

---
 rust/core-lib/src/editor.rs |  6 +++---
 rust/rope/src/engine.rs     | 22 ++++++++++++++++++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 26ecd85..8abd8c3 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -294,9 +294,9 @@ impl Editor {
     #[cfg(not(target_os = "fuchsia"))]
     fn gc_undos(&mut self) {
         if self.revs_in_flight == 0 && !self.gc_undos.is_empty() {
-            self.engine.gc(&self.gc_undos);
-            self.undos = &self.undos - &self.gc_undos;
-            self.gc_undos.clear();
+            let retained = self.engine.gc_retain(&self.gc_undos);
+            self.undos = &self.undos - &(&self.gc_undos - &retained);
+            self.gc_undos = retained;
         }
     }
 
diff --git a/rust/rope/src/engine.rs b/rust/rope/src/engine.rs
index 14ab7da..b022430 100644
--- a/rust/rope/src/engine.rs
+++ b/rust/rope/src/engine.rs
@@ -571,16 +571,37 @@ impl Engine {
     //
     // Thus, it's easiest to defer gc to when all plugins quiesce, but it's certainly
     // possible to fix it so that's not necessary.
+    //
+    // An edit whose inserts stay in the document can only be dropped when all edits before
+    // it are: they know nothing of these inserts. It is retained otherwise.
     pub fn gc(&mut self, gc_groups: &BTreeSet<usize>) {
+        self.gc_retain(gc_groups);
+    }
+
+    /// Like `gc`. Returns those of the groups of which edits had to be retained; these
+    /// can be gc'ed later.
+    pub fn gc_retain(&mut self, gc_groups: &BTreeSet<usize>) -> BTreeSet<usize> {
         let mut gc_dels = self.empty_subset_before_first_rev();
         // TODO: want to let caller retain more rev_id's.
         let mut retain_revs = BTreeSet::new();
         if let Some(last) = self.revs.last() {
             retain_revs.insert(last.rev_id);
         }
+        let mut retain_groups = BTreeSet::new();
+        let mut retained_before = false;
         {
             for rev in &self.revs {
                 if let Edit { ref undo_group, ref inserts, ref deletes, .. } = rev.edit {
+                    let undone = self.undone_groups.contains(undo_group);
+                    if retained_before && !undone && !inserts.is_empty() {
+                        retain_revs.insert(rev.rev_id);
+                    }
+                    if !gc_groups.contains(undo_group) {
+                        retained_before = true;
+                    } else if retain_revs.contains(&rev.rev_id) {
+                        retained_before = true;
+                        retain_groups.insert(*undo_group);
+                    }
                     if !retain_revs.contains(&rev.rev_id) && gc_groups.contains(undo_group) {
                         if self.undone_groups.contains(undo_group) {
                             if !inserts.is_empty() {
@@ -653,6 +674,7 @@ impl Engine {
             }
         }
         self.revs.reverse();
+        retain_groups
     }
 
     /// Merge the new content from another Engine into this one with a CRDT merge
-- 
2.43.0


From 1db1b894c438e7dc953348cc21b74e163d528670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 50/77] fix: edits of different sessions are not combined when
 merging

---
 rust/rope/src/engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/rope/src/engine.rs b/rust/rope/src/engine.rs
index b022430..82e98a4 100644
--- a/rust/rope/src/engine.rs
+++ b/rust/rope/src/engine.rs
@@ -884,18 +884,18 @@ fn compute_deltas(
 /// as opposed to thousands of revisions.
 fn compute_transforms(revs: Vec<Revision>) -> Vec<(FullPriority, Subset)> {
     let mut out = Vec::new();
-    let mut last_priority: Option<usize> = None;
+    let mut last_priority: Option<FullPriority> = None;
     for r in revs {
         if let Contents::Edit { priority, inserts, .. } = r.edit {
             if inserts.is_empty() {
                 continue;
             }
-            if Some(priority) == last_priority {
+            let prio = FullPriority { priority, session_id: r.rev_id.session_id() };
+            if Some(prio) == last_priority {
                 let last: &mut (FullPriority, Subset) = out.last_mut().unwrap();
                 last.1 = last.1.transform_union(&inserts);
             } else {
-                last_priority = Some(priority);
-                let prio = FullPriority { priority, session_id: r.rev_id.session_id() };
+                last_priority = Some(prio);
                 out.push((prio, inserts));
             }
         }
-- 
2.43.0


From c698c0453c2864c978b592bc53217fac16b2eccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:19 +0000
Subject: [PATCH 51/77] fix: playing a recording that edits nothing does not
 tell plugins of a revision

---
 rust/core-lib/src/event_context.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 06b0fca..9088441 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -204,8 +204,11 @@ impl<'a> EventContext<'a> {
                 // The action that follows the block must belong to a separate undo group
                 self.editor.borrow_mut().update_edit_type();
 
-                let delta = self.editor.borrow_mut().delta_rev_head(starting_revision).unwrap();
-                self.update_plugins(&mut self.editor.borrow_mut(), delta, "core");
+                // Playing back may not have edited anything, in which case there is no new revision
+                if self.editor.borrow().get_head_rev_token() != starting_revision {
+                    let delta = self.editor.borrow_mut().delta_rev_head(starting_revision).unwrap();
+                    self.update_plugins(&mut self.editor.borrow_mut(), delta, "core");
+                }
             }
             SpecialEvent::ClearRecording(recording_name) => {
                 let mut recorder = self.recorder.borrow_mut();
-- 
2.43.0


From 8ac8b87f2598f4d2f131f0d82336bf6f7db5c335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 52/77] fix: column-based wrapping does not use widths measured
 by the front-end

---
 rust/core-lib/src/linewrap.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/linewrap.rs b/rust/core-lib/src/linewrap.rs
index fded064..7c6799f 100644
--- a/rust/core-lib/src/linewrap.rs
+++ b/rust/core-lib/src/linewrap.rs
@@ -369,8 +369,10 @@ impl Lines {
         cursor.set_offset(task.start);
         debug_assert_eq!(cursor.offset, task.start, "task_start must be valid offset");
 
+        // `width_cache` is shared by all views, and holds widths measured by the front-end
+        let mut mono_cache = WidthCache::new();
         let mut ctx = match self.wrap {
-            Bytes(b) => RewrapCtx::new(text, &CodepointMono, b as f64, width_cache, task.start),
+            Bytes(b) => RewrapCtx::new(text, &CodepointMono, b as f64, &mut mono_cache, task.start),
             Width(w) => RewrapCtx::new(text, client, w, width_cache, task.start),
             None => unreachable!(),
         };
-- 
2.43.0


From 867046ad48ddd8302b708a079fcbbbb945645bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 53/77] fix: report the result of a search also when no line
 has to be redrawn

---
 rust/core-lib/src/view.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index d3769e4..efa6c63 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -778,14 +778,6 @@ impl View {
             .chain(plugin_annotations)
             .collect::<Vec<_>>();
 
-        if !self.lc_shadow.needs_render(plan) {
-            let total_lines = self.line_of_offset(text, text.len()) + 1;
-            let update =
-                Update { ops: vec![UpdateOp::copy(total_lines, 1)], pristine, annotations };
-            client.update_view(self.view_id, &update);
-            return;
-        }
-
         // send updated find status only if there have been changes
         if self.find_changed != FindStatusChange::None {
             let matches_only = self.find_changed == FindStatusChange::Matches;
@@ -800,6 +792,14 @@ impl View {
             }
         }
 
+        if !self.lc_shadow.needs_render(plan) {
+            let total_lines = self.line_of_offset(text, text.len()) + 1;
+            let update =
+                Update { ops: vec![UpdateOp::copy(total_lines, 1)], pristine, annotations };
+            client.update_view(self.view_id, &update);
+            return;
+        }
+
         let last_line = self.line_of_offset(text, text.len());
         let mut b = line_cache_shadow::Builder::new();
         let mut ops = Vec::new();
-- 
2.43.0


From d1bddcf2e91a3a4601901247d17980d1a601d89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 54/77] fix: find_next and find_previous wrap around only if
 asked to

---
 rust/core-lib/src/view.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index efa6c63..aa1554b 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -1189,10 +1189,7 @@ impl View {
         allow_same: bool,
         modify_selection: &SelectionModifier,
     ) {
-        self.select_next_occurrence(text, reverse, false, allow_same, modify_selection);
-        if self.scroll_to.is_none() && wrap {
-            self.select_next_occurrence(text, reverse, true, allow_same, modify_selection);
-        }
+        self.select_next_occurrence(text, reverse, !wrap, allow_same, modify_selection);
     }
 
     /// Selects all find matches.
-- 
2.43.0


From 19f4cde2791fb6ff42dc981326ffc05de0ccba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 55/77] fix: style a scope stack none of whose prefixes was
 seen before

---
 rust/core-lib/src/layers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index 9e5869a..641740d 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -241,7 +241,7 @@ impl ScopeLayer {
 
         for stack in stacks {
             let mut last_style: Option<StyleModifier> = None;
-            let mut upper_bound_of_last = stack.len() as usize;
+            let mut upper_bound_of_last = 0;
 
             // walk backwards through stack to see if we have an existing
             // style for any child stacks.
-- 
2.43.0


From fb466c6c9e795f6929516c4d51b3c6923c936dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 56/77] fix: forget cached styles when the theme changes

---
 rust/core-lib/src/layers.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index 641740d..9d8bc03 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -197,6 +197,7 @@ impl ScopeLayer {
 
     fn theme_changed(&mut self, style_map: &ThemeStyleMap) {
         // recompute styles with the new theme
+        self.style_cache.clear();
         let cur_stacks = self.stack_lookup.clone();
         self.style_lookup = self.styles_for_stacks(&cur_stacks, style_map);
         let iv_all = Interval::new(0, self.style_spans.len());
-- 
2.43.0


From 560979972e867f980fe6d5376aca5313185a1326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 57/77] fix: size the style layers for the text a buffer is
 opened with

---
 rust/core-lib/src/editor.rs | 3 ++-
 rust/core-lib/src/layers.rs | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 8abd8c3..fee87a1 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -96,6 +96,7 @@ impl Editor {
         let engine = Engine::new(text.into());
         let buffer = engine.get_head().clone();
         let last_rev_id = engine.get_head_rev_id();
+        let layers = Layers::new(buffer.len());
 
         Editor {
             text: buffer,
@@ -113,7 +114,7 @@ impl Editor {
             force_undo_group: false,
             last_edit_type: EditType::Other,
             this_edit_type: EditType::Other,
-            layers: Layers::default(),
+            layers,
             revs_in_flight: 0,
             sync_store: None,
             last_synced_rev: last_rev_id,
diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index 9d8bc03..a101245 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -52,6 +52,11 @@ pub struct ScopeLayer {
 }
 
 impl Layers {
+    /// Creates an empty collection for a text of the given length.
+    pub fn new(len: usize) -> Self {
+        Layers { merged: SpansBuilder::new(len).build(), ..Layers::default() }
+    }
+
     pub fn get_merged(&self) -> &Spans<Style> {
         &self.merged
     }
-- 
2.43.0


From a49ad8e733738bb4af2d6e173589c37d655ecc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 58/77] fix: annotations stay with the text they were set for

---
 rust/core-lib/src/annotations.rs   | 102 ++++++++++++++++++++++-------
 rust/core-lib/src/event_context.rs |   3 +-
 rust/core-lib/src/view.rs          |   9 ++-
 3 files changed, 85 insertions(+), 29 deletions(-)

diff --git a/rust/core-lib/src/annotations.rs b/rust/core-lib/src/annotations.rs
index 5143d52..044ea1e 100644
--- a/rust/core-lib/src/annotations.rs
+++ b/rust/core-lib/src/annotations.rs
@@ -23,8 +23,8 @@ use std::collections::HashMap;
 use crate::line_offset::LineOffset;
 use crate::plugins::PluginId;
 use crate::view::View;
-use crate::xi_rope::spans::Spans;
-use crate::xi_rope::{Interval, Rope};
+use crate::xi_rope::spans::{Spans, SpansBuilder};
+use crate::xi_rope::{DeltaElement, Interval, Rope, RopeDelta};
 
 #[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
 pub enum AnnotationType {
@@ -94,12 +94,66 @@ pub struct Annotations {
 impl Annotations {
     /// Update the annotations in `interval` with the provided `items`.
     pub fn update(&mut self, interval: Interval, items: Spans<Value>) {
-        self.items.edit(interval, items);
+        let mut spans: Vec<(Interval, Value)> = Vec::new();
+        // parts of annotations that are outside of the interval are kept
+        for (iv, data) in self.items.iter() {
+            if iv.start() < interval.start() {
+                let end = iv.end().min(interval.start());
+                spans.push((Interval::new(iv.start(), end), data.clone()));
+            }
+            if iv.end() > interval.end() {
+                let start = iv.start().max(interval.end());
+                spans.push((Interval::new(start, iv.end()), data.clone()));
+            }
+        }
+        for (iv, data) in items.iter() {
+            spans.push((iv.translate(interval.start()), data.clone()));
+        }
+        self.set_spans(spans);
     }
 
-    /// Remove annotations intersecting `interval`.
-    pub fn invalidate(&mut self, interval: Interval) {
-        self.items.delete_after(interval);
+    /// Moves the annotations along with the text they are for, which was changed by `delta`.
+    /// Annotations of which no text is left are removed.
+    pub fn apply_delta(&mut self, delta: &RopeDelta) {
+        let mut spans: Vec<(Interval, Value)> = Vec::new();
+        for (iv, data) in self.items.iter() {
+            let mut new_iv: Option<Interval> = None;
+            let mut offset = 0;
+            for elem in &delta.els {
+                match *elem {
+                    DeltaElement::Copy(start, end) => {
+                        let (start_in, end_in) = (iv.start().max(start), iv.end().min(end));
+                        if start_in < end_in || (start_in == end_in && iv.is_empty()) {
+                            let part = Interval::new(
+                                offset + start_in - start,
+                                offset + end_in - start,
+                            );
+                            new_iv = match new_iv {
+                                Some(first) if iv.is_empty() => Some(first),
+                                Some(first) => Some(Interval::new(first.start(), part.end())),
+                                None => Some(part),
+                            };
+                        }
+                        offset += end - start;
+                    }
+                    DeltaElement::Insert(ref n) => offset += n.len(),
+                }
+            }
+            if let Some(new_iv) = new_iv {
+                spans.push((new_iv, data.clone()));
+            }
+        }
+        self.set_spans(spans);
+    }
+
+    fn set_spans(&mut self, mut spans: Vec<(Interval, Value)>) {
+        spans.sort_by_key(|(iv, _)| iv.start());
+        let len = spans.iter().map(|(iv, _)| iv.end()).max().unwrap_or(0);
+        let mut sb = SpansBuilder::new(len);
+        for (iv, data) in spans {
+            sb.add_span(iv, data);
+        }
+        self.items = sb.build();
     }
 }
 
@@ -150,30 +204,28 @@ impl AnnotationStore {
         AnnotationStore { store: HashMap::new() }
     }
 
-    /// Invalidates and removes all annotations in the range of the interval.
-    pub fn invalidate(&mut self, interval: Interval) {
+    /// Moves all annotations along with the text they are for, which was changed by `delta`.
+    pub fn apply_delta(&mut self, delta: &RopeDelta) {
         self.store
             .values_mut()
             .map(|v| v.iter_mut())
             .flatten()
-            .for_each(|a| a.invalidate(interval));
+            .for_each(|a| a.apply_delta(delta));
     }
 
     /// Applies an update from a plugin to a set of annotations
     pub fn update(&mut self, source: PluginId, interval: Interval, item: Annotations) {
-        if !self.store.contains_key(&source) {
-            self.store.insert(source, vec![item]);
-            return;
-        }
-
-        let entry = self.store.get_mut(&source).unwrap();
-        if let Some(annotation) =
-            entry.iter_mut().find(|a| a.annotation_type == item.annotation_type)
-        {
-            annotation.update(interval, item.items);
-        } else {
-            entry.push(item);
-        }
+        let Annotations { items, annotation_type } = item;
+        let entry = self.store.entry(source).or_insert_with(Vec::new);
+        let ix = match entry.iter().position(|a| a.annotation_type == annotation_type) {
+            Some(ix) => ix,
+            None => {
+                let items = SpansBuilder::new(0).build();
+                entry.push(Annotations { items, annotation_type });
+                entry.len() - 1
+            }
+        };
+        entry[ix].update(interval, items);
     }
 
     /// Returns an iterator which produces, for each type of annotation,
@@ -215,9 +267,9 @@ impl AnnotationStore {
         })
     }
 
-    /// Removes any annotations provided by this plugin
-    pub fn clear(&mut self, plugin: PluginId) {
-        self.store.remove(&plugin);
+    /// Removes any annotations provided by this plugin. Returns `true` if there were any.
+    pub fn clear(&mut self, plugin: PluginId) -> bool {
+        self.store.remove(&plugin).is_some()
     }
 }
 
diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 9088441..64e1250 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -516,11 +516,12 @@ impl<'a> EventContext<'a> {
     pub(crate) fn plugin_stopped(&mut self, plugin: &Plugin) {
         self.client.plugin_stopped(self.view_id, &plugin.name, 0);
         let needs_render = self.with_editor(|ed, view, _, _| {
+            let had_annotations = view.clear_annotations(plugin.id);
             if ed.get_layers_mut().remove_layer(plugin.id).is_some() {
                 view.set_dirty(ed.get_buffer());
                 true
             } else {
-                false
+                had_annotations
             }
         });
         if needs_render {
diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index aa1554b..59660ce 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -455,6 +455,11 @@ impl View {
         self.annotations.update(plugin, interval, annotations)
     }
 
+    /// Removes the annotations of a plugin. Returns `true` if there were any.
+    pub fn clear_annotations(&mut self, plugin: PluginId) -> bool {
+        self.annotations.clear(plugin)
+    }
+
     /// Select entire buffer.
     ///
     /// Note: unlike movement based selection, this does not scroll.
@@ -1010,9 +1015,7 @@ impl View {
         // the front-end, but perhaps not for async edits.
         self.drag_state = None;
 
-        // all annotations that come after the edit need to be invalidated
-        let (iv, _) = delta.summary();
-        self.annotations.invalidate(iv);
+        self.annotations.apply_delta(delta);
 
         // update only find highlights affected by change
         let mut other_lines_changed = false;
-- 
2.43.0


From 954618242bb117bf5ef762560717f4f58a1475c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 59/77] fix: resolve styles for the edited region of the new
 text

---
 rust/core-lib/src/layers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index a101245..0d7f3d4 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -86,8 +86,8 @@ impl Layers {
         for layer in self.layers.values_mut() {
             layer.blank_scopes(delta);
         }
-        let (iv, _len) = delta.summary();
-        self.resolve_styles(iv);
+        let (iv, new_len) = delta.summary();
+        self.resolve_styles(Interval::new(iv.start(), iv.start() + new_len));
     }
 
     /// Updates the scope spans for a given layer.
-- 
2.43.0


From e5ad8161f22f08299b164ed6c60e896478b393b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 60/77] fix: ignore invalid default settings of a language

---
 rust/core-lib/src/config.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/config.rs b/rust/core-lib/src/config.rs
index b321541..1d5c269 100644
--- a/rust/core-lib/src/config.rs
+++ b/rust/core-lib/src/config.rs
@@ -415,7 +415,14 @@ impl ConfigManager {
         for language in languages.iter() {
             let lang_id = language.name.clone();
             let domain: ConfigDomain = lang_id.into();
-            let default_config = language.default_config.clone();
+            let default_config =
+                language.default_config.clone().filter(|table| match self.check_table(table) {
+                    Ok(_) => true,
+                    Err(e) => {
+                        error!("Error in default config for {:?}: {}", domain, e);
+                        false
+                    }
+                });
             self.configs
                 .entry(domain.clone())
                 .and_modify(|c| *c = c.new_with_base(default_config.clone()))
-- 
2.43.0


From a05e5e71f428ed0f2d8b1f383cad8f1b03120d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 61/77] fix: find the settings file of a language whose name
 contains a dot

---
 rust/core-lib/src/config.rs          | 2 +-
 rust/core-lib/src/plugins/catalog.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/config.rs b/rust/core-lib/src/config.rs
index 1d5c269..753db6b 100644
--- a/rust/core-lib/src/config.rs
+++ b/rust/core-lib/src/config.rs
@@ -443,7 +443,7 @@ impl ConfigManager {
         let path = self
             .config_dir
             .as_ref()
-            .map(|p| p.join(domain.file_stem()).with_extension("xiconfig"))?;
+            .map(|p| p.join(format!("{}.xiconfig", domain.file_stem())))?;
 
         if !path.exists() {
             return None;
diff --git a/rust/core-lib/src/plugins/catalog.rs b/rust/core-lib/src/plugins/catalog.rs
index 8b7b30f..434db63 100644
--- a/rust/core-lib/src/plugins/catalog.rs
+++ b/rust/core-lib/src/plugins/catalog.rs
@@ -134,8 +134,7 @@ fn load_manifest(path: &Path) -> Result<PluginDescription, PluginLoadError> {
     }
 
     for lang in &mut manifest.languages {
-        let lang_config_path =
-            path.parent().unwrap().join(&lang.name.as_ref()).with_extension("toml");
+        let lang_config_path = path.parent().unwrap().join(format!("{}.toml", lang.name.as_ref()));
         if !lang_config_path.exists() {
             continue;
         }
-- 
2.43.0


From 18b12ba836e7aafa633cbfe751a9a653ba804515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 62/77] fix: give a buffer saved to a file of no known language
 the language Plain Text

---
 rust/core-lib/src/config.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/config.rs b/rust/core-lib/src/config.rs
index 753db6b..3d5758c 100644
--- a/rust/core-lib/src/config.rs
+++ b/rust/core-lib/src/config.rs
@@ -26,6 +26,9 @@ use serde_json::{self, Value};
 use crate::syntax::{LanguageId, Languages};
 use crate::tabs::{BufferId, ViewId};
 
+/// The name of the language of a file which belongs to no known language.
+const PLAIN_TEXT: &str = "Plain Text";
+
 /// Loads the included base config settings.
 fn load_base_config() -> Table {
     fn load(default: &str) -> Table {
@@ -284,8 +287,9 @@ impl ConfigManager {
     ///
     /// Panics if `id` already exists.
     pub(crate) fn add_buffer(&mut self, id: BufferId, path: Option<&Path>) -> Table {
-        let lang =
-            path.and_then(|p| self.language_for_path(p)).unwrap_or(LanguageId::from("Plain Text"));
+        let lang = path
+            .and_then(|p| self.language_for_path(p))
+            .unwrap_or_else(|| LanguageId::from(PLAIN_TEXT));
         let lang_tag = LanguageTag::new(lang);
         assert!(self.buffer_tags.insert(id, lang_tag).is_none());
         self.update_buffer_config(id).expect("new buffer must always have config")
@@ -298,7 +302,7 @@ impl ConfigManager {
     /// Panics if `id` does not exist.
     pub(crate) fn update_buffer_path(&mut self, id: BufferId, path: &Path) -> Option<Table> {
         assert!(self.buffer_tags.contains_key(&id));
-        let lang = self.language_for_path(path).unwrap_or_default();
+        let lang = self.language_for_path(path).unwrap_or_else(|| LanguageId::from(PLAIN_TEXT));
         let has_changed = self.buffer_tags.get_mut(&id).map(|tag| tag.set_detected(lang)).unwrap();
 
         if has_changed {
-- 
2.43.0


From 87c86d7559738aa40e7f9bc5d62064d8ace2b555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 63/77] Add hooks for running plugins in a simulator (cfg
 xi_sim, off by default)

---
 rust/plugin-lib/src/base_cache.rs | 28 +++++++++++++++++++++-------
 rust/plugin-lib/src/lib.rs        | 22 ++++++++++++++++++++++
 2 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/rust/plugin-lib/src/base_cache.rs b/rust/plugin-lib/src/base_cache.rs
index ba42125..e4a263b 100644
--- a/rust/plugin-lib/src/base_cache.rs
+++ b/rust/plugin-lib/src/base_cache.rs
@@ -31,6 +31,20 @@ const CHUNK_SIZE: usize = 1024 * 1024;
 #[cfg(test)]
 const CHUNK_SIZE: usize = 16;
 
+/// The size of the chunks in which the document is fetched.
+#[cfg(not(xi_sim))]
+fn chunk_size() -> usize {
+    CHUNK_SIZE
+}
+
+#[cfg(xi_sim)]
+fn chunk_size() -> usize {
+    match crate::sim::CHUNK_SIZE.load(std::sync::atomic::Ordering::SeqCst) {
+        0 => CHUNK_SIZE,
+        size => size,
+    }
+}
+
 /// A simple cache, holding a single contiguous chunk of the document.
 #[derive(Debug, Clone, Default)]
 pub struct ChunkCache {
@@ -88,7 +102,7 @@ impl Cache for ChunkCache {
             || (line_num == self.first_line && self.first_line_offset > 0)
             || (line_num > self.first_line + self.line_offsets.len())
         {
-            let resp = source.get_data(line_num, TextUnit::Line, CHUNK_SIZE, self.rev)?;
+            let resp = source.get_data(line_num, TextUnit::Line, chunk_size(), self.rev)?;
             self.reset_chunk(resp);
         }
 
@@ -109,7 +123,7 @@ impl Cache for ChunkCache {
             }
 
             let chunk_end = self.offset + self.contents.len();
-            let resp = source.get_data(chunk_end, TextUnit::Utf8, CHUNK_SIZE, self.rev)?;
+            let resp = source.get_data(chunk_end, TextUnit::Utf8, chunk_size(), self.rev)?;
             self.append_chunk(&resp);
         }
     }
@@ -124,7 +138,7 @@ impl Cache for ChunkCache {
             || start < self.offset
             || start >= self.offset + self.contents.len()
         {
-            let resp = source.get_data(start, TextUnit::Utf8, CHUNK_SIZE, self.rev)?;
+            let resp = source.get_data(start, TextUnit::Utf8, chunk_size(), self.rev)?;
             self.reset_chunk(resp);
         }
 
@@ -140,7 +154,7 @@ impl Cache for ChunkCache {
             }
 
             let chunk_end = self.offset + self.contents.len();
-            let resp = source.get_data(chunk_end, TextUnit::Utf8, CHUNK_SIZE, self.rev)?;
+            let resp = source.get_data(chunk_end, TextUnit::Utf8, chunk_size(), self.rev)?;
             self.append_chunk(&resp);
         }
     }
@@ -153,7 +167,7 @@ impl Cache for ChunkCache {
         let mut cur_idx = 0;
         while cur_idx < self.buf_size {
             if self.contents.is_empty() || cur_idx != self.offset {
-                let resp = source.get_data(cur_idx, TextUnit::Utf8, CHUNK_SIZE, self.rev)?;
+                let resp = source.get_data(cur_idx, TextUnit::Utf8, chunk_size(), self.rev)?;
                 self.reset_chunk(resp);
             }
             result.push_str(&self.contents);
@@ -173,7 +187,7 @@ impl Cache for ChunkCache {
         match self.cached_offset_of_line(line_num) {
             Some(offset) => Ok(offset),
             None => {
-                let resp = source.get_data(line_num, TextUnit::Line, CHUNK_SIZE, self.rev)?;
+                let resp = source.get_data(line_num, TextUnit::Line, chunk_size(), self.rev)?;
                 self.reset_chunk(resp);
                 self.offset_of_line(source, line_num)
             }
@@ -192,7 +206,7 @@ impl Cache for ChunkCache {
             || offset < self.offset
             || offset > self.offset + self.contents.len()
         {
-            let resp = source.get_data(offset, TextUnit::Utf8, CHUNK_SIZE, self.rev)?;
+            let resp = source.get_data(offset, TextUnit::Utf8, chunk_size(), self.rev)?;
             self.reset_chunk(resp);
         }
 
diff --git a/rust/plugin-lib/src/lib.rs b/rust/plugin-lib/src/lib.rs
index 0eea5e8..b32bb3b 100644
--- a/rust/plugin-lib/src/lib.rs
+++ b/rust/plugin-lib/src/lib.rs
@@ -210,3 +210,25 @@ pub fn mainloop<P: Plugin>(plugin: &mut P) -> Result<(), ReadError> {
 
     rpc_looper.mainloop(|| stdin.lock(), &mut dispatcher)
 }
+
+/// Hooks for running plugins inside of a simulator.
+#[cfg(xi_sim)]
+pub mod sim {
+    use super::*;
+    use std::io::{BufRead, Write};
+    use std::sync::atomic::AtomicUsize;
+
+    /// Overrides the size of the chunks in which documents are fetched, if not 0.
+    pub static CHUNK_SIZE: AtomicUsize = AtomicUsize::new(0);
+
+    /// Like `mainloop`, with something else than the standard streams of the process.
+    pub fn mainloop_with<P: Plugin, R: BufRead, W: Write + Send + 'static>(
+        plugin: &mut P,
+        reader: impl Send + FnOnce() -> R,
+        writer: W,
+    ) -> Result<(), ReadError> {
+        let mut rpc_looper = RpcLoop::new(writer);
+        let mut dispatcher = Dispatcher::new(plugin);
+        rpc_looper.mainloop(reader, &mut dispatcher)
+    }
+}
-- 
2.43.0


From 57fe5a92b32dfebd84093e78b8d1e4f5e8dc409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 64/77] fix: keep all pending work of the state cache across
 edits

---
 rust/plugin-lib/src/state_cache.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/rust/plugin-lib/src/state_cache.rs b/rust/plugin-lib/src/state_cache.rs
index dbb1bf7..d327c94 100644
--- a/rust/plugin-lib/src/state_cache.rs
+++ b/rust/plugin-lib/src/state_cache.rs
@@ -304,19 +304,25 @@ impl<S: Clone + Default> StateCache<S> {
             0 => 0,
             ix => self.state_cache[ix - 1].line_num,
         };
+        // The work that starts at `line_num` also covers whatever is to be done before the first
+        // entry after the edit. The work beyond of that one has just moved with its line.
+        let resume = self
+            .state_cache
+            .get(cache_idx)
+            .map(|entry| (entry.line_num as isize - nl_count_delta) as usize);
         let mut new_frontier = Vec::new();
         let mut need_push = true;
-        for old_ln in &self.frontier {
-            if *old_ln < line_num {
-                new_frontier.push(*old_ln);
-            } else if need_push {
+        for &old_ln in &self.frontier {
+            if old_ln < line_num {
+                new_frontier.push(old_ln);
+                continue;
+            }
+            if need_push {
                 new_frontier.push(line_num);
                 need_push = false;
-                if let Some(ref entry) = self.state_cache.get(cache_idx) {
-                    if *old_ln >= entry.line_num {
-                        new_frontier.push(old_ln.wrapping_add(nl_count_delta as usize));
-                    }
-                }
+            }
+            if resume.map_or(false, |resume| old_ln >= resume) {
+                new_frontier.push((old_ln as isize + nl_count_delta) as usize);
             }
         }
         if need_push {
-- 
2.43.0


From c50a9b0e1c667242ab760d9bacdd7267c17e4a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 65/77] fix: let playing a recording that edits nothing leave
 the undo history alone

---
 rust/core-lib/src/editor.rs        | 10 +++++++++-
 rust/core-lib/src/event_context.rs |  6 ++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index fee87a1..65755a4 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -15,6 +15,7 @@
 use std::borrow::{Borrow, Cow};
 use std::cmp::min;
 use std::collections::BTreeSet;
+use std::mem;
 
 use serde_json::Value;
 
@@ -70,6 +71,8 @@ pub struct Editor {
     /// undo groups that are no longer live and should be gc'ed
     gc_undos: BTreeSet<usize>,
     force_undo_group: bool,
+    /// The next edit begins the undo group that edits are forced into.
+    begin_undo_group: bool,
 
     this_edit_type: EditType,
     last_edit_type: EditType,
@@ -112,6 +115,7 @@ impl Editor {
             undos: BTreeSet::new(),
             gc_undos: BTreeSet::new(),
             force_undo_group: false,
+            begin_undo_group: false,
             last_edit_type: EditType::Other,
             this_edit_type: EditType::Other,
             layers,
@@ -163,8 +167,11 @@ impl Editor {
     ///
     /// This is used for things such as recording playback, where you don't want the
     /// individual events to be undoable, but instead the entire playback should be.
+    ///
+    /// The undo group begins with the first edit, if there is any.
     pub(crate) fn set_force_undo_group(&mut self, force_undo_group: bool) {
         trace_payload("Editor::set_force_undo_group", &["core"], force_undo_group.to_string());
+        self.begin_undo_group = force_undo_group;
         self.force_undo_group = force_undo_group;
     }
 
@@ -210,10 +217,11 @@ impl Editor {
 
     pub(crate) fn calculate_undo_group(&mut self) -> usize {
         let has_undos = !self.live_undos.is_empty();
+        let begin_undo_group = mem::replace(&mut self.begin_undo_group, false);
         let force_undo_group = self.force_undo_group;
         let is_unbroken_group = !self.this_edit_type.breaks_undo_group(self.last_edit_type);
 
-        if has_undos && (force_undo_group || is_unbroken_group) {
+        if has_undos && !begin_undo_group && (force_undo_group || is_unbroken_group) {
             *self.live_undos.last().unwrap()
         } else {
             let undo_group = self.undo_group_id;
diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 64e1250..5c89400 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -183,11 +183,9 @@ impl<'a> EventContext<'a> {
 
                 let starting_revision = self.editor.borrow_mut().get_head_rev_token();
 
-                // Don't group with the previous action
+                // No matter what, our entire block must belong to the same undo group, which is
+                // not that of the previous action
                 self.editor.borrow_mut().update_edit_type();
-                self.editor.borrow_mut().calculate_undo_group();
-
-                // No matter what, our entire block must belong to the same undo group
                 self.editor.borrow_mut().set_force_undo_group(true);
                 recorder.play(&recording_name, |event| {
                     self.dispatch_event(event.clone());
-- 
2.43.0


From c09148a1e93f8a11f4009214cd0195fcfb9ad8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 66/77] fix: record cut

---
 rust/core-lib/src/edit_types.rs    |  1 +
 rust/core-lib/src/editor.rs        |  3 +++
 rust/core-lib/src/event_context.rs | 10 ++++++++--
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/edit_types.rs b/rust/core-lib/src/edit_types.rs
index 761b4bf..b4c743a 100644
--- a/rust/core-lib/src/edit_types.rs
+++ b/rust/core-lib/src/edit_types.rs
@@ -64,6 +64,7 @@ pub(crate) enum BufferEvent {
     Capitalize,
     Indent,
     Outdent,
+    Cut,
     Insert(String),
     Paste(String),
     InsertNewline,
diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 65755a4..955a75b 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -594,6 +594,9 @@ impl Editor {
             Outdent => self.do_modify_indent(view, config, IndentDirection::Out),
             InsertNewline => self.do_insert_newline(view, config),
             InsertTab => self.do_insert_tab(view, config),
+            Cut => {
+                self.do_cut(view);
+            }
             Insert(chars) => self.do_insert(view, config, &chars),
             Paste(chars) => self.do_paste(view, &chars),
             Yank => self.do_yank(view, kill_ring),
diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 5c89400..fefb18d 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -33,7 +33,7 @@ use crate::rpc::{EditNotification, EditRequest, LineRange, Position as ClientPos
 
 use crate::client::Client;
 use crate::config::{BufferItems, Table};
-use crate::edit_types::{EventDomain, SpecialEvent};
+use crate::edit_types::{BufferEvent, EventDomain, SpecialEvent};
 use crate::editor::Editor;
 use crate::file::FileInfo;
 use crate::line_offset::LineOffset;
@@ -218,7 +218,13 @@ impl<'a> EventContext<'a> {
     pub(crate) fn do_edit_sync(&mut self, cmd: EditRequest) -> Result<Value, RemoteError> {
         use self::EditRequest::*;
         let result = match cmd {
-            Cut => Ok(self.with_editor(|ed, view, _, _| ed.do_cut(view))),
+            Cut => {
+                let mut recorder = self.recorder.borrow_mut();
+                if recorder.is_recording() {
+                    recorder.record(BufferEvent::Cut.into());
+                }
+                Ok(self.with_editor(|ed, view, _, _| ed.do_cut(view)))
+            }
             Copy => Ok(self.with_editor(|ed, view, _, _| ed.do_copy(view))),
         };
         self.after_edit("core");
-- 
2.43.0


From 4c2c6a27e593719624cff1bac6bb9c4e03225dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:33 +0000
Subject: [PATCH 67/77] fix: do not carry the type of an edit over to the next
 one of a playback

---
 rust/core-lib/src/event_context.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index fefb18d..d51ff41 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -196,6 +196,9 @@ impl<'a> EventContext<'a> {
                         None => return,
                     };
                     self.update_views(&editor, &delta, &last_text, drift);
+
+                    // As after any other edit; its type must not carry over to the next one
+                    editor.update_edit_type();
                 });
                 self.editor.borrow_mut().set_force_undo_group(false);
 
-- 
2.43.0


From f58b37f15534239448bcd3c082c651f7d7980ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 68/77] fix: record typing over a selection by itself

---
 rust/core-lib/src/event_context.rs |  5 +++++
 rust/core-lib/src/recorder.rs      | 28 +++++++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index d51ff41..fc9f3c1 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -123,6 +123,11 @@ impl<'a> EventContext<'a> {
                 (true, EventDomain::Special(_)) => {
                     warn!("Special events cannot be recorded-- ignoring event {:?}", event)
                 }
+                (true, EventDomain::Buffer(BufferEvent::Insert(_)))
+                    if !self.view.borrow().sel_regions().iter().all(|r| r.is_caret()) =>
+                {
+                    recorder.record_separately(event.clone())
+                }
                 (true, event) => recorder.record(event.clone()),
                 _ => {}
             }
diff --git a/rust/core-lib/src/recorder.rs b/rust/core-lib/src/recorder.rs
index 3afffd4..1b24c03 100644
--- a/rust/core-lib/src/recorder.rs
+++ b/rust/core-lib/src/recorder.rs
@@ -17,6 +17,7 @@
 //! Clients can store multiple, named recordings.
 
 use std::collections::HashMap;
+use std::mem;
 
 use xi_trace::trace_block;
 
@@ -27,6 +28,8 @@ pub(crate) struct Recorder {
     active_recording: Option<String>,
     recording_buffer: Vec<EventDomain>,
     recordings: HashMap<String, Recording>,
+    /// Whether the next insert may be merged with the event that was recorded last.
+    can_merge: bool,
 }
 
 impl Recorder {
@@ -35,6 +38,7 @@ impl Recorder {
             active_recording: None,
             recording_buffer: Vec::new(),
             recordings: HashMap::new(),
+            can_merge: true,
         }
     }
 
@@ -83,9 +87,10 @@ impl Recorder {
     pub(crate) fn record(&mut self, current_event: EventDomain) {
         assert!(self.is_recording());
 
+        let can_merge = mem::replace(&mut self.can_merge, true);
         let recording_buffer = &mut self.recording_buffer;
 
-        if recording_buffer.last().is_none() {
+        if recording_buffer.last().is_none() || !can_merge {
             recording_buffer.push(current_event);
             return;
         }
@@ -105,6 +110,19 @@ impl Recorder {
         recording_buffer.push(current_event);
     }
 
+    /// Saves an event into the currently active recording, which is not merged with the events
+    /// before and after it.
+    ///
+    /// This is for typing over a selection: what is typed can surround it instead of replacing
+    /// it, and selections next to each other become one cursor. What is typed next then does
+    /// something else than it would if it was inserted along with the first character.
+    pub(crate) fn record_separately(&mut self, current_event: EventDomain) {
+        assert!(self.is_recording());
+
+        self.recording_buffer.push(current_event);
+        self.can_merge = false;
+    }
+
     /// Iterates over a specified recording's buffer and runs the specified action
     /// on each event.
     pub(crate) fn play<F>(&self, recording_name: &str, action: F)
@@ -139,6 +157,8 @@ impl Recorder {
     fn save_recording_buffer(&mut self, recording_name: String) {
         let mut saw_undo = false;
         let mut saw_redo = false;
+        // Sequential inserts are undone together
+        let mut undoing_inserts = false;
 
         // Walk the recording backwards and remove any undo / redo events
         let filtered: Vec<EventDomain> = self
@@ -147,6 +167,12 @@ impl Recorder {
             .into_iter()
             .rev()
             .filter(|event| {
+                let is_insert = matches!(event, EventDomain::Buffer(BufferEvent::Insert(_)));
+                if undoing_inserts && is_insert {
+                    return false;
+                }
+                undoing_inserts = saw_undo && is_insert;
+
                 if let EventDomain::Buffer(event) = event {
                     return match event {
                         BufferEvent::Undo => {
-- 
2.43.0


From 02cde149e543cb3a42fc27e4f3c4c1e60435aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 69/77] fix: save the samples of the tracer itself, not those
 of the global one

---
 rust/trace/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/trace/src/lib.rs b/rust/trace/src/lib.rs
index cea84e6..d9aa68e 100644
--- a/rust/trace/src/lib.rs
+++ b/rust/trace/src/lib.rs
@@ -817,7 +817,8 @@ impl Trace {
         path: P,
         sort: bool,
     ) -> Result<(), chrome_trace_dump::Error> {
-        let traces = if sort { samples_cloned_sorted() } else { samples_cloned_unsorted() };
+        let traces =
+            if sort { self.samples_cloned_sorted() } else { self.samples_cloned_unsorted() };
         let path: &Path = path.as_ref();
 
         if path.exists() {
-- 
2.43.0


From 0fb22b8297aa9fd54eebef81d7d0416d3ce0cafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 70/77] fix: refuse a trace sample of an unknown type instead
 of panicking

---
 rust/trace/src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rust/trace/src/lib.rs b/rust/trace/src/lib.rs
index d9aa68e..b74877c 100644
--- a/rust/trace/src/lib.rs
+++ b/rust/trace/src/lib.rs
@@ -273,8 +273,8 @@ impl SampleEventType {
     }
 
     #[inline]
-    fn from_chrome_id(symbol: char) -> Self {
-        match symbol {
+    fn from_chrome_id(symbol: char) -> Option<Self> {
+        let event_type = match symbol {
             'B' => SampleEventType::DurationBegin,
             'E' => SampleEventType::DurationEnd,
             'X' => SampleEventType::CompleteDuration,
@@ -289,8 +289,9 @@ impl SampleEventType {
             'O' => SampleEventType::ObjectSnapshot,
             'D' => SampleEventType::ObjectDestroyed,
             'M' => SampleEventType::Metadata,
-            _ => panic!("Unexpected chrome sample type '{}'", symbol),
-        }
+            _ => return None,
+        };
+        Some(event_type)
     }
 }
 
@@ -376,7 +377,10 @@ fn deserialize_event_type<'de, D>(d: D) -> Result<SampleEventType, D::Error>
 where
     D: serde::Deserializer<'de>,
 {
-    serde::Deserialize::deserialize(d).map(SampleEventType::from_chrome_id)
+    let symbol: char = serde::Deserialize::deserialize(d)?;
+    SampleEventType::from_chrome_id(symbol).ok_or_else(|| {
+        serde::de::Error::custom(format!("unexpected chrome sample type '{}'", symbol))
+    })
 }
 
 /// Stores the relevant data about a sample for later serialization.
-- 
2.43.0


From b9c3926a7c17f124cc1f4ce7707cef1557b9ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:38 +0000
Subject: [PATCH 71/77] fix: open documents in the language server once it is
 initialized, as they are then

---
 rust/lsp-lib/src/language_server_client.rs | 10 +++++++
 rust/lsp-lib/src/lsp_plugin.rs             | 33 ++++++++++++++++++++--
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/rust/lsp-lib/src/language_server_client.rs b/rust/lsp-lib/src/language_server_client.rs
index c0db1ef..6b6459c 100644
--- a/rust/lsp-lib/src/language_server_client.rs
+++ b/rust/lsp-lib/src/language_server_client.rs
@@ -38,6 +38,9 @@ pub struct LanguageServerClient {
     pub status_items: HashSet<String>,
     pub core: CoreProxy,
     pub is_initialized: bool,
+    pub is_initializing: bool,
+    /// Documents to be opened, with their text, once the server is initialized.
+    pub pending_documents: HashMap<ViewId, (Url, String)>,
     pub opened_documents: HashMap<ViewId, Url>,
     pub server_capabilities: Option<ServerCapabilities>,
     pub file_extensions: Vec<String>,
@@ -72,6 +75,8 @@ impl LanguageServerClient {
             pending: HashMap::new(),
             next_id: 1,
             is_initialized: false,
+            is_initializing: false,
+            pending_documents: HashMap::new(),
             core,
             result_queue,
             status_items: HashSet::new(),
@@ -204,6 +209,11 @@ impl LanguageServerClient {
         self.send_request("initialize", params, Box::new(on_init));
     }
 
+    /// Whether the Language Server has been told about the document of the view
+    pub fn is_open(&self, view_id: ViewId) -> bool {
+        self.opened_documents.contains_key(&view_id)
+    }
+
     /// Send textDocument/didOpen Notification to the Language Server
     pub fn send_did_open(&mut self, view_id: ViewId, document_uri: Url, document_text: String) {
         self.opened_documents.insert(view_id, document_uri.clone());
diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index d05122c..113f6e7 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -77,6 +77,14 @@ impl Plugin for LspPlugin {
             let ls_client = &self.language_server_clients[&view_info.ls_identifier];
             let mut ls_client = ls_client.lock().unwrap();
 
+            if !ls_client.is_open(view.get_id()) {
+                // It will be opened as it is now
+                if let Some(document) = ls_client.pending_documents.get_mut(&view.get_id()) {
+                    document.1 = view.get_document().unwrap();
+                }
+                return;
+            }
+
             let sync_kind = ls_client.get_sync_kind();
             view_info.version += 1;
             if let Some(changes) = get_change_for_sync_kind(sync_kind, view, delta) {
@@ -90,7 +98,9 @@ impl Plugin for LspPlugin {
 
         let document_text = view.get_document().unwrap();
         self.with_language_server_for_view(view, |ls_client| {
-            ls_client.send_did_save(view.get_id(), &document_text);
+            if ls_client.is_open(view.get_id()) {
+                ls_client.send_did_save(view.get_id(), &document_text);
+            }
         });
     }
 
@@ -98,8 +108,12 @@ impl Plugin for LspPlugin {
         trace!("close view {}", view.get_id());
 
         self.with_language_server_for_view(view, |ls_client| {
-            ls_client.send_did_close(view.get_id());
+            ls_client.pending_documents.remove(&view.get_id());
+            if ls_client.is_open(view.get_id()) {
+                ls_client.send_did_close(view.get_id());
+            }
         });
+        self.view_info.remove(&view.get_id());
     }
 
     fn new_view(&mut self, view: &mut View<Self::Cache>) {
@@ -134,6 +148,11 @@ impl Plugin for LspPlugin {
                 let document_uri = Url::from_file_path(path).unwrap();
 
                 if !ls_client.is_initialized {
+                    ls_client.pending_documents.insert(view_id, (document_uri, document_text));
+                    if ls_client.is_initializing {
+                        return;
+                    }
+                    ls_client.is_initializing = true;
                     ls_client.send_initialize(workspace_root_uri, move |ls_client, result| {
                         if let Ok(result) = result {
                             let init_result: InitializeResult =
@@ -143,7 +162,10 @@ impl Plugin for LspPlugin {
 
                             ls_client.server_capabilities = Some(init_result.capabilities);
                             ls_client.is_initialized = true;
-                            ls_client.send_did_open(view_id, document_uri, document_text);
+                            let documents = std::mem::take(&mut ls_client.pending_documents);
+                            for (view_id, (document_uri, document_text)) in documents {
+                                ls_client.send_did_open(view_id, document_uri, document_text);
+                            }
                         }
                     });
                 } else {
@@ -160,6 +182,11 @@ impl Plugin for LspPlugin {
         let position_ls = get_position_of_offset(view, position);
 
         self.with_language_server_for_view(view, |ls_client| match position_ls {
+            Ok(_) if !ls_client.is_open(view_id) => {
+                let res = Err(LanguageResponseError::NullResponse);
+                ls_client.result_queue.push_result(request_id, LspResponse::Hover(res));
+                ls_client.core.schedule_idle(view_id);
+            }
             Ok(position) => ls_client.request_hover(view_id, position, move |ls_client, result| {
                 let res = result
                     .map_err(|e| LanguageResponseError::LanguageServerError(format!("{:?}", e)))
-- 
2.43.0


From aef96858945b6afb00a53e87c1334e7cfaf29cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 72/77] fix: compute the range of a deletion in the text before
 it

---
 rust/lsp-lib/src/conversion_utils.rs | 11 +++++++++
 rust/lsp-lib/src/lsp_plugin.rs       | 19 ++++++++++----
 rust/lsp-lib/src/utils.rs            | 37 ++++++++++++++++------------
 3 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/rust/lsp-lib/src/conversion_utils.rs b/rust/lsp-lib/src/conversion_utils.rs
index a9855a7..f526d10 100644
--- a/rust/lsp-lib/src/conversion_utils.rs
+++ b/rust/lsp-lib/src/conversion_utils.rs
@@ -18,6 +18,7 @@
 use crate::lsp_types::*;
 use crate::types::LanguageResponseError;
 use xi_plugin_lib::{Cache, Error as PluginLibError, Hover as CoreHover, Range as CoreRange, View};
+use xi_rope::rope::Rope;
 
 pub(crate) fn marked_string_to_string(marked_string: &MarkedString) -> String {
     match *marked_string {
@@ -71,6 +72,16 @@ pub(crate) fn get_position_of_offset<C: Cache>(
     Ok(Position { line: line_num as u64, character: char_offset as u64 })
 }
 
+/// Get LSP Style Utf-16 based position in the text given the utf-8 offset
+pub(crate) fn get_position_in_text(text: &Rope, offset: usize) -> Position {
+    let line_num = text.line_of_offset(offset);
+    let line_offset = text.offset_of_line(line_num);
+
+    let char_offset = count_utf16(&text.slice_to_cow(line_offset..offset));
+
+    Position { line: line_num as u64, character: char_offset as u64 }
+}
+
 pub(crate) fn offset_of_position<C: Cache>(
     view: &mut View<C>,
     position: Position,
diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index 113f6e7..bccbbe7 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -20,7 +20,7 @@ use std::sync::{Arc, Mutex};
 
 use url::Url;
 use xi_plugin_lib::{ChunkCache, CoreProxy, Plugin, View};
-use xi_rope::rope::RopeDelta;
+use xi_rope::rope::{Rope, RopeDelta};
 
 use crate::conversion_utils::*;
 use crate::language_server_client::LanguageServerClient;
@@ -33,6 +33,8 @@ use crate::xi_core::{ConfigTable, ViewId};
 pub struct ViewInfo {
     version: u64,
     ls_identifier: String,
+    /// The text as of the last update
+    text: Rope,
 }
 
 /// Represents the state of the Language Server Plugin
@@ -77,17 +79,23 @@ impl Plugin for LspPlugin {
             let ls_client = &self.language_server_clients[&view_info.ls_identifier];
             let mut ls_client = ls_client.lock().unwrap();
 
+            let old_text = view_info.text.clone();
+            view_info.text = match delta {
+                Some(delta) => delta.apply(&old_text),
+                None => Rope::from(view.get_document().unwrap()),
+            };
+
             if !ls_client.is_open(view.get_id()) {
                 // It will be opened as it is now
                 if let Some(document) = ls_client.pending_documents.get_mut(&view.get_id()) {
-                    document.1 = view.get_document().unwrap();
+                    document.1 = String::from(&view_info.text);
                 }
                 return;
             }
 
             let sync_kind = ls_client.get_sync_kind();
             view_info.version += 1;
-            if let Some(changes) = get_change_for_sync_kind(sync_kind, view, delta) {
+            if let Some(changes) = get_change_for_sync_kind(sync_kind, view, delta, &old_text) {
                 ls_client.send_did_change(view.get_id(), changes, view_info.version);
             }
         }
@@ -141,8 +149,9 @@ impl Plugin for LspPlugin {
             let result = self.get_lsclient_from_workspace_root(&language_id, &workspace_root_uri);
 
             if let Some((identifier, ls_client)) = result {
-                self.view_info
-                    .insert(view.get_id(), ViewInfo { version: 0, ls_identifier: identifier });
+                let text = Rope::from(&document_text);
+                let view_info = ViewInfo { version: 0, ls_identifier: identifier, text };
+                self.view_info.insert(view.get_id(), view_info);
                 let mut ls_client = ls_client.lock().unwrap();
 
                 let document_uri = Url::from_file_path(path).unwrap();
diff --git a/rust/lsp-lib/src/utils.rs b/rust/lsp-lib/src/utils.rs
index 8537d21..b10d292 100644
--- a/rust/lsp-lib/src/utils.rs
+++ b/rust/lsp-lib/src/utils.rs
@@ -20,7 +20,7 @@ use std::sync::{Arc, Mutex};
 
 use url::Url;
 use xi_plugin_lib::{Cache, ChunkCache, CoreProxy, Error as PluginLibError, View};
-use xi_rope::rope::RopeDelta;
+use xi_rope::rope::{Rope, RopeDelta};
 
 use crate::conversion_utils::*;
 use crate::language_server_client::LanguageServerClient;
@@ -30,9 +30,10 @@ use crate::result_queue::ResultQueue;
 use crate::types::Error;
 
 /// Get contents changes of a document modeled according to Language Server Protocol
-/// given the RopeDelta
+/// given the RopeDelta and the text it applies to
 pub fn get_document_content_changes<C: Cache>(
     delta: Option<&RopeDelta>,
+    old_text: &Rope,
     view: &mut View<C>,
 ) -> Result<Vec<TextDocumentContentChangeEvent>, PluginLibError> {
     if let Some(delta) = delta {
@@ -57,7 +58,8 @@ pub fn get_document_content_changes<C: Cache>(
         }
         // Or a simple delete
         else if delta.is_simple_delete() {
-            let mut end_position = get_position_of_offset(view, end)?;
+            // What is deleted is only in the text before the change
+            let mut end_position = get_position_in_text(old_text, end);
 
             // Hack around sending VSCode Style Positions to Language Server.
             // See this issue to understand: https://github.com/Microsoft/vscode/issues/23173
@@ -65,14 +67,14 @@ pub fn get_document_content_changes<C: Cache>(
                 // There is an assumption here that the line separator character is exactly
                 // 1 byte wide which is true for "\n" but it will be an issue if they are not
                 // for example for u+2028
-                let mut ep = get_position_of_offset(view, end - 1)?;
+                let mut ep = get_position_in_text(old_text, end - 1);
                 ep.character += 1;
                 end_position = ep;
             }
 
             let text_document_content_change_event = TextDocumentContentChangeEvent {
                 range: Some(Range {
-                    start: get_position_of_offset(view, start)?,
+                    start: get_position_in_text(old_text, start),
                     end: end_position,
                 }),
                 range_length: Some((end - start) as u64),
@@ -98,6 +100,7 @@ pub fn get_change_for_sync_kind(
     sync_kind: TextDocumentSyncKind,
     view: &mut View<ChunkCache>,
     delta: Option<&RopeDelta>,
+    old_text: &Rope,
 ) -> Option<Vec<TextDocumentContentChangeEvent>> {
     match sync_kind {
         TextDocumentSyncKind::None => None,
@@ -109,18 +112,20 @@ pub fn get_change_for_sync_kind(
             };
             Some(vec![text_document_content_change_event])
         }
-        TextDocumentSyncKind::Incremental => match get_document_content_changes(delta, view) {
-            Ok(result) => Some(result),
-            Err(err) => {
-                warn!("Error: {:?} Occured. Sending Whole Doc", err);
-                let text_document_content_change_event = TextDocumentContentChangeEvent {
-                    range: None,
-                    range_length: None,
-                    text: view.get_document().unwrap(),
-                };
-                Some(vec![text_document_content_change_event])
+        TextDocumentSyncKind::Incremental => {
+            match get_document_content_changes(delta, old_text, view) {
+                Ok(result) => Some(result),
+                Err(err) => {
+                    warn!("Error: {:?} Occured. Sending Whole Doc", err);
+                    let text_document_content_change_event = TextDocumentContentChangeEvent {
+                        range: None,
+                        range_length: None,
+                        text: view.get_document().unwrap(),
+                    };
+                    Some(vec![text_document_content_change_event])
+                }
             }
-        },
+        }
     }
 }
 
-- 
2.43.0


From 215d8292e49adbed4f19b2dbbb85c33915ab3ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:11 +0000
Subject: [PATCH 73/77] fix: do not panic when the view whose text is to be
 sent is closed already

---
 rust/lsp-lib/src/lsp_plugin.rs | 25 ++++++++++++++++++++++---
 rust/lsp-lib/src/utils.rs      | 30 ++++++++++++++++--------------
 2 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index bccbbe7..7833357 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -82,7 +82,13 @@ impl Plugin for LspPlugin {
             let old_text = view_info.text.clone();
             view_info.text = match delta {
                 Some(delta) => delta.apply(&old_text),
-                None => Rope::from(view.get_document().unwrap()),
+                None => match view.get_document() {
+                    Ok(text) => Rope::from(text),
+                    Err(err) => {
+                        warn!("No text of view {}: {:?}", view.get_id(), err);
+                        return;
+                    }
+                },
             };
 
             if !ls_client.is_open(view.get_id()) {
@@ -104,7 +110,13 @@ impl Plugin for LspPlugin {
     fn did_save(&mut self, view: &mut View<Self::Cache>, _old: Option<&Path>) {
         trace!("saved view {}", view.get_id());
 
-        let document_text = view.get_document().unwrap();
+        let document_text = match view.get_document() {
+            Ok(text) => text,
+            Err(err) => {
+                warn!("No text of view {}: {:?}", view.get_id(), err);
+                return;
+            }
+        };
         self.with_language_server_for_view(view, |ls_client| {
             if ls_client.is_open(view.get_id()) {
                 ls_client.send_did_save(view.get_id(), &document_text);
@@ -127,7 +139,14 @@ impl Plugin for LspPlugin {
     fn new_view(&mut self, view: &mut View<Self::Cache>) {
         trace!("new view {}", view.get_id());
 
-        let document_text = view.get_document().unwrap();
+        // The view may be closed already
+        let document_text = match view.get_document() {
+            Ok(text) => text,
+            Err(err) => {
+                warn!("No text of view {}: {:?}", view.get_id(), err);
+                return;
+            }
+        };
         let path = view.get_path();
         let view_id = view.get_id();
 
diff --git a/rust/lsp-lib/src/utils.rs b/rust/lsp-lib/src/utils.rs
index b10d292..fa9d4c5 100644
--- a/rust/lsp-lib/src/utils.rs
+++ b/rust/lsp-lib/src/utils.rs
@@ -104,31 +104,33 @@ pub fn get_change_for_sync_kind(
 ) -> Option<Vec<TextDocumentContentChangeEvent>> {
     match sync_kind {
         TextDocumentSyncKind::None => None,
-        TextDocumentSyncKind::Full => {
-            let text_document_content_change_event = TextDocumentContentChangeEvent {
-                range: None,
-                range_length: None,
-                text: view.get_document().unwrap(),
-            };
-            Some(vec![text_document_content_change_event])
-        }
+        TextDocumentSyncKind::Full => get_whole_document(view),
         TextDocumentSyncKind::Incremental => {
             match get_document_content_changes(delta, old_text, view) {
                 Ok(result) => Some(result),
                 Err(err) => {
                     warn!("Error: {:?} Occured. Sending Whole Doc", err);
-                    let text_document_content_change_event = TextDocumentContentChangeEvent {
-                        range: None,
-                        range_length: None,
-                        text: view.get_document().unwrap(),
-                    };
-                    Some(vec![text_document_content_change_event])
+                    get_whole_document(view)
                 }
             }
         }
     }
 }
 
+/// Get the change that replaces the whole document, unless its text cannot be had
+/// since the view has been closed
+fn get_whole_document(view: &mut View<ChunkCache>) -> Option<Vec<TextDocumentContentChangeEvent>> {
+    match view.get_document() {
+        Ok(text) => {
+            Some(vec![TextDocumentContentChangeEvent { range: None, range_length: None, text }])
+        }
+        Err(err) => {
+            warn!("No text of view {}: {:?}", view.get_id(), err);
+            None
+        }
+    }
+}
+
 /// Get workspace root using the Workspace Identifier and the opened document path
 /// For example: Cargo.toml can be used to identify a Rust Workspace
 /// This method traverses up to file tree to return the path to the Workspace root folder
-- 
2.43.0


From c22de19b07dca46984a36b1eaab6b338cf86ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:24 +0000
Subject: [PATCH 74/77] fix: show the answers of the language server in the
 views they are for

---
 rust/lsp-lib/src/lsp_plugin.rs   | 14 +++++++++-----
 rust/lsp-lib/src/result_queue.rs | 19 ++++++++++++++-----
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index 7833357..6b8bca2 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -134,6 +134,7 @@ impl Plugin for LspPlugin {
             }
         });
         self.view_info.remove(&view.get_id());
+        self.result_queue.remove_results(view.get_id());
     }
 
     fn new_view(&mut self, view: &mut View<Self::Cache>) {
@@ -212,7 +213,7 @@ impl Plugin for LspPlugin {
         self.with_language_server_for_view(view, |ls_client| match position_ls {
             Ok(_) if !ls_client.is_open(view_id) => {
                 let res = Err(LanguageResponseError::NullResponse);
-                ls_client.result_queue.push_result(request_id, LspResponse::Hover(res));
+                ls_client.result_queue.push_result(view_id, request_id, LspResponse::Hover(res));
                 ls_client.core.schedule_idle(view_id);
             }
             Ok(position) => ls_client.request_hover(view_id, position, move |ls_client, result| {
@@ -223,19 +224,22 @@ impl Plugin for LspPlugin {
                         hover.ok_or(LanguageResponseError::NullResponse)
                     });
 
-                ls_client.result_queue.push_result(request_id, LspResponse::Hover(res));
+                ls_client.result_queue.push_result(view_id, request_id, LspResponse::Hover(res));
                 ls_client.core.schedule_idle(view_id);
             }),
             Err(err) => {
-                ls_client.result_queue.push_result(request_id, LspResponse::Hover(Err(err.into())));
+                ls_client.result_queue.push_result(
+                    view_id,
+                    request_id,
+                    LspResponse::Hover(Err(err.into())),
+                );
                 ls_client.core.schedule_idle(view_id);
             }
         });
     }
 
     fn idle(&mut self, view: &mut View<Self::Cache>) {
-        let result = self.result_queue.pop_result();
-        if let Some((request_id, reponse)) = result {
+        while let Some((request_id, reponse)) = self.result_queue.pop_result(view.get_id()) {
             match reponse {
                 LspResponse::Hover(res) => {
                     let res =
diff --git a/rust/lsp-lib/src/result_queue.rs b/rust/lsp-lib/src/result_queue.rs
index 45bca72..dceeb74 100644
--- a/rust/lsp-lib/src/result_queue.rs
+++ b/rust/lsp-lib/src/result_queue.rs
@@ -13,24 +13,33 @@
 // limitations under the License.
 
 use crate::types::LspResponse;
+use crate::xi_core::ViewId;
 use std::collections::VecDeque;
 use std::sync::{Arc, Mutex};
 
 #[derive(Clone, Debug, Default)]
-pub struct ResultQueue(Arc<Mutex<VecDeque<(usize, LspResponse)>>>);
+pub struct ResultQueue(Arc<Mutex<VecDeque<(ViewId, usize, LspResponse)>>>);
 
 impl ResultQueue {
     pub fn new() -> Self {
         ResultQueue(Arc::new(Mutex::new(VecDeque::new())))
     }
 
-    pub fn push_result(&mut self, request_id: usize, response: LspResponse) {
+    pub fn push_result(&mut self, view_id: ViewId, request_id: usize, response: LspResponse) {
         let mut queue = self.0.lock().unwrap();
-        queue.push_back((request_id, response));
+        queue.push_back((view_id, request_id, response));
     }
 
-    pub fn pop_result(&mut self) -> Option<(usize, LspResponse)> {
+    /// The oldest result for the view
+    pub fn pop_result(&mut self, view_id: ViewId) -> Option<(usize, LspResponse)> {
         let mut queue = self.0.lock().unwrap();
-        queue.pop_front()
+        let ix = queue.iter().position(|(id, _, _)| *id == view_id)?;
+        queue.remove(ix).map(|(_, request_id, response)| (request_id, response))
+    }
+
+    /// Forget the results for a view that has been closed
+    pub fn remove_results(&mut self, view_id: ViewId) {
+        let mut queue = self.0.lock().unwrap();
+        queue.retain(|(id, _, _)| *id != view_id);
     }
 }
-- 
2.43.0


From fa52674697b6cb4e88052a4cfeecd8a9399a84a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:52 +0000
Subject: [PATCH 75/77] fix: stop reading from a language server that is gone

---
 rust/lsp-lib/src/parse_helper.rs | 4 +++-
 rust/lsp-lib/src/utils.rs        | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rust/lsp-lib/src/parse_helper.rs b/rust/lsp-lib/src/parse_helper.rs
index 7560b77..f94d257 100644
--- a/rust/lsp-lib/src/parse_helper.rs
+++ b/rust/lsp-lib/src/parse_helper.rs
@@ -42,7 +42,9 @@ pub fn read_message<T: BufRead>(reader: &mut T) -> Result<String, ParseError> {
 
     loop {
         buffer.clear();
-        let _result = reader.read_line(&mut buffer);
+        if reader.read_line(&mut buffer)? == 0 {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
 
         match &buffer {
             s if s.trim().is_empty() => break,
diff --git a/rust/lsp-lib/src/utils.rs b/rust/lsp-lib/src/utils.rs
index fa9d4c5..fad6841 100644
--- a/rust/lsp-lib/src/utils.rs
+++ b/rust/lsp-lib/src/utils.rs
@@ -27,7 +27,7 @@ use crate::language_server_client::LanguageServerClient;
 use crate::lsp_types::*;
 use crate::parse_helper;
 use crate::result_queue::ResultQueue;
-use crate::types::Error;
+use crate::types::{Error, ParseError};
 
 /// Get contents changes of a document modeled according to Language Server Protocol
 /// given the RopeDelta and the text it applies to
@@ -201,6 +201,10 @@ pub fn start_new_server(
                             let mut server_locked = ls_client.lock().unwrap();
                             server_locked.handle_message(message_str.as_ref());
                         }
+                        Err(ParseError::Io(err)) => {
+                            error!("Nothing more from the language server: {:?}", err);
+                            break;
+                        }
                         Err(err) => error!("Error occurred {:?}", err),
                     };
                 }
-- 
2.43.0


From b62f4732fc3ccd0ecff467df935f0afca0c45f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:06 +0000
Subject: [PATCH 76/77] fix: take the changes for the language server from the
 text the plugin keeps

---
 rust/lsp-lib/src/lsp_plugin.rs |  3 +-
 rust/lsp-lib/src/utils.rs      | 57 ++++++++++++----------------------
 2 files changed, 22 insertions(+), 38 deletions(-)

diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index 6b8bca2..2c7330c 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -101,7 +101,8 @@ impl Plugin for LspPlugin {
 
             let sync_kind = ls_client.get_sync_kind();
             view_info.version += 1;
-            if let Some(changes) = get_change_for_sync_kind(sync_kind, view, delta, &old_text) {
+            let changes = get_change_for_sync_kind(sync_kind, delta, &old_text, &view_info.text);
+            if let Some(changes) = changes {
                 ls_client.send_did_change(view.get_id(), changes, view_info.version);
             }
         }
diff --git a/rust/lsp-lib/src/utils.rs b/rust/lsp-lib/src/utils.rs
index fad6841..9f4164b 100644
--- a/rust/lsp-lib/src/utils.rs
+++ b/rust/lsp-lib/src/utils.rs
@@ -19,7 +19,7 @@ use std::process::{Command, Stdio};
 use std::sync::{Arc, Mutex};
 
 use url::Url;
-use xi_plugin_lib::{Cache, ChunkCache, CoreProxy, Error as PluginLibError, View};
+use xi_plugin_lib::CoreProxy;
 use xi_rope::rope::{Rope, RopeDelta};
 
 use crate::conversion_utils::*;
@@ -30,12 +30,12 @@ use crate::result_queue::ResultQueue;
 use crate::types::{Error, ParseError};
 
 /// Get contents changes of a document modeled according to Language Server Protocol
-/// given the RopeDelta and the text it applies to
-pub fn get_document_content_changes<C: Cache>(
+/// given the RopeDelta, the text it applies to and the text after it
+pub fn get_document_content_changes(
     delta: Option<&RopeDelta>,
     old_text: &Rope,
-    view: &mut View<C>,
-) -> Result<Vec<TextDocumentContentChangeEvent>, PluginLibError> {
+    new_text: &Rope,
+) -> Vec<TextDocumentContentChangeEvent> {
     if let Some(delta) = delta {
         let (interval, _) = delta.summary();
         let (start, end) = interval.start_end();
@@ -47,14 +47,14 @@ pub fn get_document_content_changes<C: Cache>(
             let (start, end) = interval.start_end();
             let text_document_content_change_event = TextDocumentContentChangeEvent {
                 range: Some(Range {
-                    start: get_position_of_offset(view, start)?,
-                    end: get_position_of_offset(view, end)?,
+                    start: get_position_in_text(old_text, start),
+                    end: get_position_in_text(old_text, end),
                 }),
                 range_length: Some((end - start) as u64),
                 text,
             };
 
-            return Ok(vec![text_document_content_change_event]);
+            return vec![text_document_content_change_event];
         }
         // Or a simple delete
         else if delta.is_simple_delete() {
@@ -81,54 +81,37 @@ pub fn get_document_content_changes<C: Cache>(
                 text: String::new(),
             };
 
-            return Ok(vec![text_document_content_change_event]);
+            return vec![text_document_content_change_event];
         }
     }
 
-    let text_document_content_change_event = TextDocumentContentChangeEvent {
-        range: None,
-        range_length: None,
-        text: view.get_document()?,
-    };
-
-    Ok(vec![text_document_content_change_event])
+    get_whole_document(new_text)
 }
 
 /// Get changes to be sent to server depending upon the type of Sync supported
 /// by server
 pub fn get_change_for_sync_kind(
     sync_kind: TextDocumentSyncKind,
-    view: &mut View<ChunkCache>,
     delta: Option<&RopeDelta>,
     old_text: &Rope,
+    new_text: &Rope,
 ) -> Option<Vec<TextDocumentContentChangeEvent>> {
     match sync_kind {
         TextDocumentSyncKind::None => None,
-        TextDocumentSyncKind::Full => get_whole_document(view),
+        TextDocumentSyncKind::Full => Some(get_whole_document(new_text)),
         TextDocumentSyncKind::Incremental => {
-            match get_document_content_changes(delta, old_text, view) {
-                Ok(result) => Some(result),
-                Err(err) => {
-                    warn!("Error: {:?} Occured. Sending Whole Doc", err);
-                    get_whole_document(view)
-                }
-            }
+            Some(get_document_content_changes(delta, old_text, new_text))
         }
     }
 }
 
-/// Get the change that replaces the whole document, unless its text cannot be had
-/// since the view has been closed
-fn get_whole_document(view: &mut View<ChunkCache>) -> Option<Vec<TextDocumentContentChangeEvent>> {
-    match view.get_document() {
-        Ok(text) => {
-            Some(vec![TextDocumentContentChangeEvent { range: None, range_length: None, text }])
-        }
-        Err(err) => {
-            warn!("No text of view {}: {:?}", view.get_id(), err);
-            None
-        }
-    }
+/// Get the change that replaces the whole document
+fn get_whole_document(text: &Rope) -> Vec<TextDocumentContentChangeEvent> {
+    vec![TextDocumentContentChangeEvent {
+        range: None,
+        range_length: None,
+        text: String::from(text),
+    }]
 }
 
 /// Get workspace root using the Workspace Identifier and the opened document path
-- 
2.43.0


From 61771d360297fcf9d29abf14521f409d23f64b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:58 +0000
Subject: [PATCH 77/77] fix: annotations of a plugin that has stopped are
 ignored

---
 rust/core-lib/src/event_context.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index fc9f3c1..5758084 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -264,9 +264,12 @@ impl<'a> EventContext<'a> {
                 self.client.update_status_item(self.view_id, &key, &value)
             }
             UpdateAnnotations { start, len, spans, annotation_type, rev } => {
-                self.with_editor(|ed, view, _, _| {
-                    ed.update_annotations(view, plugin, start, len, spans, annotation_type, rev)
-                })
+                // the plugin may have been stopped since it sent this
+                if self.plugins.iter().any(|p| p.id == plugin) {
+                    self.with_editor(|ed, view, _, _| {
+                        ed.update_annotations(view, plugin, start, len, spans, annotation_type, rev)
+                    })
+                }
             }
             RemoveStatusItem { key } => self.client.remove_status_item(self.view_id, &key),
             ShowHover { request_id, result } => self.do_show_hover(request_id, result),
-- 
2.43.0

