From 66427df2463987b57e867fe23e4962f4f1d96261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 01/37] fix: keep serving when accepting a connection fails

---
 core/src/server.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index 6da977e..98c8594 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -176,7 +176,15 @@ impl Server {
         log::trace!("ready to accept incoming connections");
         while let Some(stream) = incoming.next().await {
             log::trace!("incoming connection");
-            let stream = stream.expect("error while accepting a new client");
+            let stream = match stream {
+                Ok(stream) => stream,
+                Err(e) => {
+                    log::error!("could not accept a new client: {}", e);
+                    // such errors can last (eg: too many open files), let the others work
+                    future::yield_now().await;
+                    continue;
+                }
+            };
             let sender = sender.clone();
             log::trace!("connection ready");
             sender
-- 
2.43.0


From d72d6d294bb7a449c4b07a7e9caa324fe6d650d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 02/37] fix: never block the server on a client that does not
 read

---
 core/src/server.rs                    | 95 +++++++++++++++++++++------
 remote/src/transport/server_stream.rs |  9 +++
 2 files changed, 83 insertions(+), 21 deletions(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index 98c8594..02c2472 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt;
 use std::fs;
 use std::sync::{Arc, RwLock};
@@ -47,6 +47,8 @@ enum Event {
     Join((usize, ServerStream)),
     Leave(usize),
     Message((usize, String)),
+    /// Nothing more will be sent to this client.
+    Sent(usize),
 }
 
 pub struct Server {
@@ -58,18 +60,54 @@ impl Server {
         Server { session }
     }
 
-    fn write_client<T>(client_id: usize, stream: &mut ServerStream, message: &T) -> io::Result<()>
+    /// Sends the queued messages to a client until its queue is closed.
+    ///
+    /// Each client has its own queue and task so that one that does not read what is sent to it
+    /// can't block the others. The stream is shut down once everything is sent, this also ends
+    /// the reading side of the client.
+    async fn write_client(
+        client_id: usize,
+        mut stream: ServerStream,
+        messages: Receiver<String>,
+        sender: Sender<Event>,
+    ) {
+        while let Ok(message) = messages.recv().await {
+            log::trace!("-> ({}) {}", client_id, message);
+            let res = stream.write_all(format!("{}\n", message).as_bytes()).await;
+            if let Err(e) = res {
+                log::error!("{}", e);
+                break;
+            }
+        }
+        stream
+            .shutdown()
+            .unwrap_or_else(|e| log::trace!("client {}: {}", client_id, e));
+        sender
+            .send(Event::Sent(client_id))
+            .await
+            .unwrap_or_else(|e| log::error!("{}", e));
+    }
+
+    fn queue_message<T>(client_id: usize, queue: &Sender<String>, message: &T)
     where
         T: fmt::Display,
     {
-        log::trace!("-> ({}) {}", client_id, message);
-        future::block_on(stream.write_all(format!("{}\n", message).as_bytes()))
+        // the queue is unbounded, this only fails when the client is already gone
+        queue
+            .try_send(message.to_string())
+            .unwrap_or_else(|e| log::error!("client {}: {}", client_id, e));
     }
 
-    async fn handle_events(ex: Arc<LocalExecutor<'_>>, session: String, receiver: Receiver<Event>) {
+    async fn handle_events(
+        ex: Arc<LocalExecutor<'_>>,
+        session: String,
+        sender: Sender<Event>,
+        receiver: Receiver<Event>,
+    ) {
         let (bsender, breceiver) = unbounded();
         let mut editor = Editor::new(&session, bsender);
-        let clients = Arc::new(RwLock::new(HashMap::<usize, ServerStream>::new()));
+        let clients = Arc::new(RwLock::new(HashMap::<usize, Sender<String>>::new()));
+        let mut writers = HashSet::<usize>::new();
 
         let bclients = Arc::clone(&clients);
         log::trace!("spawning broadcast handler task");
@@ -77,13 +115,10 @@ impl Server {
             log::trace!("spawned broadcast handler task");
             while let Ok(bm) = breceiver.recv().await {
                 log::trace!("broadcast event: {:?}", bm);
-                let mut index = bclients.write().expect("lock client index");
-                for (client_id, stream) in index.iter_mut() {
+                let index = bclients.read().expect("lock client index");
+                for (client_id, queue) in index.iter() {
                     if bm.should_notify(*client_id) {
-                        let res = Self::write_client(*client_id, stream, &bm.message);
-                        if let Err(e) = res {
-                            log::error!("{}", e);
-                        }
+                        Self::queue_message(*client_id, queue, &bm.message);
                     }
                 }
             }
@@ -96,10 +131,19 @@ impl Server {
             let mut is_leave_event = false;
             match event {
                 Event::Join((client_id, stream)) => {
+                    let (queue, messages) = unbounded();
+                    ex.spawn(Self::write_client(
+                        client_id,
+                        stream,
+                        messages,
+                        sender.clone(),
+                    ))
+                    .detach();
+                    writers.insert(client_id);
                     clients
                         .write()
                         .expect("lock client index")
-                        .insert(client_id, stream);
+                        .insert(client_id, queue);
                     log::info!("client {} connected", client_id);
                     // TODO check if ping or real client
                     editor.add_client(client_id);
@@ -116,13 +160,17 @@ impl Server {
                 }
                 Event::Message((client_id, raw)) => match editor.handle(client_id, &raw) {
                     Ok(message) => {
-                        let mut index = clients.write().expect("lock client index");
-                        let stream = index.get_mut(&client_id).unwrap();
-                        Self::write_client(client_id, stream, &message)
-                            .expect("send response to client");
+                        let index = clients.read().expect("lock client index");
+                        if let Some(queue) = index.get(&client_id) {
+                            Self::queue_message(client_id, queue, &message);
+                        }
                     }
                     Err(e) => log::error!("{}: {:?}", e, raw),
                 },
+                Event::Sent(client_id) => {
+                    writers.remove(&client_id);
+                    is_leave_event = true;
+                }
             }
             for client_id in editor.removed_clients() {
                 clients
@@ -132,7 +180,8 @@ impl Server {
                     .expect("remove client from index");
                 log::info!("client {}: quit", client_id);
             }
-            if clients.read().expect("lock client index").len() == 0 && is_leave_event {
+            let no_client = clients.read().expect("lock client index").len() == 0;
+            if no_client && writers.is_empty() && is_leave_event {
                 break;
             }
         }
@@ -205,9 +254,13 @@ impl Server {
         log::trace!("spawning server task");
         future::block_on(ex.run(async {
             let (sender, receiver) = unbounded();
-            ex.spawn(Self::serve(ex.clone(), self.session.clone(), sender))
-                .detach();
-            Self::handle_events(ex.clone(), self.session.to_string(), receiver).await;
+            ex.spawn(Self::serve(
+                ex.clone(),
+                self.session.clone(),
+                sender.clone(),
+            ))
+            .detach();
+            Self::handle_events(ex.clone(), self.session.to_string(), sender, receiver).await;
 
             log::info!("no more client, exiting...");
             if let ConnectionMode::Socket(path) = &self.session.mode {
diff --git a/remote/src/transport/server_stream.rs b/remote/src/transport/server_stream.rs
index abd280e..f3cda47 100644
--- a/remote/src/transport/server_stream.rs
+++ b/remote/src/transport/server_stream.rs
@@ -1,4 +1,5 @@
 use std::io;
+use std::net::Shutdown;
 use std::pin::Pin;
 use std::task::{Context, Poll};
 
@@ -22,6 +23,14 @@ impl ServerStream {
             Tcp(sock_addr) => Ok(ServerStream::Tcp(TcpStream::connect(sock_addr).await?)),
         }
     }
+
+    /// Ends both directions of the stream, for all its clones.
+    pub fn shutdown(&self) -> io::Result<()> {
+        match self {
+            ServerStream::Socket(inner) => inner.shutdown(Shutdown::Both),
+            ServerStream::Tcp(inner) => inner.shutdown(Shutdown::Both),
+        }
+    }
 }
 
 impl AsyncRead for ServerStream {
-- 
2.43.0


From 8be100758e809d6f2c25e41ca9a67978fde34ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 03/37] fix: count columns in whole characters on every line

---
 core/src/editor/piece_table/mod.rs       | 25 ++++++++----------------
 core/src/editor/piece_table/navigator.rs |  7 ++-----
 2 files changed, 10 insertions(+), 22 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 18d6b52..34e3e69 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -376,10 +376,12 @@ impl PieceTable {
                 let col = indices.range(..offset - nli).count();
                 Coords { l: lineno, c: col }
             }
-            None => Coords {
-                l: lineno,
-                c: offset + 1,
-            },
+            None => {
+                let line = self.line_bytes(lineno).unwrap();
+                let indices: BTreeSet<_> = line.grapheme_indices().map(|(i, _, _)| i).collect();
+                let col = indices.range(..=offset).count();
+                Coords { l: lineno, c: col }
+            }
         })
     }
 
@@ -442,19 +444,8 @@ impl PieceTable {
     }
 
     pub fn line_length(&self, index: usize) -> usize {
-        let mut nls = self.newlines.iter().collect::<Vec<_>>();
-        nls.sort_unstable();
-        if nls.is_empty() {
-            self.len()
-        } else if index == 1 {
-            *nls[0]
-        } else if index - 1 < nls.len() {
-            nls[index - 1] - nls[index - 2] - 1
-        } else if index - 1 == nls.len() {
-            self.len() - nls[index - 2] - 1
-        } else {
-            0
-        }
+        self.line_bytes(index)
+            .map_or(0, |line| line.graphemes().count())
     }
 
     pub fn longest_line(&self) -> (usize, usize) {
diff --git a/core/src/editor/piece_table/navigator.rs b/core/src/editor/piece_table/navigator.rs
index 329cd27..857b229 100644
--- a/core/src/editor/piece_table/navigator.rs
+++ b/core/src/editor/piece_table/navigator.rs
@@ -65,11 +65,8 @@ impl Navigator<'_> {
             };
             self.target_col = 1;
         } else {
-            let offset = self.table.coord_to_offset(self.cursor).unwrap();
-            if let Some(coord) = self.table.offset_to_coord(offset + 1) {
-                self.cursor = coord;
-                self.target_col = coord.c;
-            }
+            self.cursor.c += 1;
+            self.target_col = self.cursor.c;
         }
         self
     }
-- 
2.43.0


From df18904f9ea0e7f2de4157d1fcf32f81d6e4f024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 04/37] fix: keep the cursor on existing characters at the end
 of lines and texts

---
 core/src/editor/buffer.rs                |  2 +-
 core/src/editor/piece_table/mod.rs       | 15 +++++++++++----
 core/src/editor/piece_table/navigator.rs | 14 +++++++++++---
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index d2341b8..515c7e7 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -167,7 +167,7 @@ impl Buffer {
 
     pub fn selection_range(&self, sel: &Selection) -> Range<usize> {
         let end_offset = if sel.end() == self.content.max_offset() {
-            sel.end() + 1
+            self.content.len()
         } else {
             self.content
                 .navigate(self.content.offset_to_coord(sel.end()))
diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 34e3e69..a9e8838 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -416,10 +416,17 @@ impl PieceTable {
     }
 
     pub fn max_offset(&self) -> usize {
-        if self.is_empty() {
-            0
-        } else {
-            self.len() - 1
+        // the last line is not empty unless the whole text is
+        let start = self
+            .newlines
+            .iter()
+            .next_back()
+            .map_or(0, |&newline| newline + 1);
+        let last_line = self.range(&OffsetRange::new(start, self.len() - start));
+        match last_line.as_ref().and_then(|l| l.grapheme_indices().last()) {
+            Some((i, _, _)) => start + i,
+            // the text ends with a newline or is empty
+            None => start.saturating_sub(1),
         }
     }
 
diff --git a/core/src/editor/piece_table/navigator.rs b/core/src/editor/piece_table/navigator.rs
index 857b229..c0eb954 100644
--- a/core/src/editor/piece_table/navigator.rs
+++ b/core/src/editor/piece_table/navigator.rs
@@ -1,4 +1,4 @@
-use std::cmp::min;
+use std::cmp::{max, min};
 
 use bstr::ByteSlice;
 
@@ -41,8 +41,15 @@ impl Navigator<'_> {
             .graphemes()
             .count()
             + 1;
+        let max_coord = self.table.max_coord();
+        let max_col = if self.cursor.l == max_coord.l {
+            // there may be no newline to stand on
+            max_coord.c
+        } else {
+            col_count
+        };
         let cursor = Coords {
-            c: min(col_count, self.target_col),
+            c: min(max_col, self.target_col),
             ..self.cursor
         };
         Position {
@@ -106,7 +113,8 @@ impl Navigator<'_> {
     }
 
     pub fn line_end(&mut self) -> &mut Self {
-        self.cursor.c = self.table.line_length(self.cursor.l);
+        // on an empty line the only position is the newline
+        self.cursor.c = max(self.table.line_length(self.cursor.l), 1);
         self.target_col = self.cursor.c;
         self
     }
-- 
2.43.0


From d9e65f4422c873bbbe43b56da1603b1174d81aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 05/37] fix: highlight selections on whole characters

---
 core/src/editor/view.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/src/editor/view.rs b/core/src/editor/view.rs
index 17dd5bc..ca2547a 100644
--- a/core/src/editor/view.rs
+++ b/core/src/editor/view.rs
@@ -5,6 +5,7 @@ use std::ops::Range;
 
 use crate::editor::selection::Selection;
 use crate::editor::Buffer;
+use bstr::ByteSlice;
 use ornament::Decorator;
 use remote::protocol::{
     notifications::{ViewParams, ViewParamsItem, ViewParamsLens},
@@ -243,17 +244,27 @@ impl View {
                         .map(|(i, line)| {
                             let l = line.to_owned() + " ";
                             let mut deco = Decorator::with_text(&l);
+                            // columns count characters, decorations are made on bytes
+                            let offset_of = |col: usize| {
+                                l.as_bytes()
+                                    .grapheme_indices()
+                                    .nth(col)
+                                    .map_or(l.len(), |(i, _, _)| i)
+                            };
                             if let Some(ranges) = selected.get(&i) {
                                 for range in ranges {
                                     match *range {
                                         (Some(start), Some(end)) => {
-                                            deco.set(Face::Selection, start..end);
+                                            deco.set(
+                                                Face::Selection,
+                                                offset_of(start)..offset_of(end),
+                                            );
                                         }
                                         (Some(start), None) => {
-                                            deco.set(Face::Selection, start..l.len());
+                                            deco.set(Face::Selection, offset_of(start)..l.len());
                                         }
                                         (None, Some(end)) => {
-                                            deco.set(Face::Selection, 0..end);
+                                            deco.set(Face::Selection, 0..offset_of(end));
                                         }
                                         (None, None) => {
                                             deco.set(Face::Selection, 0..l.len());
-- 
2.43.0


From 6b14fe3d615774e0a187fa626075c50152c092a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 06/37] fix: shift the right pieces when whole pieces are
 deleted

---
 core/src/editor/piece_table/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index a9e8838..499d3e7 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -484,6 +484,9 @@ impl PieceTable {
     }
 
     pub fn append(&mut self, text: String) {
+        if text.is_empty() {
+            return;
+        }
         self.action(Action::Insert);
         let offset = if let Some(last) = self.pieces.last() {
             let data = last.data();
@@ -575,9 +578,9 @@ impl PieceTable {
             }
             if let Some(ln) = last_node {
                 self.shift_offset_after(&ln, -(range.len() as i64));
-            } else {
-                start_node.apply(|n| n.offset -= range.len());
-                self.shift_offset_after(&start_node, -(range.len() as i64));
+            } else if let Some(next) = self.pieces.get_node(&Piece::offset(range.end())) {
+                next.apply(|n| n.offset -= range.len());
+                self.shift_offset_after(&next, -(range.len() as i64));
             }
             self.newlines = self
                 .newlines
-- 
2.43.0


From fb7b5725492048f8d9c2bea995cc131fb1264572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 07/37] fix: compute complete differences between any two texts

---
 core/src/editor/diff.rs | 56 +++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/core/src/editor/diff.rs b/core/src/editor/diff.rs
index bf70309..8cbc487 100644
--- a/core/src/editor/diff.rs
+++ b/core/src/editor/diff.rs
@@ -7,7 +7,7 @@ pub enum Diff {
     Right(usize),
 }
 
-fn precompute(b1: &[u8], b2: &[u8]) -> (usize, Option<usize>) {
+fn precompute<T: PartialEq>(b1: &[T], b2: &[T]) -> (usize, usize) {
     let l1 = b1.len();
     let l2 = b2.len();
 
@@ -21,14 +21,10 @@ fn precompute(b1: &[u8], b2: &[u8]) -> (usize, Option<usize>) {
         end += 1;
     }
 
-    if start == end || end == 0 {
-        (start, None)
-    } else {
-        (start, Some(end))
-    }
+    (start, end)
 }
 
-fn find_lcs(left: &[u8], right: &[u8]) -> Vec<u8> {
+fn find_lcs<T: Copy + PartialEq>(left: &[T], right: &[T]) -> Vec<T> {
     let el = left.len();
     let er = right.len();
 
@@ -77,25 +73,31 @@ fn find_lcs(left: &[u8], right: &[u8]) -> Vec<u8> {
     lcs
 }
 
+fn byte_len(chars: &[char]) -> usize {
+    chars.iter().map(|c| c.len_utf8()).sum()
+}
+
+/// Biggest number of cells of the table used to compare the texts.
+const MAX_CELLS: usize = 1 << 22;
+
 #[allow(clippy::many_single_char_names)]
 pub fn diff(left: &str, right: &str) -> Vec<Diff> {
-    let bleft = left.as_bytes();
-    let bright = right.as_bytes();
+    let cleft: Vec<char> = left.chars().collect();
+    let cright: Vec<char> = right.chars().collect();
     let mut diffs = Vec::new();
 
-    let (start, maybe_end) = precompute(bleft, bright);
+    let (start, end) = precompute(&cleft, &cright);
     if start > 0 {
-        diffs.push(Diff::Both(start));
+        diffs.push(Diff::Both(byte_len(&cleft[..start])));
     }
-    let end = match maybe_end {
-        Some(len) => len,
-        None if start > 0 => return diffs,
-        None => 0,
-    };
 
-    let l = &bleft[start..bleft.len() - end];
-    let r = &bright[start..bright.len() - end];
-    let lcs = find_lcs(l, r);
+    let l = &cleft[start..cleft.len() - end];
+    let r = &cright[start..cright.len() - end];
+    let lcs = if l.is_empty() || r.is_empty() || l.len() > MAX_CELLS / r.len() {
+        Vec::new()
+    } else {
+        find_lcs(l, r)
+    };
     let mut i = 0;
     let mut j = 0;
     let mut len;
@@ -104,7 +106,7 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
     while let Some(&c) = lcs_it.next() {
         len = 0;
         while i < l.len() && l[i] != c {
-            len += 1;
+            len += l[i].len_utf8();
             i += 1;
         }
         if len > 0 {
@@ -113,7 +115,7 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
 
         len = 0;
         while j < r.len() && r[j] != c {
-            len += 1;
+            len += r[j].len_utf8();
             j += 1;
         }
         if len > 0 {
@@ -123,7 +125,7 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
         len = 0;
         let mut sub_c = c;
         while l[i] == sub_c && r[j] == sub_c {
-            len += 1;
+            len += sub_c.len_utf8();
             i += 1;
             j += 1;
             match lcs_it.next() {
@@ -136,15 +138,15 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
         }
     }
 
-    if i < l.len() - 1 {
-        diffs.push(Diff::Left(l.len() - i));
+    if i < l.len() {
+        diffs.push(Diff::Left(byte_len(&l[i..])));
     }
-    if j < r.len() - 1 {
-        diffs.push(Diff::Right(r.len() - j));
+    if j < r.len() {
+        diffs.push(Diff::Right(byte_len(&r[j..])));
     }
 
     if end > 0 {
-        diffs.push(Diff::Both(end));
+        diffs.push(Diff::Both(byte_len(&cleft[cleft.len() - end..])));
     }
     diffs
 }
-- 
2.43.0


From 3c67a7811b14a8cc9202c750ccb30ba2e4ee8f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 08/37] fix: answer with an error when a file cannot be opened
 or read

---
 core/src/editor/buffer.rs | 94 +++++++++++++++++++--------------------
 core/src/editor/core.rs   | 47 +++++++++++++++-----
 core/src/editor/mod.rs    |  5 ++-
 3 files changed, 87 insertions(+), 59 deletions(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index 515c7e7..a622233 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -1,9 +1,8 @@
 use std::env::current_dir;
 use std::fs::{self, File};
-use std::io::Read;
+use std::io::{self, Read};
 use std::ops::{Index, Range};
 use std::path::{Path, PathBuf};
-use std::time::SystemTime;
 
 use crate::editor::selection::Selection;
 use crate::editor::view::Focus;
@@ -57,10 +56,32 @@ fn find_shortest_name(sources: &[BufferSource], idx: usize) -> String {
     }
 }
 
+fn read_file(path: &Path) -> io::Result<String> {
+    // anything else than a regular file could be endless or block
+    if !fs::metadata(path)?.is_file() {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "not a regular file",
+        ));
+    }
+    let mut file = File::open(path)?;
+    let mut content = String::new();
+    file.read_to_string(&mut content)?;
+    Ok(content)
+}
+
+fn ensure_final_newline(mut content: String) -> String {
+    if !content.ends_with('\n') {
+        content += "\n";
+    }
+    content
+}
+
 pub struct Buffer {
     pub source: BufferSource,
     pub content: PieceTable,
-    last_sync: Option<SystemTime>,
+    /// What was stored in the file the last time it was read.
+    last_sync: Option<String>,
     modified: bool,
 }
 
@@ -79,30 +100,29 @@ impl Buffer {
         }
     }
 
+    #[cfg(test)]
     pub fn new_file(filename: &Path) -> Buffer {
+        Self::open_file(filename).expect("open file")
+    }
+
+    pub fn open_file(filename: &Path) -> io::Result<Buffer> {
         let absolute_path = if filename.is_absolute() {
             filename.to_owned()
         } else {
-            let mut full_path = current_dir().unwrap();
+            let mut full_path = current_dir()?;
             full_path.push(filename);
-            full_path.canonicalize().unwrap()
+            full_path.canonicalize()?
         };
 
-        let mut file = File::open(&absolute_path).unwrap();
-        let mut file_content = String::new();
-        file.read_to_string(&mut file_content).expect("read file");
-        let last_sync = Some(SystemTime::now());
+        let file_content = read_file(&absolute_path)?;
+        let last_sync = Some(file_content.clone());
 
-        if !file_content.ends_with('\n') {
-            file_content += "\n";
-        }
-
-        Buffer {
+        Ok(Buffer {
             source: BufferSource::File(absolute_path),
-            content: PieceTable::with_text(file_content),
+            content: PieceTable::with_text(ensure_final_newline(file_content)),
             last_sync,
             modified: false,
-        }
+        })
     }
 
     pub fn line_count(&self) -> usize {
@@ -121,40 +141,20 @@ impl Buffer {
         find_shortest_name(sources, idx)
     }
 
-    fn is_synced(&self) -> bool {
-        if let BufferSource::File(ref path) = self.source {
-            let dt_sync = match self.last_sync {
-                Some(dt) => dt,
-                None => return false,
-            };
-            let meta = match fs::metadata(path) {
-                Ok(data) => data,
-                Err(_) => return false,
-            };
-            if !meta.is_file() {
-                return false;
-            }
-            match meta.modified() {
-                Ok(dt_modified) => return dt_modified < dt_sync,
-                Err(_) => return false,
-            }
-        }
-        true
-    }
-
-    pub fn load_from_disk(&mut self) -> bool {
+    /// Updates the content if the file was changed since it was read, time stamps are not precise
+    /// enough to tell so.
+    pub fn load_from_disk(&mut self) -> io::Result<bool> {
         match self.source {
-            BufferSource::Scratch(_) => true,
+            BufferSource::Scratch(_) => Ok(true),
             BufferSource::File(ref path) => {
-                if !self.is_synced() {
-                    let mut file = File::open(&path).unwrap();
-                    let mut content = String::new();
-                    file.read_to_string(&mut content).expect("read file");
-                    self.content.apply_diff(&content);
-                    self.last_sync = Some(SystemTime::now());
-                    true
+                let content = read_file(path)?;
+                if self.last_sync.as_ref() != Some(&content) {
+                    self.content
+                        .apply_diff(&ensure_final_newline(content.clone()));
+                    self.last_sync = Some(content);
+                    Ok(true)
                 } else {
-                    false
+                    Ok(false)
                 }
             }
         }
diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 5879fd7..fae2f28 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -117,6 +117,8 @@ macro_rules! lock {
 #[derive(Debug)]
 pub enum Error {
     BufferNotFound { name: String },
+    ClientNotFound { id: usize },
+    File { name: String, error: std::io::Error },
     ViewNotFound { view_id: String },
 }
 
@@ -125,6 +127,8 @@ impl std::fmt::Display for Error {
         use Error::*;
         match self {
             BufferNotFound { name } => write!(f, "buffer not found: {}", name),
+            ClientNotFound { id } => write!(f, "client not found: {}", id),
+            File { name, error } => write!(f, "{}: {}", name, error),
             ViewNotFound { view_id } => write!(f, "view not found: {}", view_id),
         }
     }
@@ -327,9 +331,21 @@ impl Core {
         lock!(self).buffers.insert(name.to_owned(), buffer);
     }
 
-    pub fn open_file(&mut self, buffer_name: &str, filename: &Path) {
-        let buffer = Buffer::new_file(filename);
+    pub fn open_file(&mut self, buffer_name: &str, filename: &Path) -> Result<(), Error> {
+        let buffer = Buffer::open_file(filename).map_err(|error| Error::File {
+            name: buffer_name.to_owned(),
+            error,
+        })?;
         lock!(self).buffers.insert(buffer_name.to_owned(), buffer);
+        Ok(())
+    }
+
+    fn check_client(&self, id: usize) -> Result<(), Error> {
+        if lock!(self).clients.contains_key(&id) {
+            Ok(())
+        } else {
+            Err(Error::ClientNotFound { id })
+        }
     }
 
     pub fn add_view(&mut self, view: View) {
@@ -413,7 +429,8 @@ impl Core {
         }
     }
 
-    pub fn edit(&mut self, client_id: usize, name: &str, scratch: bool) {
+    pub fn edit(&mut self, client_id: usize, name: &str, scratch: bool) -> Result<(), Error> {
+        self.check_client(client_id)?;
         // TODO check for same file but different name
         let exists = self.buffer_exists(name);
         let notify_change = if scratch {
@@ -422,7 +439,15 @@ impl Core {
             }
             false
         } else if exists {
-            let reloaded = lock!(self).buffers.get_mut(name).unwrap().load_from_disk();
+            let reloaded = lock!(self)
+                .buffers
+                .get_mut(name)
+                .unwrap()
+                .load_from_disk()
+                .map_err(|error| Error::File {
+                    name: name.to_owned(),
+                    error,
+                })?;
             if reloaded {
                 self.debug(&format!("reloaded from disk: {}", name));
             }
@@ -433,14 +458,14 @@ impl Core {
                 absolute.push(name);
                 absolute
             };
-            self.open_file(name, &path);
+            self.open_file(name, &path)?;
             true
         };
 
         let view = View::for_buffer(name);
         let view_id = view.key();
         self.add_view(view);
-        self.view(client_id, &view_id).expect("set view after edit");
+        self.view(client_id, &view_id)?;
 
         self.debug(&format!("edit: {}", name));
         if notify_change {
@@ -451,6 +476,7 @@ impl Core {
                 .collect();
             self.notify_view_update(client_ids);
         }
+        Ok(())
     }
 
     pub fn view(&mut self, client_id: usize, view_id: &str) -> Result<(), Error> {
@@ -707,16 +733,17 @@ impl rlua::UserData for Core {
         methods.add_method_mut(
             "scratch",
             |_, this, (client, name, content): (usize, String, String)| {
+                this.check_client(client).map_err(rlua::Error::external)?;
                 this.open_scratch(&name, content);
-                this.edit(client, &name, true);
-                Ok(())
+                this.edit(client, &name, true)
+                    .map_err(rlua::Error::external)
             },
         );
         methods.add_method_mut(
             "edit",
             |_, this, (client, name, scratch): (usize, String, bool)| {
-                this.edit(client, &name, scratch);
-                Ok(())
+                this.edit(client, &name, scratch)
+                    .map_err(rlua::Error::external)
             },
         );
         methods.add_method_mut("append_to", |_, this, (buffer, text): (String, String)| {
diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index d8725f6..a41b35f 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -244,8 +244,9 @@ impl Editor {
         client_id: usize,
         params: &<requests::Edit as requests::Request>::Params,
     ) -> Result<<requests::Edit as requests::Request>::Result, Error> {
-        self.core.edit(client_id, &params.name, params.scratch);
-        Ok(())
+        self.core
+            .edit(client_id, &params.name, params.scratch)
+            .map_err(|e| Error::invalid_request(&e.to_string()))
     }
 
     pub fn command_quit(
-- 
2.43.0


From 6af7002badd2ba025da0267cfd9ba3f4bb16cedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 09/37] fix: keep the selections of all clients valid when a
 buffer changes

---
 core/src/editor/core.rs            | 58 ++++++++++++++++++------------
 core/src/editor/piece_table/mod.rs | 10 +++++-
 core/src/editor/selection.rs       | 21 ++++-------
 3 files changed, 52 insertions(+), 37 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index fae2f28..b1ac64e 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -429,6 +429,20 @@ impl Core {
         }
     }
 
+    pub fn scratch(&mut self, client_id: usize, name: &str, content: String) -> Result<(), Error> {
+        self.check_client(client_id)?;
+        self.open_scratch(name, content);
+        Self::clamp_selections(&mut lock!(self), name);
+        self.edit(client_id, name, true)?;
+        let others = self
+            .clients_with_buffer(name)
+            .into_iter()
+            .filter(|&id| id != client_id)
+            .collect();
+        self.notify_view_update(others);
+        Ok(())
+    }
+
     pub fn edit(&mut self, client_id: usize, name: &str, scratch: bool) -> Result<(), Error> {
         self.check_client(client_id)?;
         // TODO check for same file but different name
@@ -449,6 +463,7 @@ impl Core {
                     error,
                 })?;
             if reloaded {
+                Self::clamp_selections(&mut lock!(self), name);
                 self.debug(&format!("reloaded from disk: {}", name));
             }
             reloaded
@@ -593,25 +608,24 @@ impl Core {
         }
     }
 
-    fn clamp_selections(state: &mut MutexGuard<CoreState>, client_id: usize, bufname: &str) {
-        let max_offset = state.buffers[bufname].content.max_offset();
-        let ctx = state.clients.get_mut(&client_id).unwrap();
-        let view_key = ctx.view.borrow().key();
-        ctx.selections
-            .get_mut(&view_key)
-            .unwrap()
-            .get_mut(bufname)
-            .unwrap()
-            .iter_mut()
-            .for_each(|s| {
-                s.clamp_to(max_offset);
-            });
+    /// Keeps the selections of every client on the characters of a changed buffer.
+    fn clamp_selections(state: &mut MutexGuard<CoreState>, bufname: &str) {
+        let state = &mut **state;
+        let content = &state.buffers[bufname].content;
+        for context in state.clients.values_mut() {
+            for selections in context.selections.values_mut() {
+                if let Some(sels) = selections.get_mut(bufname) {
+                    sels.iter_mut()
+                        .for_each(|s| s.clamp_to(|offset| content.char_offset(offset)));
+                }
+            }
+        }
     }
 
     pub fn delete_selection(&mut self, client_id: usize) -> Vec<String> {
         let mut deleted = Vec::new();
+        let mut modified_buffers = HashSet::new();
         {
-            let mut modified_buffers = HashSet::new();
             let mut state = lock!(self);
             let ctx = &state.clients[&client_id];
             let view_key = ctx.view.borrow().key();
@@ -635,13 +649,15 @@ impl Core {
             }
             // XXX selections reprocessing is made afterwards because of the borrow rules on struct attributes
             // XXX in 2021 edition it should be possible to handle both operations in one pass
-            for bufname in modified_buffers {
-                Self::clamp_selections(&mut state, client_id, &bufname);
+            for bufname in &modified_buffers {
+                Self::clamp_selections(&mut state, bufname);
             }
         }
-        if !deleted.is_empty() {
-            self.notify_view_update(vec![client_id]);
-        }
+        let to_notify: HashSet<usize> = modified_buffers
+            .iter()
+            .flat_map(|bufname| self.clients_with_buffer(bufname))
+            .collect();
+        self.notify_view_update(to_notify.into_iter().collect());
         deleted
     }
 }
@@ -733,9 +749,7 @@ impl rlua::UserData for Core {
         methods.add_method_mut(
             "scratch",
             |_, this, (client, name, content): (usize, String, String)| {
-                this.check_client(client).map_err(rlua::Error::external)?;
-                this.open_scratch(&name, content);
-                this.edit(client, &name, true)
+                this.scratch(client, &name, content)
                     .map_err(rlua::Error::external)
             },
         );
diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 499d3e7..4b20ee1 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -1,7 +1,7 @@
 mod navigator;
 mod position;
 
-use std::cmp::{max, Ordering};
+use std::cmp::{max, min, Ordering};
 use std::collections::BTreeSet;
 
 use crate::editor::diff::{diff, Diff};
@@ -430,6 +430,14 @@ impl PieceTable {
         }
     }
 
+    /// Gives the beginning of the character an offset is in, or of the last one past the end.
+    pub fn char_offset(&self, offset: usize) -> usize {
+        let max_offset = self.max_offset();
+        self.offset_to_coord(min(offset, max_offset))
+            .and_then(|coords| self.coord_to_offset(coords))
+            .unwrap_or(max_offset)
+    }
+
     pub fn max_coord(&self) -> Coords {
         self.offset_to_coord(self.max_offset()).unwrap()
     }
diff --git a/core/src/editor/selection.rs b/core/src/editor/selection.rs
index b8f76ba..edc0330 100644
--- a/core/src/editor/selection.rs
+++ b/core/src/editor/selection.rs
@@ -36,19 +36,12 @@ impl Selection {
         }
     }
 
-    pub fn clamp_to(&mut self, n: usize) -> usize {
-        if n <= self.end() {
-            let delta;
-            if self.anchor < self.cursor {
-                delta = self.cursor - n;
-                self.cursor = n;
-            } else {
-                delta = self.anchor - n;
-                self.anchor = n;
-            }
-            delta
-        } else {
-            0
-        }
+    /// Moves both ends to the position `clamp` gives for them.
+    pub fn clamp_to<F>(&mut self, clamp: F)
+    where
+        F: Fn(usize) -> usize,
+    {
+        self.anchor = clamp(self.anchor);
+        self.cursor = clamp(self.cursor);
     }
 }
-- 
2.43.0


From 517babf08cc5c20cc15d62bb5b3bdf9683ea13f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 10/37] fix: give different views different keys whatever the
 buffer names

---
 core/src/editor/view.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/src/editor/view.rs b/core/src/editor/view.rs
index ca2547a..faee2c8 100644
--- a/core/src/editor/view.rs
+++ b/core/src/editor/view.rs
@@ -117,7 +117,15 @@ impl View {
                 .iter()
                 .map(|lens| lens.focus.to_string())
                 .collect::<Vec<String>>();
-            parts.push(format!("{}{{{}}}", buffer, coords.join(",")));
+            // different views must have different keys whatever the names of their buffers
+            let mut name = String::new();
+            for c in buffer.chars() {
+                if r"\{}|".contains(c) {
+                    name.push('\\');
+                }
+                name.push(c);
+            }
+            parts.push(format!("{}{{{}}}", name, coords.join(",")));
         }
         parts.join("|")
     }
-- 
2.43.0


From 66050c2ebd5a31b372d6a9fa9aeab477b9404075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 11/37] fix: keep views, their buffers and their selections
 consistent when views change

---
 core/src/editor/core.rs | 56 ++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index b1ac64e..2114515 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -301,15 +301,16 @@ impl Core {
             } else {
                 let latest_view = state.views.latest_value().unwrap();
                 let mut selections = HashMap::new();
-                selections.insert(
-                    latest_view.borrow().key(),
-                    latest_view
-                        .borrow()
-                        .buffers()
-                        .iter()
-                        .map(|&b| (b.clone(), vec![Selection::new()]))
-                        .collect(),
-                );
+                for view in state.views.values() {
+                    selections.insert(
+                        view.borrow().key(),
+                        view.borrow()
+                            .buffers()
+                            .iter()
+                            .map(|&b| (b.clone(), vec![Selection::new()]))
+                            .collect(),
+                    );
+                }
                 ClientContext {
                     view: Rc::clone(latest_view),
                     selections,
@@ -318,6 +319,9 @@ impl Core {
             state.clients.insert(id, context);
         }
         self.debug(&format!("new client: {}", id));
+        if !self.debug_mode || !self.clients_with_buffer(BUFFER_DEBUG).contains(&id) {
+            self.notify_view_update(vec![id]);
+        }
         self.notifier.info_update(id, info);
     }
 
@@ -373,7 +377,7 @@ impl Core {
         }
 
         let view = lock!(self).views.remove(&view_id.to_owned()).unwrap();
-        self.debug(&format!("delete view: {}", view_id));
+        let mut deleted_buffers = Vec::new();
         for (_id, context) in lock!(self).clients.iter_mut() {
             context.selections.remove(view_id);
         }
@@ -387,11 +391,11 @@ impl Core {
             }
             if !has_ref {
                 lock!(self).buffers.remove(&buffer.to_owned());
-                self.debug(&format!("delete buffer: {}", buffer));
+                deleted_buffers.push(buffer.to_owned());
             }
         }
         if lock!(self).views.is_empty() {
-            if lock!(self).buffers.is_empty() {
+            if !self.buffer_exists(BUFFER_SCRATCH) {
                 self.open_scratch(BUFFER_SCRATCH, String::new());
             }
             self.add_view(View::for_buffer(BUFFER_SCRATCH));
@@ -404,6 +408,11 @@ impl Core {
                 to_notify.push(*id);
             }
         }
+        // the clients must not display the deleted buffers any more to be notified of this
+        self.debug(&format!("delete view: {}", view_id));
+        for buffer in deleted_buffers {
+            self.debug(&format!("delete buffer: {}", buffer));
+        }
         self.notify_view_update(to_notify);
         Ok(())
     }
@@ -419,8 +428,13 @@ impl Core {
         if old_key != new_key {
             if !new_view.is_empty() {
                 for (_id, context) in lock!(self).clients.iter_mut() {
-                    if let Some(old_sels) = context.selections.remove(&old_key) {
-                        context.selections.insert(new_key.clone(), old_sels);
+                    if let Some(mut old_sels) = context.selections.remove(&old_key) {
+                        old_sels.retain(|buffer, _| new_view.contains_buffer(buffer));
+                        // the new view may already exist
+                        context
+                            .selections
+                            .entry(new_key.clone())
+                            .or_insert(old_sels);
                     }
                 }
                 self.add_view(new_view);
@@ -504,16 +518,12 @@ impl Core {
             self.notify_view_update(vec![client_id]);
             Ok(())
         } else if self.buffer_exists(view_id) {
-            {
-                let mut state = lock!(self);
-                let view = Rc::new(RefCell::new(View::for_buffer(view_id)));
-                let key = view.borrow().key();
-                let context = state.clients.get_mut(&client_id).unwrap();
-                context.view = Rc::clone(&view);
-                state.views.entry(key).or_insert(view);
+            let view = View::for_buffer(view_id);
+            let key = view.key();
+            if !self.view_exists(&key) {
+                self.add_view(view);
             }
-            self.notify_view_update(vec![client_id]);
-            Ok(())
+            self.view(client_id, &key)
         } else {
             Err(Error::ViewNotFound {
                 view_id: view_id.to_owned(),
-- 
2.43.0


From ba6eeb327afa2eb83a1203cf28e1bfe9404a38f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 12/37] fix: refuse requests and script calls on behalf of
 clients that do not exist

---
 core/src/editor/core.rs | 58 +++++++++++++++++++++++++----------------
 core/src/editor/mod.rs  |  6 ++++-
 core/src/server.rs      | 21 ++++++++++-----
 3 files changed, 56 insertions(+), 29 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 2114515..2d5332c 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -325,6 +325,10 @@ impl Core {
         self.notifier.info_update(id, info);
     }
 
+    pub fn has_client(&self, id: usize) -> bool {
+        lock!(self).clients.contains_key(&id)
+    }
+
     pub fn remove_client(&mut self, id: usize) {
         lock!(self).clients.remove(&id);
         self.debug(&format!("client left: {}", id));
@@ -345,7 +349,7 @@ impl Core {
     }
 
     fn check_client(&self, id: usize) -> Result<(), Error> {
-        if lock!(self).clients.contains_key(&id) {
+        if self.has_client(id) {
             Ok(())
         } else {
             Err(Error::ClientNotFound { id })
@@ -509,6 +513,7 @@ impl Core {
     }
 
     pub fn view(&mut self, client_id: usize, view_id: &str) -> Result<(), Error> {
+        self.check_client(client_id)?;
         if self.view_exists(view_id) {
             {
                 let mut state = lock!(self);
@@ -573,7 +578,13 @@ impl Core {
         Ok(())
     }
 
-    pub fn move_cursor(&mut self, client_id: usize, direction: CursorTarget, extend: bool) {
+    pub fn move_cursor(
+        &mut self,
+        client_id: usize,
+        direction: CursorTarget,
+        extend: bool,
+    ) -> Result<(), Error> {
+        self.check_client(client_id)?;
         let ctx = lock!(self).clients[&client_id].clone();
         let curview = ctx.view.borrow().key();
         let mut selections = ctx.selections[&curview].clone();
@@ -616,6 +627,7 @@ impl Core {
         if moved {
             self.notify_view_update(vec![client_id]);
         }
+        Ok(())
     }
 
     /// Keeps the selections of every client on the characters of a changed buffer.
@@ -632,7 +644,8 @@ impl Core {
         }
     }
 
-    pub fn delete_selection(&mut self, client_id: usize) -> Vec<String> {
+    pub fn delete_selection(&mut self, client_id: usize) -> Result<Vec<String>, Error> {
+        self.check_client(client_id)?;
         let mut deleted = Vec::new();
         let mut modified_buffers = HashSet::new();
         {
@@ -668,7 +681,7 @@ impl Core {
             .flat_map(|bufname| self.clients_with_buffer(bufname))
             .collect();
         self.notify_view_update(to_notify.into_iter().collect());
-        deleted
+        Ok(deleted)
     }
 }
 
@@ -724,6 +737,7 @@ impl rlua::UserData for Core {
         });
 
         methods.add_method("get_context", |lua, this, client: usize| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             let context = lock!(this).clients[&client].clone();
             let view_key = context.view.borrow().key();
             let sels = &context.selections[&view_key];
@@ -776,40 +790,40 @@ impl rlua::UserData for Core {
         });
 
         methods.add_method_mut("move_left", |_, this, (client, extend)| {
-            this.move_cursor(client, CursorTarget::Left, extend);
-            Ok(())
+            this.move_cursor(client, CursorTarget::Left, extend)
+                .map_err(rlua::Error::external)
         });
         methods.add_method_mut("move_right", |_, this, (client, extend)| {
-            this.move_cursor(client, CursorTarget::Right, extend);
-            Ok(())
+            this.move_cursor(client, CursorTarget::Right, extend)
+                .map_err(rlua::Error::external)
         });
         methods.add_method_mut("move_up", |_, this, (client, extend)| {
-            this.move_cursor(client, CursorTarget::Up, extend);
-            Ok(())
+            this.move_cursor(client, CursorTarget::Up, extend)
+                .map_err(rlua::Error::external)
         });
         methods.add_method_mut("move_down", |_, this, (client, extend)| {
-            this.move_cursor(client, CursorTarget::Down, extend);
-            Ok(())
+            this.move_cursor(client, CursorTarget::Down, extend)
+                .map_err(rlua::Error::external)
         });
         methods.add_method_mut("move_to_line_begin", |_, this, (client, extend)| {
-            this.move_cursor(client, CursorTarget::LineBegin, extend);
-            Ok(())
+            this.move_cursor(client, CursorTarget::LineBegin, extend)
+                .map_err(rlua::Error::external)
         });
         methods.add_method_mut("move_to_line_end", |_, this, (client, extend)| {
-            this.move_cursor(client, CursorTarget::LineEnd, extend);
-            Ok(())
+            this.move_cursor(client, CursorTarget::LineEnd, extend)
+                .map_err(rlua::Error::external)
         });
         methods.add_method_mut("move_to_begin", |_, this, (client, extend)| {
-            this.move_cursor(client, CursorTarget::Begin, extend);
-            Ok(())
+            this.move_cursor(client, CursorTarget::Begin, extend)
+                .map_err(rlua::Error::external)
         });
         methods.add_method_mut("move_to_end", |_, this, (client, extend)| {
-            this.move_cursor(client, CursorTarget::End, extend);
-            Ok(())
+            this.move_cursor(client, CursorTarget::End, extend)
+                .map_err(rlua::Error::external)
         });
         methods.add_method_mut("delete_selection", |_, this, client| {
-            let deleted = this.delete_selection(client);
-            Ok(deleted)
+            this.delete_selection(client)
+                .map_err(rlua::Error::external)
         });
     }
 }
diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index a41b35f..1cb997e 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -217,6 +217,10 @@ impl Editor {
             }
         };
         log::trace!("<- ({}) {}", client_id, msg);
+        if !self.core.has_client(client_id) {
+            // it has quit
+            return Ok(Response::invalid_request(msg.id, line));
+        }
         match msg.method.as_str() {
             "edit" => response!(msg, |params| self.command_edit(client_id, params)),
             "quit" => Response::new(msg.id.clone(), self.command_quit(client_id)),
@@ -253,7 +257,7 @@ impl Editor {
         &mut self,
         client_id: usize,
     ) -> Result<<requests::Quit as requests::Request>::Result, Error> {
-        self.core.remove_client(client_id);
+        self.remove_client(client_id);
         self.stopped_clients.insert(client_id);
         Ok(())
     }
diff --git a/core/src/server.rs b/core/src/server.rs
index 02c2472..e9e2f0f 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -149,15 +149,25 @@ impl Server {
                     editor.add_client(client_id);
                 }
                 Event::Leave(client_id) => {
-                    editor.remove_client(client_id);
-                    clients
+                    let removed = clients
                         .write()
                         .expect("lock client index")
-                        .remove(&client_id)
-                        .expect("remove client from index");
+                        .remove(&client_id);
+                    // it may have quit before
+                    if removed.is_some() {
+                        editor.remove_client(client_id);
+                    }
                     log::info!("client {}: connection closed", client_id);
                     is_leave_event = true;
                 }
+                Event::Message((client_id, raw))
+                    if !clients
+                        .read()
+                        .expect("lock client index")
+                        .contains_key(&client_id) =>
+                {
+                    log::info!("client {} has quit, ignored: {:?}", client_id, raw);
+                }
                 Event::Message((client_id, raw)) => match editor.handle(client_id, &raw) {
                     Ok(message) => {
                         let index = clients.read().expect("lock client index");
@@ -176,8 +186,7 @@ impl Server {
                 clients
                     .write()
                     .expect("lock client index")
-                    .remove(&client_id)
-                    .expect("remove client from index");
+                    .remove(&client_id);
                 log::info!("client {}: quit", client_id);
             }
             let no_client = clients.read().expect("lock client index").len() == 0;
-- 
2.43.0


From 9c442988e1cdf75e55d6907bafe6e0513885b92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 13/37] fix: pass the environment of scripts as values,
 whatever the session name

---
 core/scripts/editor.lua |  2 +-
 core/src/editor/mod.rs  | 15 ++++-----------
 2 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/core/scripts/editor.lua b/core/scripts/editor.lua
index 58c0c39..f556f05 100644
--- a/core/scripts/editor.lua
+++ b/core/scripts/editor.lua
@@ -120,7 +120,7 @@ function Editor:add_client(client_id)
             client = {
                 index = 100,
                 text = function()
-                    return "[" .. env.client .. "@" .. env.session .. "]"
+                    return "[" .. client_id .. "@" .. env.session .. "]"
                 end,
             },
         },
diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index 1cb997e..c6b4a45 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -157,17 +157,10 @@ impl Editor {
     {
         self.lua
             .context(|context| {
-                let env_source = format!(
-                    r#"
-                    env = {{
-                        session = "{session}",
-                        client = "{client}",
-                    }}
-                    "#,
-                    session = self.session_name,
-                    client = client_id,
-                );
-                context.load(&env_source).exec()?;
+                let env = context.create_table()?;
+                env.set("session", self.session_name.as_str())?;
+                env.set("client", client_id.to_string())?;
+                context.globals().set("env", env)?;
                 f(context)
             })
             .map_err(|e| {
-- 
2.43.0


From 9cab53a563a3d6fab2e5e12cc1c8bb0f3201b91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 14/37] fix: search menu entries for any text

---
 core/src/editor/menu.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/src/editor/menu.rs b/core/src/editor/menu.rs
index 8beb8b3..4dd28c0 100644
--- a/core/src/editor/menu.rs
+++ b/core/src/editor/menu.rs
@@ -3,7 +3,7 @@ use std::fmt;
 use std::ops::Deref;
 
 use crate::editor::{Editor, EditorInfo};
-use regex::{CaptureLocations, Regex};
+use regex::{CaptureLocations, Regex, RegexBuilder};
 use remote::jsonrpc;
 use remote::protocol::{
     notifications::{MenuParams, MenuParamsEntry},
@@ -150,10 +150,14 @@ impl MenuFilter {
         let elements: Vec<String> = self
             .search
             .split_whitespace()
-            .map(|e| format!("({})", e))
+            .map(|e| format!("({})", regex::escape(e)))
             .collect();
-        let raw_re = format!("(?i){}", elements.join(".*"));
-        Regex::new(&raw_re).unwrap()
+        RegexBuilder::new(&elements.join(".*"))
+            .case_insensitive(true)
+            .dot_matches_new_line(true)
+            .size_limit(usize::MAX)
+            .build()
+            .expect("compile escaped search")
     }
 
     pub fn filter<T>(&self, items: &[T]) -> Candidates<T>
-- 
2.43.0


From 4c65218393160ba6562066681402fa22ea5c1288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 15/37] fix: answer lines that are not text instead of dropping
 the client

---
 core/src/editor/mod.rs | 17 +++++++++++++++++
 core/src/server.rs     | 14 +++++++++-----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index c6b4a45..066af6f 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -200,6 +200,23 @@ impl Editor {
         ids
     }
 
+    /// Handles a line which may not even be text.
+    pub fn handle_raw(
+        &mut self,
+        client_id: usize,
+        line: &[u8],
+    ) -> Result<Response, JsonCodingError> {
+        match std::str::from_utf8(line) {
+            Ok(line) => self.handle(client_id, line),
+            Err(err) => {
+                let line = String::from_utf8_lossy(line);
+                self.core
+                    .error(client_id, "protocol", &format!("{}: {}", err, line));
+                Ok(Response::invalid_request(Id::Null, &line))
+            }
+        }
+    }
+
     pub fn handle(&mut self, client_id: usize, line: &str) -> Result<Response, JsonCodingError> {
         let msg: Request = match line.parse() {
             Ok(req) => req,
diff --git a/core/src/server.rs b/core/src/server.rs
index e9e2f0f..082c6a2 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -46,7 +46,7 @@ const FIRST_CLIENT_ID: usize = 1;
 enum Event {
     Join((usize, ServerStream)),
     Leave(usize),
-    Message((usize, String)),
+    Message((usize, Vec<u8>)),
     /// Nothing more will be sent to this client.
     Sent(usize),
 }
@@ -166,16 +166,20 @@ impl Server {
                         .expect("lock client index")
                         .contains_key(&client_id) =>
                 {
-                    log::info!("client {} has quit, ignored: {:?}", client_id, raw);
+                    log::info!(
+                        "client {} has quit, ignored: {:?}",
+                        client_id,
+                        String::from_utf8_lossy(&raw)
+                    );
                 }
-                Event::Message((client_id, raw)) => match editor.handle(client_id, &raw) {
+                Event::Message((client_id, raw)) => match editor.handle_raw(client_id, &raw) {
                     Ok(message) => {
                         let index = clients.read().expect("lock client index");
                         if let Some(queue) = index.get(&client_id) {
                             Self::queue_message(client_id, queue, &message);
                         }
                     }
-                    Err(e) => log::error!("{}: {:?}", e, raw),
+                    Err(e) => log::error!("{}: {:?}", e, String::from_utf8_lossy(&raw)),
                 },
                 Event::Sent(client_id) => {
                     writers.remove(&client_id);
@@ -201,7 +205,7 @@ impl Server {
         stream: ServerStream,
         sender: Sender<Event>,
     ) -> io::Result<()> {
-        let mut lines = io::BufReader::new(stream).lines();
+        let mut lines = io::BufReader::new(stream).split(b'\n');
         while let Some(line) = lines.next().await {
             if line.is_err() {
                 // connection reset
-- 
2.43.0


From e5e7eeb189a9236b282a75dba0145aff08e918fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 16/37] fix: start one reachable server per session, whatever
 was left before

---
 core/src/server.rs             | 23 ++++++-----
 remote/src/lib.rs              | 28 ++++++++++---
 remote/src/transport/mod.rs    |  1 +
 remote/src/transport/socket.rs | 74 ++++++++++++++++++++++++++++++++++
 4 files changed, 110 insertions(+), 16 deletions(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index 082c6a2..9148f18 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -1,6 +1,7 @@
 use std::collections::{HashMap, HashSet};
 use std::fmt;
 use std::fs;
+use std::io::Write as _;
 use std::sync::{Arc, RwLock};
 
 use crate::editor::Editor;
@@ -8,7 +9,7 @@ use async_channel::{unbounded, Receiver, Sender};
 use async_executor::LocalExecutor;
 use futures_lite::*;
 use remote::jsonrpc::Notification;
-use remote::{ConnectionMode, ServerListener, ServerStream, Session};
+use remote::{lock_socket, ConnectionMode, ServerListener, ServerStream, Session};
 
 #[derive(Debug)]
 pub struct BroadcastMessage {
@@ -227,14 +228,14 @@ impl Server {
 
     async fn serve(
         ex: Arc<LocalExecutor<'_>>,
-        session: Session,
+        listener: ServerListener,
         sender: Sender<Event>,
     ) -> io::Result<()> {
         let mut next_client_id = FIRST_CLIENT_ID;
-        let listener = ServerListener::bind(&session).await?;
         let mut incoming = listener.incoming();
         // notify readiness to a potential awaiting client
-        println!();
+        writeln!(std::io::stdout())
+            .unwrap_or_else(|e| log::error!("could not notify readiness: {}", e));
         log::trace!("ready to accept incoming connections");
         while let Some(stream) = incoming.next().await {
             log::trace!("incoming connection");
@@ -266,19 +267,19 @@ impl Server {
         let ex = Arc::new(LocalExecutor::new());
         log::trace!("spawning server task");
         future::block_on(ex.run(async {
+            let listener = ServerListener::bind(&self.session).await?;
             let (sender, receiver) = unbounded();
-            ex.spawn(Self::serve(
-                ex.clone(),
-                self.session.clone(),
-                sender.clone(),
-            ))
-            .detach();
+            ex.spawn(Self::serve(ex.clone(), listener, sender.clone()))
+                .detach();
             Self::handle_events(ex.clone(), self.session.to_string(), sender, receiver).await;
 
             log::info!("no more client, exiting...");
             if let ConnectionMode::Socket(path) = &self.session.mode {
                 log::trace!("cleaning session device: {}", path.display());
-                fs::remove_file(path).expect("clean session");
+                // do not remove the directory of a server which is starting
+                let _lock = lock_socket(path);
+                fs::remove_file(path)
+                    .unwrap_or_else(|e| log::warn!("could not clean session: {}", e));
                 if Session::list().is_empty() {
                     fs::remove_dir(path.parent().unwrap())
                         .unwrap_or_else(|e| log::warn!("could not clean session directory: {}", e));
diff --git a/remote/src/lib.rs b/remote/src/lib.rs
index e80371c..c3f1a73 100644
--- a/remote/src/lib.rs
+++ b/remote/src/lib.rs
@@ -19,7 +19,7 @@ pub use self::client::{Client, ClientEventResult, ClientEventStream};
 pub use self::connection::{Connection, ConnectionEvent, ConnectionState, Menu};
 pub use self::jsonrpc::{ClientEvent, Id, Request};
 pub use self::session::{ConnectionMode, Session};
-pub use self::transport::{ServerListener, ServerStream};
+pub use self::transport::{lock_socket, ServerListener, ServerStream};
 
 pub fn find_bin() -> String {
     env::var("CED_BIN").unwrap_or_else(|_| {
@@ -60,10 +60,14 @@ pub fn start_daemon(session: &Session) -> io::Result<u32> {
     let pid = prg.id();
 
     //  Once ready to accept connections the server send an empty line on stdout.
+    let mut is_ready = false;
     if let Some(stdout) = prg.stdout {
         for line in BufReader::new(stdout).lines() {
             let should_stop = match line {
-                Ok(l) => l.is_empty(),
+                Ok(l) => {
+                    is_ready = l.is_empty();
+                    is_ready
+                }
                 Err(err) => {
                     log::error!("failed to read stdout: {}", err);
                     true
@@ -78,13 +82,27 @@ pub fn start_daemon(session: &Session) -> io::Result<u32> {
     }
 
     log::info!("server command: {} {:?}", bin, args);
-    Ok(pid)
+    if is_ready {
+        Ok(pid)
+    } else {
+        Err(io::Error::new(
+            io::ErrorKind::Other,
+            format!("could not start a server for session {}", session),
+        ))
+    }
 }
 
 pub fn ensure_session(session: &Session) -> io::Result<()> {
     if let ConnectionMode::Socket(path) = &session.mode {
-        if !path.exists() {
-            start_daemon(&session)?;
+        if !transport::is_served(path) {
+            // another server may have been started in the meantime
+            start_daemon(&session).map(|_| ()).or_else(|e| {
+                if transport::is_served(path) {
+                    Ok(())
+                } else {
+                    Err(e)
+                }
+            })?;
         }
     }
     Ok(())
diff --git a/remote/src/transport/mod.rs b/remote/src/transport/mod.rs
index 46c220e..4c188f3 100644
--- a/remote/src/transport/mod.rs
+++ b/remote/src/transport/mod.rs
@@ -5,3 +5,4 @@ mod socket_windows;
 
 pub use self::server_listener::ServerListener;
 pub use self::server_stream::ServerStream;
+pub use self::socket::{is_served, lock_socket};
diff --git a/remote/src/transport/socket.rs b/remote/src/transport/socket.rs
index 625eb61..d12c589 100644
--- a/remote/src/transport/socket.rs
+++ b/remote/src/transport/socket.rs
@@ -9,12 +9,86 @@ use async_net::unix::{UnixListener, UnixStream};
 #[cfg(windows)]
 use super::socket_windows::{UnixListener, UnixStream};
 
+/// Keeps the other processes from changing the directory until the lock is dropped.
+#[cfg(unix)]
+fn lock_dir(path: &Path, create: bool) -> io::Result<fs::File> {
+    use std::os::unix::fs::MetadataExt;
+
+    loop {
+        if create {
+            fs::create_dir_all(path)?;
+        }
+        let dir = match fs::File::open(path) {
+            Err(e) if create && e.kind() == io::ErrorKind::NotFound => continue,
+            res => res?,
+        };
+        dir.lock()?;
+        // it may have been deleted or replaced in the meantime
+        match fs::metadata(path) {
+            Ok(meta) if meta.ino() == dir.metadata()?.ino() => return Ok(dir),
+            Err(e) if !create || e.kind() != io::ErrorKind::NotFound => return Err(e),
+            _ => {}
+        }
+    }
+}
+
+/// Tells whether there is a server behind a socket, without connecting to it. Must be called with
+/// the lock of the directory held: a server is not ready before releasing it.
+#[cfg(unix)]
+fn probe(path: &Path) -> bool {
+    use std::os::unix::net::UnixDatagram;
+
+    // the type of the socket doesn't match so it can't be connected, but an abandoned socket is
+    // refused for another reason
+    match UnixDatagram::unbound().and_then(|socket| socket.connect(path)) {
+        Ok(()) => true,
+        Err(e) => {
+            e.kind() != io::ErrorKind::ConnectionRefused && e.kind() != io::ErrorKind::NotFound
+        }
+    }
+}
+
+#[cfg(unix)]
+pub fn is_served(path: &Path) -> bool {
+    let _lock = lock_dir(path.parent().unwrap(), false);
+    probe(path)
+}
+
+#[cfg(not(unix))]
+pub fn is_served(path: &Path) -> bool {
+    path.exists()
+}
+
+/// No server can be started with a socket in the same directory until the lock is dropped.
+#[cfg(unix)]
+pub fn lock_socket(path: &Path) -> io::Result<Option<fs::File>> {
+    lock_dir(path.parent().unwrap(), false).map(Some)
+}
+
+#[cfg(not(unix))]
+pub fn lock_socket(_path: &Path) -> io::Result<Option<fs::File>> {
+    Ok(None)
+}
+
 #[derive(Debug)]
 pub struct SocketListener(UnixListener);
 
 impl SocketListener {
     pub async fn bind(path: &Path) -> io::Result<SocketListener> {
         let root_dir = path.parent().unwrap();
+        #[cfg(unix)]
+        let _lock = {
+            use std::os::unix::fs::FileTypeExt;
+
+            let lock = lock_dir(root_dir, true)?;
+            let is_socket = fs::metadata(path).map_or(false, |m| m.file_type().is_socket());
+            if is_socket && !probe(path) {
+                // left by a server which could not clean it
+                fs::remove_file(path)?;
+            }
+            lock
+        };
+        #[cfg(not(unix))]
         if !root_dir.exists() {
             fs::create_dir_all(root_dir)?
         }
-- 
2.43.0


From dc7e7f69267a1da0eadcd193342f7dd1ebcc5e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 17/37] fix: never panic in the client library or the C
 interface on what a server sends

Failing reads become error events, actions on empty menus do nothing, a
failing connection attempt is reported, and events and contents that have no
counterpart in C are skipped or replaced.
---
 core/src/tui.rs              |  2 +-
 remote-ffi/src/connection.rs | 45 ++++++++++++++++++++++++-------
 remote-ffi/src/event.rs      | 14 +++++-----
 remote-ffi/src/lib.rs        |  3 ++-
 remote/src/client.rs         |  4 +--
 remote/src/connection.rs     | 51 +++++++++++++++++++++---------------
 6 files changed, 77 insertions(+), 42 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 6d6bedb..3df42f9 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -132,7 +132,7 @@ impl Term {
             })
             .detach();
 
-            let (mut messages, request_loop) = self.connection.connect().await;
+            let (mut messages, request_loop) = self.connection.connect().await.expect("connect");
             ex.spawn(request_loop).detach();
             let messages_tx = tx.clone();
             ex.spawn(async move {
diff --git a/remote-ffi/src/connection.rs b/remote-ffi/src/connection.rs
index a2a7afb..2fdeb59 100644
--- a/remote-ffi/src/connection.rs
+++ b/remote-ffi/src/connection.rs
@@ -1,7 +1,7 @@
 use std::ffi::CStr;
 use std::os::raw::c_char;
 use std::ptr;
-use std::sync::mpsc::{self, Receiver};
+use std::sync::mpsc::{self, Receiver, RecvTimeoutError};
 use std::time::Duration;
 
 use crate::event::CedEvent;
@@ -26,14 +26,21 @@ pub unsafe extern "C" fn ced_connection_create(session: *const c_char) -> *mut C
     }
 
     let connection = Connection::new(session);
-    let (events, request_loop) = future::block_on(connection.connect());
+    let (events, request_loop) = match future::block_on(connection.connect()) {
+        Ok(res) => res,
+        Err(err) => {
+            set_last_error(err);
+            return ptr::null_mut();
+        }
+    };
     std::thread::spawn(|| future::block_on(request_loop));
     let (tx, rx) = mpsc::channel();
     std::thread::spawn(move || {
         let sync_events = stream::block_on(events);
         for ev in sync_events {
-            if let Err(err) = tx.send(ev) {
-                dbg!(&err.0);
+            if tx.send(ev).is_err() {
+                // the handle was destroyed
+                break;
             }
         }
     });
@@ -60,11 +67,29 @@ pub unsafe extern "C" fn ced_connection_next_event<'a>(p: *mut CedConnection) ->
     //         ptr::null_mut()
     //     }
     // }
-    if let Ok(ev) = handle.events.recv_timeout(Duration::from_secs(5)) {
-        println!("<-- {:?}", ev);
-        Box::into_raw(Box::new(CedEvent::from(ev)))
-    } else {
-        println!("<-- None");
-        ptr::null_mut()
+    loop {
+        match handle.events.recv_timeout(Duration::from_secs(5)) {
+            Ok(ConnectionEvent::ConnErr(msg)) => {
+                println!("<-- error: {}", msg);
+                set_last_error(msg);
+                return ptr::null_mut();
+            }
+            Ok(ev) => {
+                println!("<-- {:?}", ev);
+                // some events have no counterpart in the interface
+                if let Some(event) = CedEvent::from_connection(ev) {
+                    return Box::into_raw(Box::new(event));
+                }
+            }
+            Err(RecvTimeoutError::Timeout) => {
+                println!("<-- None");
+                return ptr::null_mut();
+            }
+            Err(RecvTimeoutError::Disconnected) => {
+                println!("<-- disconnected");
+                set_last_error("connection closed");
+                return ptr::null_mut();
+            }
+        }
     }
 }
diff --git a/remote-ffi/src/event.rs b/remote-ffi/src/event.rs
index f45b703..63f43c2 100644
--- a/remote-ffi/src/event.rs
+++ b/remote-ffi/src/event.rs
@@ -34,13 +34,12 @@ pub enum CedEvent {
     },
 }
 
-impl From<ConnectionEvent> for CedEvent {
-    fn from(event: ConnectionEvent) -> CedEvent {
-        match event {
+impl CedEvent {
+    pub fn from_connection(event: ConnectionEvent) -> Option<CedEvent> {
+        Some(match event {
             ConnectionEvent::Echo(text) => CedEvent::Echo {
                 message: raw!(CedTextIterator::from(&text)),
             },
-            ConnectionEvent::Hint(_hint) => todo!(),
             ConnectionEvent::Info(client, session) => CedEvent::Info {
                 client: cstring!(client),
                 session: cstring!(session),
@@ -58,9 +57,10 @@ impl From<ConnectionEvent> for CedEvent {
             ConnectionEvent::View(view) => CedEvent::View {
                 items: raw!(ViewIterator::from(&view)),
             },
-            ConnectionEvent::ConnErr(_msg) => todo!(),
-            ConnectionEvent::Noop => todo!(),
-        }
+            ConnectionEvent::ConnErr(_) | ConnectionEvent::Hint(_) | ConnectionEvent::Noop => {
+                return None
+            }
+        })
     }
 }
 
diff --git a/remote-ffi/src/lib.rs b/remote-ffi/src/lib.rs
index 5d419de..5746687 100644
--- a/remote-ffi/src/lib.rs
+++ b/remote-ffi/src/lib.rs
@@ -20,7 +20,8 @@ macro_rules! raw {
 #[macro_export]
 macro_rules! cstring {
     ($e:expr) => {
-        std::ffi::CString::new($e)
+        // there can't be a nul character in a C string
+        std::ffi::CString::new($e.replace('\0', "\u{fffd}"))
             .expect("failed to encode string")
             .into_raw()
     };
diff --git a/remote/src/client.rs b/remote/src/client.rs
index e19bb31..37a288a 100644
--- a/remote/src/client.rs
+++ b/remote/src/client.rs
@@ -3,6 +3,7 @@ use crate::session::Session;
 use crate::transport::ServerStream;
 use async_channel::{unbounded, Receiver, Sender};
 use futures_lite::*;
+use serde::de::Error as _;
 
 pub type ClientEventResult = Result<ClientEvent, JsonCodingError>;
 
@@ -37,8 +38,7 @@ impl Client {
         };
         fn parse_line(x: io::Result<String>) -> Result<ClientEvent, JsonCodingError> {
             log::trace!("polled a new client event");
-            // TODO handle io::Error (eg: closed connection)
-            x.expect("parse line").parse()
+            x.map_err(JsonCodingError::custom)?.parse()
         }
         Ok((
             io::BufReader::new(stream).lines().map(parse_line),
diff --git a/remote/src/connection.rs b/remote/src/connection.rs
index 5c04872..8f3c10d 100644
--- a/remote/src/connection.rs
+++ b/remote/src/connection.rs
@@ -22,7 +22,7 @@ pub struct Menu {
 
 impl Menu {
     fn select_next(&mut self) {
-        if self.selected < self.entries.len() - 1 {
+        if self.selected + 1 < self.entries.len() {
             self.selected += 1;
         }
     }
@@ -33,8 +33,8 @@ impl Menu {
         }
     }
 
-    fn selected_item(&self) -> &str {
-        &self.entries[self.selected].value
+    fn selected_item(&self) -> Option<&str> {
+        self.entries.get(self.selected).map(|e| e.value.as_str())
     }
 }
 
@@ -147,13 +147,13 @@ impl Connection {
 
     pub async fn connect(
         &self,
-    ) -> (
+    ) -> io::Result<(
         ConnectionEventStream<impl FnMut(ClientEventResult) -> ConnectionEvent>,
         impl Future<Output = ()>,
-    ) {
+    )> {
         let ctx_lock = self.state_lock.clone();
-        let (events, request_loop) = self.client.run().await.unwrap();
-        (
+        let (events, request_loop) = self.client.run().await?;
+        Ok((
             events.map(move |ev| match ev {
                 Ok(e) => {
                     let mut ctx = ctx_lock.write().unwrap();
@@ -162,7 +162,7 @@ impl Connection {
                 Err(e) => ConnectionEvent::ConnErr(e.to_string()),
             }),
             request_loop,
-        )
+        ))
     }
 
     fn request_id(&mut self) -> Id {
@@ -196,22 +196,31 @@ impl Connection {
     }
 
     pub fn menu_select(&mut self) {
-        if let Some(menu) = self.state().menu {
-            let selected = menu.selected_item();
+        let params = {
+            // close this menu before the request is sent as the answer can be another menu
+            let mut state = self.state_lock.write().unwrap();
+            let params = state.menu.as_ref().and_then(|menu| {
+                let selected = menu.selected_item()?;
+                let choice = if selected.is_empty() {
+                    &menu.search
+                } else {
+                    selected
+                };
+                Some(requests::MenuSelectParams {
+                    command: menu.command.to_owned(),
+                    choice: choice.to_owned(),
+                })
+            });
+            if params.is_some() {
+                state.menu = None;
+            }
+            params
+        };
+        if let Some(params) = params {
             let id = self.request_id();
-            let choice = if selected.is_empty() {
-                &menu.search
-            } else {
-                selected
-            };
-            let params = requests::MenuSelectParams {
-                command: menu.command.to_owned(),
-                choice: choice.to_owned(),
-            };
             self.request(requests::MenuSelect::new(id, params));
-            self.action_menu_cancel();
         } else {
-            log::warn!("menu_select without active menu");
+            log::warn!("menu_select without active menu or menu item");
         }
     }
 
-- 
2.43.0


From fc7a73269c492e8d20a2dc49e1f867b14323702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 18/37] fix: lose no output of the standalone mode

Print from the beginning so that many files cannot fill the channel, answer
lines that are not text, and wait for the pending notifications at the end.
---
 core/src/clients.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index fff920c..c8d2f06 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -2,7 +2,7 @@ use std::io::BufRead;
 use std::thread;
 
 use crate::editor::Editor;
-use async_channel::{bounded, Sender};
+use async_channel::{unbounded, Sender};
 use async_executor::LocalExecutor;
 use blocking::Unblock;
 use futures_lite::*;
@@ -11,8 +11,15 @@ use remote::{protocol::requests::EditParams, Client, Request, Session};
 const CLIENT_ID: usize = 1;
 
 pub fn start_standalone(filenames: &[&str]) {
-    let (tx, rx) = bounded(100);
+    let (tx, rx) = unbounded();
     let mut editor = Editor::new("", tx);
+    let printer = thread::spawn(move || {
+        while let Ok(bm) = future::block_on(rx.recv()) {
+            if bm.should_notify(CLIENT_ID) {
+                println!("{}", &bm.message);
+            }
+        }
+    });
 
     editor.add_client(CLIENT_ID);
     for fname in filenames {
@@ -24,26 +31,24 @@ pub fn start_standalone(filenames: &[&str]) {
             .command_edit(CLIENT_ID, &params)
             .map_err(|err| log::error!("could not open file '{}': {}", fname, err));
     }
-    thread::spawn(move || loop {
-        if let Ok(bm) = future::block_on(rx.recv()) {
-            if bm.should_notify(CLIENT_ID) {
-                println!("{}", &bm.message);
-            }
-        }
-    });
-
     let stdin = std::io::stdin();
-    for maybe_line in stdin.lock().lines() {
+    for maybe_line in stdin.lock().split(b'\n') {
         match maybe_line {
-            Ok(line) => match editor.handle(CLIENT_ID, &line) {
+            Ok(line) => match editor.handle_raw(CLIENT_ID, &line) {
                 Ok(response) => println!("{}", &response),
                 Err(e) => eprintln!("{}: {:?}", e, line),
             },
-            Err(e) => eprintln!("failed to read line: {}", e),
+            Err(e) => {
+                eprintln!("failed to read line: {}", e);
+                break;
+            }
         }
     }
 
     editor.remove_client(CLIENT_ID);
+    // let the pending notifications be written
+    drop(editor);
+    let _ = printer.join();
 }
 
 pub struct StdioClient {
-- 
2.43.0


From 524998e11d963b9dcef82eed9bcdd97bf19ea084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 19/37] fix: write each message of the JSON bridge as one
 complete line

---
 core/src/clients.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index c8d2f06..03b1795 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -73,10 +73,19 @@ impl StdioClient {
                 while let Some(maybe_line) = lines.next().await {
                     match maybe_line {
                         Ok(line) => match line.parse() {
-                            Ok(msg) => requests_tx.send(msg).await.expect("send request"),
+                            Ok(msg) => {
+                                if requests_tx.send(msg).await.is_err() {
+                                    break;
+                                }
+                            }
                             Err(e) => log::error!("invalid message: {}: {}", e, line),
                         },
-                        Err(e) => log::error!("failed to read line from stdin: {}", e),
+                        Err(e) => {
+                            log::error!("failed to read line from stdin: {}", e);
+                            if e.kind() != io::ErrorKind::InvalidData {
+                                break;
+                            }
+                        }
                     }
                 }
             })
@@ -85,7 +94,10 @@ impl StdioClient {
             ex.spawn(request_loop).detach();
             while let Some(event) = events.next().await {
                 match event {
-                    Ok(msg) => stdout.write_all(msg.to_string().as_bytes()).await?,
+                    Ok(msg) => {
+                        stdout.write_all(format!("{}\n", msg).as_bytes()).await?;
+                        stdout.flush().await?;
+                    }
                     Err(e) => log::error!("invalid event: {}", e),
                 }
             }
-- 
2.43.0


From c68ed010d71dad3bafaf678d7672715d4547a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 20/37] fix: keep the null result of responses that are read
 and written again

---
 remote/src/jsonrpc.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/remote/src/jsonrpc.rs b/remote/src/jsonrpc.rs
index acc5fe7..fd1f807 100644
--- a/remote/src/jsonrpc.rs
+++ b/remote/src/jsonrpc.rs
@@ -198,11 +198,23 @@ impl fmt::Display for Error {
 
 impl std::error::Error for Error {}
 
+/// Tells a null value from a missing one.
+fn deserialize_some<'de, D>(deserializer: D) -> Result<Option<Value>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    serde::Deserialize::deserialize(deserializer).map(Some)
+}
+
 #[derive(Debug, Serialize, Deserialize)]
 pub struct Response {
     jsonrpc: String,
     pub id: Id,
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(
+        default,
+        deserialize_with = "deserialize_some",
+        skip_serializing_if = "Option::is_none"
+    )]
     result: Option<Value>,
     #[serde(skip_serializing_if = "Option::is_none")]
     error: Option<Error>,
-- 
2.43.0


From 1c1db02ad7fe2a24d1825407dfec86e6a8db2779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 21/37] fix: survive read failures inside of a line in clients

---
 core/src/clients.rs  |  7 ++++++-
 remote/src/client.rs | 11 ++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index 03b1795..2379f20 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -69,8 +69,13 @@ impl StdioClient {
             let mut stdout = Unblock::new(std::io::stdout());
             let requests_tx = self.requests.clone();
             ex.spawn(async move {
-                let mut lines = io::BufReader::new(stdin).lines();
+                // lines() panics when reading fails inside of a line (in debug builds)
+                let mut lines = io::BufReader::new(stdin).split(b'\n');
                 while let Some(maybe_line) = lines.next().await {
+                    let maybe_line = maybe_line.and_then(|line| {
+                        String::from_utf8(line)
+                            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
+                    });
                     match maybe_line {
                         Ok(line) => match line.parse() {
                             Ok(msg) => {
diff --git a/remote/src/client.rs b/remote/src/client.rs
index 37a288a..429f371 100644
--- a/remote/src/client.rs
+++ b/remote/src/client.rs
@@ -8,8 +8,8 @@ use serde::de::Error as _;
 pub type ClientEventResult = Result<ClientEvent, JsonCodingError>;
 
 pub type ClientEventStream = stream::Map<
-    io::Lines<io::BufReader<ServerStream>>,
-    fn(io::Result<String>) -> ClientEventResult,
+    io::Split<io::BufReader<ServerStream>>,
+    fn(io::Result<Vec<u8>>) -> ClientEventResult,
 >;
 
 pub struct Client {
@@ -36,12 +36,13 @@ impl Client {
                 let _ = writer.write_all(format!("{}\n", message).as_bytes()).await;
             }
         };
-        fn parse_line(x: io::Result<String>) -> Result<ClientEvent, JsonCodingError> {
+        fn parse_line(x: io::Result<Vec<u8>>) -> Result<ClientEvent, JsonCodingError> {
             log::trace!("polled a new client event");
-            x.map_err(JsonCodingError::custom)?.parse()
+            serde_json::from_slice(&x.map_err(JsonCodingError::custom)?)
         }
         Ok((
-            io::BufReader::new(stream).lines().map(parse_line),
+            // lines() panics when reading fails inside of a line (in debug builds)
+            io::BufReader::new(stream).split(b'\n').map(parse_line),
             request_loop,
         ))
     }
-- 
2.43.0


From d062201a39692551b36b801a2e55c88767d6bf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:29 +0000
Subject: [PATCH 22/37] fix: lose no message in the JSON bridge when output is
 flushed

---
 core/src/clients.rs | 64 ++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index 2379f20..e394af0 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -1,11 +1,11 @@
-use std::io::BufRead;
+use std::io::{BufRead, Write};
 use std::thread;
 
 use crate::editor::Editor;
 use async_channel::{unbounded, Sender};
 use async_executor::LocalExecutor;
-use blocking::Unblock;
-use futures_lite::*;
+use blocking::unblock;
+use futures_lite::{future, io, StreamExt};
 use remote::{protocol::requests::EditParams, Client, Request, Session};
 
 const CLIENT_ID: usize = 1;
@@ -63,45 +63,45 @@ impl StdioClient {
     }
 
     pub fn run(&self) -> io::Result<()> {
-        let ex = LocalExecutor::new();
-        future::block_on(ex.run(async {
-            let stdin = Unblock::new(std::io::stdin());
-            let mut stdout = Unblock::new(std::io::stdout());
-            let requests_tx = self.requests.clone();
-            ex.spawn(async move {
-                // lines() panics when reading fails inside of a line (in debug builds)
-                let mut lines = io::BufReader::new(stdin).split(b'\n');
-                while let Some(maybe_line) = lines.next().await {
-                    let maybe_line = maybe_line.and_then(|line| {
-                        String::from_utf8(line)
-                            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
-                    });
-                    match maybe_line {
-                        Ok(line) => match line.parse() {
-                            Ok(msg) => {
-                                if requests_tx.send(msg).await.is_err() {
-                                    break;
-                                }
-                            }
-                            Err(e) => log::error!("invalid message: {}: {}", e, line),
-                        },
-                        Err(e) => {
-                            log::error!("failed to read line from stdin: {}", e);
-                            if e.kind() != io::ErrorKind::InvalidData {
+        let requests_tx = self.requests.clone();
+        // Unblock can drop what was written last when it is flushed or closed
+        thread::spawn(move || {
+            for maybe_line in std::io::stdin().lock().split(b'\n') {
+                let maybe_line = maybe_line.and_then(|line| {
+                    String::from_utf8(line)
+                        .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
+                });
+                match maybe_line {
+                    Ok(line) => match line.parse() {
+                        Ok(msg) => {
+                            if future::block_on(requests_tx.send(msg)).is_err() {
                                 break;
                             }
                         }
+                        Err(e) => log::error!("invalid message: {}: {}", e, line),
+                    },
+                    Err(e) => {
+                        log::error!("failed to read line from stdin: {}", e);
+                        if e.kind() != io::ErrorKind::InvalidData {
+                            break;
+                        }
                     }
                 }
-            })
-            .detach();
+            }
+        });
+        let ex = LocalExecutor::new();
+        future::block_on(ex.run(async {
             let (mut events, request_loop) = self.client.run().await?;
             ex.spawn(request_loop).detach();
             while let Some(event) = events.next().await {
                 match event {
                     Ok(msg) => {
-                        stdout.write_all(format!("{}\n", msg).as_bytes()).await?;
-                        stdout.flush().await?;
+                        unblock(move || {
+                            let mut stdout = std::io::stdout();
+                            stdout.write_all(format!("{}\n", msg).as_bytes())?;
+                            stdout.flush()
+                        })
+                        .await?
                     }
                     Err(e) => log::error!("invalid event: {}", e),
                 }
-- 
2.43.0


From f53874067dffba9f144467aab1f7d3d024bd99d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:19 +0000
Subject: [PATCH 23/37] fix: go on when the log of the terminal cannot be
 written

---
 core/src/tui.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 3df42f9..98f64c2 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -17,14 +17,9 @@ use remote::{Connection, ConnectionEvent, Menu, Session};
 fn logline(msg: impl std::fmt::Display) {
     use std::fs::OpenOptions;
 
-    let mut file = OpenOptions::new()
-        .create(true)
-        .append(true)
-        .open("log.txt")
-        .expect("open file");
-
-    if let Err(e) = writeln!(file, "{}", msg) {
-        eprintln!("Couldn't write to file: {}", e);
+    // not every directory can be written to, and the screen is in use
+    if let Ok(mut file) = OpenOptions::new().create(true).append(true).open("log.txt") {
+        let _ = writeln!(file, "{}", msg);
     }
 }
 
-- 
2.43.0


From 5b72481cdf5436207421c9614b6a1b6b3020476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:22 +0000
Subject: [PATCH 24/37] fix: ignore input after the connection is lost

---
 core/src/tui.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 98f64c2..23afd0e 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -110,18 +110,18 @@ impl Term {
                 let mut reader = EventStream::new();
                 while let Some(event) = reader.next().await {
                     logline(format!("new input: {:?}", event));
-                    match event {
-                        Ok(ev @ CEvent::Key(_)) => {
-                            tx.send(Event::Input(ev)).await.expect("send event")
+                    let sent = match event {
+                        Ok(ev @ CEvent::Key(_)) => tx.send(Event::Input(ev)).await,
+                        Ok(CEvent::Mouse(_)) => Ok(()),
+                        Ok(CEvent::Resize(w, h)) => tx.send(Event::Resize((w, h))).await,
+                        Err(e) => {
+                            tx.send(Event::Error(format!("\"event read: {}\"", e)))
+                                .await
                         }
-                        Ok(CEvent::Mouse(_)) => {}
-                        Ok(CEvent::Resize(w, h)) => {
-                            tx.send(Event::Resize((w, h))).await.expect("send event")
-                        }
-                        Err(e) => tx
-                            .send(Event::Error(format!("\"event read: {}\"", e)))
-                            .await
-                            .expect("send event"),
+                    };
+                    if sent.is_err() {
+                        // the connection is lost
+                        break;
                     }
                 }
             })
-- 
2.43.0


From 02521f15fbaec6e531e62bca39db6e594ea0a0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:27 +0000
Subject: [PATCH 25/37] fix: draw views, menus, hints and the status on
 terminals of any size

---
 core/src/tui.rs | 99 ++++++++++++++++++++++++++++---------------------
 1 file changed, 57 insertions(+), 42 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 23afd0e..9570729 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -11,7 +11,7 @@ use crossterm::{
     Result as CTResult,
 };
 use futures_lite::*;
-use remote::protocol::{notifications::HintParams, Face, Key, KeyEvent, TextFragment};
+use remote::protocol::{notifications::HintParams, Face, Key, KeyEvent, Text, TextFragment};
 use remote::{Connection, ConnectionEvent, Menu, Session};
 
 fn logline(msg: impl std::fmt::Display) {
@@ -63,6 +63,25 @@ fn format_text(tf: &TextFragment) -> String {
     }
 }
 
+/// Returns the beginning of `text`, at most `width` characters of it.
+fn clip(text: &Text, width: usize) -> Text {
+    let mut left = width;
+    let mut fragments = Vec::new();
+    for tf in text {
+        let clipped: String = tf.text.chars().take(left).collect();
+        left -= clipped.chars().count();
+        fragments.push(TextFragment {
+            text: clipped,
+            face: tf.face.clone(),
+        });
+    }
+    fragments.into()
+}
+
+fn chars_len(text: &Text) -> usize {
+    text.plain().chars().count()
+}
+
 #[derive(Debug)]
 enum Event {
     DrawHint(HintParams),
@@ -180,31 +199,26 @@ impl Term {
     fn draw_view(&mut self) -> CTResult<()> {
         let mut stdout = io::stdout();
         let (width, height) = self.last_size;
+        let width = width as usize;
+        let display_size = height.saturating_sub(1) as usize; // the last line is the status
         let state = self.connection.state();
 
         queue!(stdout, Clear(ClearType::All))?;
-        let mut i = 0;
         let mut content = Vec::new();
         'outer: for item in &state.view {
-            let buffer = &item.buffer;
-            let coords = format!("{}:{}", item.start, item.end);
-            let padding = "-".repeat(width as usize - 5 - buffer.len() - coords.len());
-            content.push(format!("-[{}][{}]{}", buffer, coords, padding));
-            i += 1;
+            if content.len() == display_size {
+                break;
+            }
+            let title = format!("-[{}][{}:{}]", item.buffer, item.start, item.end);
+            let title: String = title.chars().take(width).collect();
+            content.push(format!("{:-<1$}", title, width));
 
             for lens in &item.lenses {
                 for line in &lens.lines {
-                    if i == (height - 1) {
+                    if content.len() == display_size {
                         break 'outer;
                     }
-                    let rendered = line.render(format_text);
-                    let line_view = if line.text_len() > width as usize {
-                        &rendered[..width as usize]
-                    } else {
-                        &rendered
-                    };
-                    content.push(line_view.to_string());
-                    i += 1;
+                    content.push(clip(line, width).render(format_text));
                 }
             }
         }
@@ -219,21 +233,19 @@ impl Term {
         let mut stdout = io::stdout();
         let (width_w, height_w) = self.last_size;
 
-        let width_h = hint.text[0].plain().chars().count();
+        let size = hint.text.len().min(height_w as usize);
+        let width_h = hint.text.iter().map(chars_len).max().unwrap_or(0);
+        let width_h = width_h.min(width_w as usize);
         let x = width_w - width_h as u16;
-        let mut y = height_w - hint.text.len() as u16;
-        for line in &hint.text {
-            // TODO clamp to screen size (or less?)
-            let text = line.render(format_text);
+        let mut y = height_w - size as u16;
+        for line in hint.text.iter().take(size) {
+            let text = clip(line, width_h).render(format_text);
             queue!(
                 stdout,
                 cursor::MoveTo(x, y),
                 PrintStyledContent(style(text).reverse())
             )?;
             y += 1;
-            if y == height_w {
-                break;
-            }
         }
 
         stdout.flush()?;
@@ -243,31 +255,27 @@ impl Term {
     fn draw_menu(&mut self, menu: &Menu) -> CTResult<()> {
         let mut stdout = io::stdout();
         let (width, height) = self.last_size;
+        let width = width as usize;
         let title = format!("{}:{}", menu.title, menu.search);
-        let padding = " ".repeat(width as usize - title.len());
+        let title: String = title.chars().take(width).collect();
+        let title = format!("{:<1$}", title, width);
 
         queue!(
             stdout,
             Clear(ClearType::All),
             cursor::MoveTo(0, 0),
-            PrintStyledContent(style(title + &padding).reverse())
+            PrintStyledContent(style(title).reverse())
         )?;
         {
-            let display_size = (height - 1) as usize;
+            let display_size = height.saturating_sub(1) as usize;
             for i in 0..menu.entries.len() {
                 if i == display_size {
                     break;
                 }
-                let item = &menu.entries[i].text.render(|tf| match tf.face {
+                let item_view = clip(&menu.entries[i].text, width).render(|tf| match tf.face {
                     Face::Match => style(&tf.text).underlined().to_string(),
                     _ => tf.text.to_owned(),
                 });
-
-                let item_view = if item.len() > width as usize {
-                    &item[..width as usize]
-                } else {
-                    &item
-                };
                 let item_print = if i == menu.selected {
                     PrintStyledContent(style(item_view).reverse())
                 } else {
@@ -290,20 +298,27 @@ impl Term {
         let (width, height) = self.last_size;
         let state = self.connection.state();
 
-        let echo = state.echo.unwrap_or_default();
-        let status = state
+        let width = width as usize;
+        let echo = clip(&state.echo.unwrap_or_default(), width);
+        let echo_len = chars_len(&echo);
+        let status: Vec<char> = state
             .status
             .iter()
             .map(|item| item.text.plain())
             .collect::<Vec<String>>()
-            .join("·");
-        let text = if echo.text_len() >= width as usize {
+            .join("·")
+            .chars()
+            .collect();
+        let text = if echo_len == width {
             echo.render(format_text)
-        } else if echo.text_len() + status.len() >= width as usize {
-            let skip = echo.text_len() - width as usize + 1;
-            format!("{} {}", echo.render(format_text), &status[skip..])
+        } else if echo_len + status.len() >= width {
+            // the end of the status is what fits
+            let skip = echo_len + 1 + status.len() - width;
+            let status: String = status[skip..].iter().collect();
+            format!("{} {}", echo.render(format_text), status)
         } else {
-            let padding = width as usize - echo.text_len() - status.len();
+            let padding = width - echo_len - status.len();
+            let status: String = status.iter().collect();
             format!(
                 "{}{}{}",
                 echo.render(format_text),
-- 
2.43.0


From bdf82fd4fa6532a3353fc31f3401f98b43e88351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:30 +0000
Subject: [PATCH 26/37] fix: keep an open menu on the screen and no closed one

---
 core/src/tui.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 9570729..eaec001 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -84,10 +84,9 @@ fn chars_len(text: &Text) -> usize {
 
 #[derive(Debug)]
 enum Event {
+    Draw,
     DrawHint(HintParams),
-    DrawMenu(Menu),
     DrawStatus,
-    DrawView,
     Error(String),
     Input(CEvent),
     Resize((u16, u16)),
@@ -155,10 +154,11 @@ impl Term {
                     logline(format!("new message: {:?}", msg));
                     use ConnectionEvent::*;
                     match msg {
-                        Echo(_) | View(_) => tx.send(Event::DrawView).await.expect("send event"),
+                        Echo(_) | Menu(_) | View(_) => {
+                            tx.send(Event::Draw).await.expect("send event")
+                        }
                         Hint(hint) => tx.send(Event::DrawHint(hint)).await.expect("send event"),
                         Info(_, _) => {}
-                        Menu(menu) => tx.send(Event::DrawMenu(menu)).await.expect("send event"),
                         Status(_) => tx.send(Event::DrawStatus).await.expect("send event"),
                         ConnErr(msg) => tx.send(Event::Error(msg)).await.expect("send event"),
                         Noop => {}
@@ -173,8 +173,7 @@ impl Term {
                 logline(format!("new event: {:?}", event));
                 use Event::*;
                 match event {
-                    DrawMenu(menu) => self.draw_menu(&menu).expect("draw menu"),
-                    DrawView => self.draw_view().expect("draw view"),
+                    Draw => self.draw().expect("draw screen"),
                     DrawHint(h) => self.draw_hint(&h).expect("draw hint"),
                     DrawStatus => self.draw_status(true).expect("draw view"),
                     Error(msg) => self.error(&msg),
@@ -196,6 +195,13 @@ impl Term {
         self.connection.exec(&format!("editor:error({})", message));
     }
 
+    fn draw(&mut self) -> CTResult<()> {
+        match self.connection.state().menu {
+            Some(menu) => self.draw_menu(&menu),
+            None => self.draw_view(),
+        }
+    }
+
     fn draw_view(&mut self) -> CTResult<()> {
         let mut stdout = io::stdout();
         let (width, height) = self.last_size;
@@ -342,10 +348,7 @@ impl Term {
         let current = (w, h);
         if self.last_size != current {
             self.last_size = current;
-            match self.connection.state().menu {
-                Some(menu) => self.draw_menu(&menu)?,
-                None => self.draw_view()?,
-            }
+            self.draw()?;
         }
         Ok(())
     }
@@ -365,13 +368,14 @@ impl Term {
                     key: Key::Escape, ..
                 } => {
                     self.connection.action_menu_cancel();
-                    self.draw_view()?;
+                    self.draw()?;
                 }
                 KeyEvent {
                     key: Key::Enter, ..
                 } => {
+                    // without entries the menu stays open
                     self.connection.menu_select();
-                    self.draw_view()?;
+                    self.draw()?;
                 }
                 KeyEvent { key: Key::Up, .. } => {
                     self.connection.action_menu_select_previous();
-- 
2.43.0


From b1a569379357265c0dc4efaebb946e6851ce8ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:34 +0000
Subject: [PATCH 27/37] fix: add keys to what was typed in a menu before the
 server answers

---
 core/src/tui.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index eaec001..8d78fbb 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -96,6 +96,8 @@ pub struct Term {
     connection: Connection,
     exit_pending: bool,
     last_size: (u16, u16),
+    // command and search asked for from the open menu, until the answer is shown
+    asked: Option<(String, String)>,
 }
 
 impl Term {
@@ -105,6 +107,7 @@ impl Term {
             connection: Connection::new(session),
             exit_pending: false,
             last_size: terminal::size().expect("get terminal"),
+            asked: None,
         };
         logline("new connection");
         for fname in filenames {
@@ -197,8 +200,16 @@ impl Term {
 
     fn draw(&mut self) -> CTResult<()> {
         match self.connection.state().menu {
-            Some(menu) => self.draw_menu(&menu),
-            None => self.draw_view(),
+            Some(menu) => {
+                if self.asked == Some((menu.command.clone(), menu.search.clone())) {
+                    self.asked = None;
+                }
+                self.draw_menu(&menu)
+            }
+            None => {
+                self.asked = None;
+                self.draw_view()
+            }
         }
     }
 
@@ -357,6 +368,18 @@ impl Term {
         self.connection.menu(command, search);
     }
 
+    fn current_search(&self, menu: &Menu) -> String {
+        match &self.asked {
+            Some((command, search)) if *command == menu.command => search.to_owned(),
+            _ => menu.search.to_owned(),
+        }
+    }
+
+    fn do_search(&mut self, command: String, search: String) {
+        self.do_menu(&command, &search);
+        self.asked = Some((command, search));
+    }
+
     fn handle_input(&mut self, value: impl Into<ToKey>) -> CTResult<()> {
         let key = match value.into().0 {
             Some(k) => k,
@@ -390,17 +413,17 @@ impl Term {
                 KeyEvent {
                     key: Key::Char(c), ..
                 } => {
-                    let mut search = menu.search;
+                    let mut search = self.current_search(&menu);
                     search.push(c);
-                    self.do_menu(&menu.command, &search)
+                    self.do_search(menu.command, search)
                 }
                 KeyEvent {
                     key: Key::Backspace,
                     ..
                 } => {
-                    let mut search = menu.search;
+                    let mut search = self.current_search(&menu);
                     search.pop();
-                    self.do_menu(&menu.command, &search)
+                    self.do_search(menu.command, search)
                 }
                 _ => {}
             }
-- 
2.43.0


From 5012d4dbd4b61daa66ad170913c7004e59f1dc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:38 +0000
Subject: [PATCH 28/37] fix: keep the selected entry of a menu on the screen

---
 core/src/tui.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 8d78fbb..ff23afd 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -285,11 +285,17 @@ impl Term {
         )?;
         {
             let display_size = height.saturating_sub(1) as usize;
-            for i in 0..menu.entries.len() {
-                if i == display_size {
-                    break;
-                }
-                let item_view = clip(&menu.entries[i].text, width).render(|tf| match tf.face {
+            // the selected entry is always shown
+            let first = (menu.selected + 1).saturating_sub(display_size);
+            for (row, (i, entry)) in menu
+                .entries
+                .iter()
+                .enumerate()
+                .skip(first)
+                .take(display_size)
+                .enumerate()
+            {
+                let item_view = clip(&entry.text, width).render(|tf| match tf.face {
                     Face::Match => style(&tf.text).underlined().to_string(),
                     _ => tf.text.to_owned(),
                 });
@@ -300,7 +306,7 @@ impl Term {
                 };
                 queue!(
                     stdout,
-                    cursor::MoveTo(0, 1 + i as u16),
+                    cursor::MoveTo(0, 1 + row as u16),
                     item_print,
                     Clear(ClearType::UntilNewLine)
                 )?;
-- 
2.43.0


From 3fc5ff3bbc4e742d4c03e14dd3e445ce6ccf5be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:56 +0000
Subject: [PATCH 29/37] fix: keep what was asked right before the terminal
 client is left

---
 core/src/tui.rs          | 24 +++++++++++++++++++++++-
 remote/src/connection.rs |  5 +++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index ff23afd..48d066a 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -54,6 +54,15 @@ impl From<CEvent> for ToKey {
     }
 }
 
+fn is_exit_key(ev: &CEvent) -> bool {
+    match ev {
+        CEvent::Key(ke) => {
+            ke.code == CKeyCode::Char('q') && ke.modifiers.contains(CKeyModifiers::ALT)
+        }
+        _ => false,
+    }
+}
+
 fn format_text(tf: &TextFragment) -> String {
     match tf.face {
         Face::Default => tf.text.to_owned(),
@@ -149,7 +158,7 @@ impl Term {
             .detach();
 
             let (mut messages, request_loop) = self.connection.connect().await.expect("connect");
-            ex.spawn(request_loop).detach();
+            let requests = ex.spawn(request_loop);
             let messages_tx = tx.clone();
             ex.spawn(async move {
                 let tx = messages_tx;
@@ -187,6 +196,19 @@ impl Term {
                     break;
                 }
             }
+            if self.exit_pending {
+                // what was asked for is sent before leaving, unless the key is pressed again
+                self.connection.close();
+                future::or(requests, async {
+                    while let Ok(event) = rx.recv().await {
+                        match event {
+                            Event::Input(ev) if is_exit_key(&ev) => break,
+                            _ => (),
+                        }
+                    }
+                })
+                .await;
+            }
         }));
     }
 
diff --git a/remote/src/connection.rs b/remote/src/connection.rs
index 8f3c10d..edcdf4d 100644
--- a/remote/src/connection.rs
+++ b/remote/src/connection.rs
@@ -175,6 +175,11 @@ impl Connection {
         future::block_on(self.requests.send(message)).expect("send request");
     }
 
+    /// Ends the request loop once it has sent what was requested so far.
+    pub fn close(&self) {
+        self.requests.close();
+    }
+
     pub fn quit(&mut self) {
         let id = self.request_id();
         self.request(requests::Quit::new_noarg(id));
-- 
2.43.0


From 85e51190e6d7be46c1c28b88338202f919ad81b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:00 +0000
Subject: [PATCH 30/37] fix: session directory removed by another server while
 it is created

---
 remote/src/transport/socket.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/remote/src/transport/socket.rs b/remote/src/transport/socket.rs
index d12c589..ee426cb 100644
--- a/remote/src/transport/socket.rs
+++ b/remote/src/transport/socket.rs
@@ -9,6 +9,11 @@ use async_net::unix::{UnixListener, UnixStream};
 #[cfg(windows)]
 use super::socket_windows::{UnixListener, UnixStream};
 
+#[cfg(unix)]
+fn is_no_file(path: &Path) -> bool {
+    fs::symlink_metadata(path).map_or(true, |m| m.is_dir())
+}
+
 /// Keeps the other processes from changing the directory until the lock is dropped.
 #[cfg(unix)]
 fn lock_dir(path: &Path, create: bool) -> io::Result<fs::File> {
@@ -16,7 +21,11 @@ fn lock_dir(path: &Path, create: bool) -> io::Result<fs::File> {
 
     loop {
         if create {
-            fs::create_dir_all(path)?;
+            match fs::create_dir_all(path) {
+                // it was there and has been deleted since
+                Err(e) if e.kind() == io::ErrorKind::AlreadyExists && is_no_file(path) => continue,
+                res => res?,
+            }
         }
         let dir = match fs::File::open(path) {
             Err(e) if create && e.kind() == io::ErrorKind::NotFound => continue,
-- 
2.43.0


From 399b10c5ac02a06c6ff8b58869b79b8f7dc07280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 31/37] fix: addresses of sessions whose second number has
 several digits

---
 remote/src/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/remote/src/session.rs b/remote/src/session.rs
index 73285fb..1c1d402 100644
--- a/remote/src/session.rs
+++ b/remote/src/session.rs
@@ -9,7 +9,7 @@ use regex::Regex;
 
 lazy_static! {
     static ref RE_ADDR: Regex =
-        Regex::new(r"^@(?P<address>\w+|\d+\.\d\.\d+\.\d+)?:(?P<port>\d+)$").unwrap();
+        Regex::new(r"^@(?P<address>\w+|\d+\.\d+\.\d+\.\d+)?:(?P<port>\d+)$").unwrap();
 }
 
 #[cfg(unix)]
-- 
2.43.0


From 7d2a9425e7421f1fec223d6d700b5085b58bfa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:34 +0000
Subject: [PATCH 32/37] fix: names of hosts in the address of a session

---
 remote/src/session.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/remote/src/session.rs b/remote/src/session.rs
index 1c1d402..59a1dc1 100644
--- a/remote/src/session.rs
+++ b/remote/src/session.rs
@@ -1,7 +1,7 @@
 use std::env;
 use std::fmt;
 use std::fs;
-use std::net::SocketAddr;
+use std::net::{SocketAddr, ToSocketAddrs};
 use std::path::PathBuf;
 use std::str::FromStr;
 
@@ -51,7 +51,9 @@ impl FromStr for ConnectionMode {
                 .unwrap_or("127.0.0.1");
             let port = caps.name("port").unwrap().as_str();
             let sock_addr = format!("{}:{}", address, port)
-                .parse()
+                .to_socket_addrs()
+                .ok()
+                .and_then(|mut addrs| addrs.find(|addr| addr.is_ipv4()))
                 .expect("invalid address");
             Ok(Tcp(sock_addr))
         } else {
-- 
2.43.0


From 9faf61c3ac23e8ce7786cb2935297c4ad8a13ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:39 +0000
Subject: [PATCH 33/37] fix: start the server of the session asked for,
 whatever its name

---
 remote/src/lib.rs     | 6 +++++-
 remote/src/session.rs | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/remote/src/lib.rs b/remote/src/lib.rs
index c3f1a73..5c41af7 100644
--- a/remote/src/lib.rs
+++ b/remote/src/lib.rs
@@ -43,7 +43,11 @@ pub fn find_bin() -> String {
 
 pub fn start_daemon(session: &Session) -> io::Result<u32> {
     let bin = find_bin();
-    let session_arg = format!("--session={}", session.mode);
+    // the whole path of a socket since the name may not be in the session directory
+    let session_arg = match &session.mode {
+        ConnectionMode::Socket(path) => format!("--session={}", path.display()),
+        mode => format!("--session={}", mode),
+    };
     let args = vec!["--mode=server", &session_arg];
     let stderr = if std::env::var("CED_FWSTDERR") == Ok(String::from("1")) {
         log::debug!("forwarding stderr from daemon to client");
diff --git a/remote/src/session.rs b/remote/src/session.rs
index 59a1dc1..785edae 100644
--- a/remote/src/session.rs
+++ b/remote/src/session.rs
@@ -33,7 +33,10 @@ impl fmt::Display for ConnectionMode {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         use self::ConnectionMode::*;
         match self {
-            Socket(path) => write!(f, "{}", path.file_name().unwrap().to_str().unwrap()),
+            Socket(path) => match path.file_name() {
+                Some(name) => write!(f, "{}", name.to_str().unwrap()),
+                None => write!(f, "{}", path.display()),
+            },
             Tcp(addr) => write!(f, "@{}", addr),
         }
     }
-- 
2.43.0


From 6a6800efafa062b4f5626ac9aed3b7d41357a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:44 +0000
Subject: [PATCH 34/37] fix: a path that cannot be a socket is not served

---
 remote/src/transport/socket.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/remote/src/transport/socket.rs b/remote/src/transport/socket.rs
index ee426cb..bd85767 100644
--- a/remote/src/transport/socket.rs
+++ b/remote/src/transport/socket.rs
@@ -51,9 +51,14 @@ fn probe(path: &Path) -> bool {
     // refused for another reason
     match UnixDatagram::unbound().and_then(|socket| socket.connect(path)) {
         Ok(()) => true,
-        Err(e) => {
-            e.kind() != io::ErrorKind::ConnectionRefused && e.kind() != io::ErrorKind::NotFound
-        }
+        Err(e) => !matches!(
+            e.kind(),
+            io::ErrorKind::ConnectionRefused
+                | io::ErrorKind::NotFound
+                // cannot be the path of a socket
+                | io::ErrorKind::NotADirectory
+                | io::ErrorKind::InvalidInput
+        ),
     }
 }
 
-- 
2.43.0


From 4a1d99f7985f120a35a9625238b51fc05c87d7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:31 +0000
Subject: [PATCH 35/37] fix: bind a socket given by a relative path without a
 directory

---
 remote/src/transport/socket.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/remote/src/transport/socket.rs b/remote/src/transport/socket.rs
index bd85767..d133094 100644
--- a/remote/src/transport/socket.rs
+++ b/remote/src/transport/socket.rs
@@ -19,6 +19,12 @@ fn is_no_file(path: &Path) -> bool {
 fn lock_dir(path: &Path, create: bool) -> io::Result<fs::File> {
     use std::os::unix::fs::MetadataExt;
 
+    // the parent of a relative path can be empty
+    let path = if path.as_os_str().is_empty() {
+        Path::new(".")
+    } else {
+        path
+    };
     loop {
         if create {
             match fs::create_dir_all(path) {
-- 
2.43.0


From 2d51f918e2c58b5a5416e8664c167c2a31bac30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:02 +0000
Subject: [PATCH 36/37] fix: a search typed before the answers to earlier ones
 could be lost

The search asked for was taken as answered when the menu shown before had the
same one.
---
 core/src/tui.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 48d066a..4dbe5ae 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -105,7 +105,7 @@ pub struct Term {
     connection: Connection,
     exit_pending: bool,
     last_size: (u16, u16),
-    // command and search asked for from the open menu, until the answer is shown
+    // command and search asked for last from the open menu, the answer may not be there yet
     asked: Option<(String, String)>,
 }
 
@@ -223,7 +223,7 @@ impl Term {
     fn draw(&mut self) -> CTResult<()> {
         match self.connection.state().menu {
             Some(menu) => {
-                if self.asked == Some((menu.command.clone(), menu.search.clone())) {
+                if self.asked.as_ref().map_or(false, |a| a.0 != menu.command) {
                     self.asked = None;
                 }
                 self.draw_menu(&menu)
-- 
2.43.0


From 05e6d55cdf35123865d222f71e27d3b3ac738f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:08 +0000
Subject: [PATCH 37/37] fix: tabulations and control characters went to the
 terminal as they are

Lines with tabulations were wider than counted and ran over the next row,
other control characters moved the cursor or changed the terminal.
---
 core/src/tui.rs | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 4dbe5ae..01ab8ba 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -72,13 +72,34 @@ fn format_text(tf: &TextFragment) -> String {
     }
 }
 
-/// Returns the beginning of `text`, at most `width` characters of it.
+const TAB_STOP: usize = 8;
+
+/// Returns what is printed for `text`, starting at the column `column`: blanks for a
+/// tabulation and a replacement for what the terminal would interpret.
+fn printable(text: &str, mut column: usize) -> String {
+    let mut printed = String::with_capacity(text.len());
+    for c in text.chars() {
+        let (c, count) = match c {
+            '\t' => (' ', TAB_STOP - column % TAB_STOP),
+            c if c.is_control() => (char::REPLACEMENT_CHARACTER, 1),
+            c => (c, 1),
+        };
+        printed.extend(std::iter::repeat(c).take(count));
+        column += count;
+    }
+    printed
+}
+
+/// Returns the beginning of what is printed for `text`, at most `width` characters of it.
 fn clip(text: &Text, width: usize) -> Text {
-    let mut left = width;
+    let mut column = 0;
     let mut fragments = Vec::new();
     for tf in text {
-        let clipped: String = tf.text.chars().take(left).collect();
-        left -= clipped.chars().count();
+        let clipped: String = printable(&tf.text, column)
+            .chars()
+            .take(width - column)
+            .collect();
+        column += clipped.chars().count();
         fragments.push(TextFragment {
             text: clipped,
             face: tf.face.clone(),
@@ -88,7 +109,7 @@ fn clip(text: &Text, width: usize) -> Text {
 }
 
 fn chars_len(text: &Text) -> usize {
-    text.plain().chars().count()
+    printable(&text.plain(), 0).chars().count()
 }
 
 #[derive(Debug)]
@@ -249,7 +270,7 @@ impl Term {
                 break;
             }
             let title = format!("-[{}][{}:{}]", item.buffer, item.start, item.end);
-            let title: String = title.chars().take(width).collect();
+            let title: String = printable(&title, 0).chars().take(width).collect();
             content.push(format!("{:-<1$}", title, width));
 
             for lens in &item.lenses {
@@ -296,7 +317,7 @@ impl Term {
         let (width, height) = self.last_size;
         let width = width as usize;
         let title = format!("{}:{}", menu.title, menu.search);
-        let title: String = title.chars().take(width).collect();
+        let title: String = printable(&title, 0).chars().take(width).collect();
         let title = format!("{:<1$}", title, width);
 
         queue!(
@@ -346,14 +367,13 @@ impl Term {
         let width = width as usize;
         let echo = clip(&state.echo.unwrap_or_default(), width);
         let echo_len = chars_len(&echo);
-        let status: Vec<char> = state
+        let status = state
             .status
             .iter()
             .map(|item| item.text.plain())
             .collect::<Vec<String>>()
-            .join("·")
-            .chars()
-            .collect();
+            .join("·");
+        let status: Vec<char> = printable(&status, 0).chars().collect();
         let text = if echo_len == width {
             echo.render(format_text)
         } else if echo_len + status.len() >= width {
-- 
2.43.0

