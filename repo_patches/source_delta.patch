From 3ca69f60676d93f61d21d0497af489351b440c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:48 +0000
Subject: [PATCH 01/11] fix: Compose deltas when the second one is shorter than
 the first one's result

TextDelta::compose only padded the first delta. When the second delta covers
less text than the first one produces, the lengths did not match and the
composition panicked, although text that a delta does not mention is meant to
be kept.
---
 daemon/src/types.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index 3916a9a..a064f1f 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -386,9 +386,11 @@ impl TextDelta {
     #[must_use]
     pub fn compose(self, other: Self) -> Self {
         let mut my_op_seq: OperationSeq = self.into();
-        let other_op_seq: OperationSeq = other.into();
+        let mut other_op_seq: OperationSeq = other.into();
         if my_op_seq.target_len() < other_op_seq.base_len() {
             my_op_seq.retain((other_op_seq.base_len() - my_op_seq.target_len()) as u64);
+        } else {
+            other_op_seq.retain((my_op_seq.target_len() - other_op_seq.base_len()) as u64);
         }
         my_op_seq
             .compose(&other_op_seq)
-- 
2.43.0


From e9fd6fbc9c0e2959a1492916193b5bee0396c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:11 +0000
Subject: [PATCH 02/11] fix: Don't panic on paths with ".." below a missing
 directory

Canonicalizing a path dropped the missing components one by one, but went
through the components of the original path instead of the cleaned one.
---
 daemon/src/sandbox.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index e8bce6c..61af5e5 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -145,7 +145,7 @@ fn absolute_and_canonicalized(path: &Path) -> Result<PathBuf> {
     let mut suffix_path = PathBuf::new();
     let mut prefix_path = canonical_path.clone();
 
-    for component in path.components().rev() {
+    for component in canonical_path.components().rev() {
         if prefix_path.exists() {
             break;
         }
-- 
2.43.0


From 309f3bc5cd85bf62927c7025ca88f59fcdf78708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:12 +0000
Subject: [PATCH 03/11] fix: Don't follow dangling symlinks out of the base
 directory

A dangling symlink was treated like a missing file. Writing to it then
created the link's target, even if that was outside the base directory.
---
 daemon/src/sandbox.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index 61af5e5..c8d5a4e 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -146,7 +146,9 @@ fn absolute_and_canonicalized(path: &Path) -> Result<PathBuf> {
     let mut prefix_path = canonical_path.clone();
 
     for component in canonical_path.components().rev() {
-        if prefix_path.exists() {
+        // Don't follow symlinks here: A dangling symlink exists, and may not be treated like a
+        // missing file, because writing to it would follow it, possibly out of the base directory.
+        if prefix_path.symlink_metadata().is_ok() {
             break;
         }
         prefix_path.pop();
-- 
2.43.0


From c027243a0f8da969b98c4e7812eba5443d31d61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:12 +0000
Subject: [PATCH 04/11] fix: Reject paths that leave the project directory
 through ".."

---
 daemon/src/path.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/daemon/src/path.rs b/daemon/src/path.rs
index 2c6c8be..eff9e71 100644
--- a/daemon/src/path.rs
+++ b/daemon/src/path.rs
@@ -6,6 +6,7 @@
 use anyhow::{bail, Context};
 use automerge::Prop;
 use derive_more::{AsRef, Deref, Display};
+use path_clean::PathClean;
 use serde::{Deserialize, Serialize};
 use std::path::{self, Path, PathBuf};
 
@@ -66,10 +67,14 @@ impl RelativePath {
                 base_dir.display()
             )
         })?;
+        // Resolve ".." first. Otherwise, a path could leave the project directory through it.
+        let project_dir = project_dir.clean();
+        let path = path.clean();
         let relative_path = path.strip_prefix(&project_dir).with_context(|| {
             format!(
-                "Failed to strip project directory '{}' from path {path}",
-                project_dir.display()
+                "Failed to strip project directory '{}' from path '{}'",
+                project_dir.display(),
+                path.display()
             )
         })?;
 
-- 
2.43.0


From af0a421e24ce22de0498c76533f5758317170439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:12 +0000
Subject: [PATCH 05/11] fix: Keep running when an editor vanishes

When sending to an editor failed, it was removed, but later messages from
it or to it made the daemon panic. They are dropped now.
---
 daemon/src/daemon.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 1fffef0..fc9386e 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -313,6 +313,11 @@ impl DocumentActor {
     }
 
     async fn handle_message_from_editor(&mut self, editor_id: EditorId, message: String) {
+        if !self.editor_connections.contains_key(&editor_id) {
+            debug!("Dropping a message from editor #{editor_id}, which has already been removed");
+            return;
+        }
+
         match JSONRPCFromEditor::from_jsonrpc(&message) {
             Ok(parsed_message) => match parsed_message {
                 JSONRPCFromEditor::Request { id, payload } => {
@@ -467,10 +472,10 @@ impl DocumentActor {
     }
 
     async fn send_to_editor_client(&mut self, editor_id: &EditorId, message: EditorProtocolObject) {
-        let connection = self
-            .editor_connections
-            .get_mut(editor_id)
-            .expect("Could not get editor handle");
+        let Some(connection) = self.editor_connections.get_mut(editor_id) else {
+            debug!("Dropping a message to editor #{editor_id}, which has already been removed");
+            return;
+        };
 
         connection.1.send(message).await.unwrap_or_else(|err| {
             error!("Failed to send message to editor: {err} Removing editor.");
-- 
2.43.0


From d580f25158b4cb154e5ce6faa6d855943ecde060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:12 +0000
Subject: [PATCH 06/11] fix: Don't crash when a shared file can't be written or
 checked

A peer can share paths we can't write to, for example because they are
outside the base directory, or because a parent directory is a file.
---
 daemon/src/daemon.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index fc9386e..47cbe3b 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -504,20 +504,26 @@ impl DocumentActor {
                 debug!("Writing to {abs_path}.");
 
                 // Create the parent directorie(s), if neccessary.
-                let parent_dir = abs_path.parent().unwrap();
-                sandbox::create_dir_all(&self.base_dir, parent_dir).unwrap_or_else(|_| {
-                    panic!("Could not create parent directory {}", parent_dir.display())
-                });
+                let Some(parent_dir) = abs_path.parent() else {
+                    warn!("Could not write to {abs_path}, it has no parent directory.");
+                    return;
+                };
+                if let Err(e) = sandbox::create_dir_all(&self.base_dir, parent_dir) {
+                    warn!(
+                        "Could not create parent directory {}: {e}",
+                        parent_dir.display()
+                    );
+                    return;
+                }
 
                 // If the file didn't exist before, log it.
-                if !sandbox::exists(&self.base_dir, &abs_path)
-                    .expect("Failed to check for file existence before writing to it")
-                {
+                if let Ok(false) = sandbox::exists(&self.base_dir, &abs_path) {
                     info!("Creating {file_path}.");
                 }
 
-                sandbox::write_file(&self.base_dir, &abs_path, &text.into_bytes())
-                    .unwrap_or_else(|_| panic!("Could not write to file {abs_path}"));
+                if let Err(e) = sandbox::write_file(&self.base_dir, &abs_path, &text.into_bytes()) {
+                    warn!("Could not write to file {abs_path}: {e}");
+                }
             } else {
                 warn!("Failed to get content of file '{file_path}' when writing to disk. Key should have existed?");
             }
@@ -577,7 +583,8 @@ impl DocumentActor {
             });
         for file_path in self.crdt_doc.files() {
             let absolute_file_path = self.absolute_path_for_file_path(&file_path);
-            if !sandbox::exists(&self.base_dir, &absolute_file_path).expect("") {
+            // A path we can't check is not one we could have written to, either.
+            if !sandbox::exists(&self.base_dir, &absolute_file_path).unwrap_or(false) {
                 warn!("File {file_path} exists in the CRDT, but not on disk. Deleting from CRDT.");
                 self.crdt_doc.remove_text(&file_path);
             }
-- 
2.43.0


From 4970112b6461dd6c5d7fd849c20bb76508978b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:21 +0000
Subject: [PATCH 07/11] fix: Share the text on disk when an editor opens a file
 that isn't shared yet

The editor and its OT server start from the text on disk, but the file was
created empty in the document. The first edit then applied to the wrong text.
---
 daemon/src/daemon.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 47cbe3b..bedbb65 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -600,8 +600,13 @@ impl DocumentActor {
         match message {
             ComponentMessage::Open { file_path } => {
                 self.current_file_content(file_path).unwrap_or_else(|_| {
-                    // The file doesn't exist yet - create it in the Automerge document.
-                    let text = String::new();
+                    // The file doesn't exist yet - create it in the Automerge document,
+                    // with the text on disk that the editor started from.
+                    let absolute_path = self.absolute_path_for_file_path(file_path);
+                    let text = sandbox::read_file(&self.base_dir, &absolute_path)
+                        .ok()
+                        .and_then(|bytes| String::from_utf8(bytes).ok())
+                        .unwrap_or_default();
                     self.crdt_doc.initialize_text(&text, file_path);
                     text
                 });
-- 
2.43.0


From 86414374a80bace4659db4d6736671424a11146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:19 +0000
Subject: [PATCH 08/11] fix: Close a file in all editors when a peer removes it

An edit of a removed file that was still open panicked, because there was no
text left to apply it to, and took the daemon down. Now it is refused.
---
 daemon/src/daemon.rs            | 5 +++++
 daemon/src/editor_connection.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index bedbb65..d296e96 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -214,6 +214,11 @@ impl DocumentActor {
                         PatchEffect::FileRemoval(file_path) => {
                             info!("Removing file {file_path}.");
 
+                            // There's nothing left that an editor's edits could apply to.
+                            for (connection, _) in self.editor_connections.values_mut() {
+                                connection.forget(&file_path);
+                            }
+
                             sandbox::remove_file(
                                 &self.base_dir,
                                 &self.absolute_path_for_file_path(&file_path),
diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index a8b2308..a8b9b17 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -41,6 +41,11 @@ impl EditorConnection {
         self.ot_servers.contains_key(file_path)
     }
 
+    /// Stop tracking a file. Further edits of it will be refused.
+    pub fn forget(&mut self, file_path: &RelativePath) {
+        self.ot_servers.remove(file_path);
+    }
+
     pub fn message_from_daemon(
         &mut self,
         message: &ComponentMessage,
-- 
2.43.0


From 9e27735ead3b11aff7962f14acfa7125cce075cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:36 +0000
Subject: [PATCH 09/11] fix: Bring an editor up to date when it starts from
 another text than the shared one

A file on disk is outdated while another editor has unsaved changes, and a peer
can replace a file that an editor has open. In both cases the texts stayed
different from then on, and later edits went to the wrong place or panicked.
---
 daemon/src/daemon.rs            | 31 +++++++++++++++++++++++++++++++
 daemon/src/editor_connection.rs | 20 ++++++++++++++++++++
 2 files changed, 51 insertions(+)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index d296e96..8358cc8 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -239,6 +239,14 @@ impl DocumentActor {
                     };
                     self.broadcast_to_editors(None, &message).await;
                 }
+                for file_text_delta in &file_deltas {
+                    let editor_ids: Vec<EditorId> =
+                        self.editor_connections.keys().cloned().collect();
+                    for editor_id in editor_ids {
+                        self.catch_up_editor(editor_id, &file_text_delta.file_path)
+                            .await;
+                    }
+                }
                 for cursor_state in &cursor_states {
                     let message = ComponentMessage::Cursor {
                         cursor_id: cursor_state.cursor_id.clone(),
@@ -302,6 +310,9 @@ impl DocumentActor {
         self.inside_message_to_doc(&inside_message).await;
         self.broadcast_to_editors(Some(editor_id), &inside_message)
             .await;
+        if let ComponentMessage::Open { file_path } = &inside_message {
+            self.catch_up_editor(editor_id, file_path).await;
+        }
         for message_to_editor in messages_to_editor {
             self.send_to_editor_client(
                 &editor_id,
@@ -669,6 +680,26 @@ impl DocumentActor {
         }
     }
 
+    /// The text an editor has of a file can differ from the document: What it has loaded from disk
+    /// is outdated while other editors have unsaved changes, and a peer can replace a whole file.
+    async fn catch_up_editor(&mut self, editor_id: EditorId, file_path: &RelativePath) {
+        let Ok(text) = self.current_file_content(file_path) else {
+            return;
+        };
+        let Some(connection) = self.editor_connections.get_mut(&editor_id) else {
+            return;
+        };
+
+        let messages_to_editor = connection.0.catch_up(file_path, &text);
+        for message_to_editor in messages_to_editor {
+            self.send_to_editor_client(
+                &editor_id,
+                EditorProtocolObject::Request(message_to_editor),
+            )
+            .await;
+        }
+    }
+
     async fn maybe_delete_cursor_position(&mut self, cursor_id: &str) {
         self.crdt_doc.maybe_delete_cursor_position(cursor_id);
         let _ = self.doc_changed_ping_tx.send(());
diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index a8b9b17..1e8884b 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -94,6 +94,26 @@ impl EditorConnection {
         }
     }
 
+    /// Calculate what's needed to bring the editor's text of a file to the given one.
+    pub fn catch_up(
+        &mut self,
+        file_path: &RelativePath,
+        text: &str,
+    ) -> Vec<EditorProtocolMessageToEditor> {
+        let Some(ot_server) = self.ot_servers.get_mut(file_path) else {
+            return vec![];
+        };
+        let current_text = ot_server.current_content();
+        if current_text == text {
+            return vec![];
+        }
+        let delta = dissimilar::diff(&current_text, text).into();
+        self.message_from_daemon(&ComponentMessage::Edit {
+            file_path: file_path.clone(),
+            delta,
+        })
+    }
+
     pub fn message_from_editor(
         &mut self,
         message: &EditorProtocolMessageFromEditor,
-- 
2.43.0


From 2cd209cb38b9ce5f4b93acb83226c3a6aec7b1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:01 +0000
Subject: [PATCH 10/11] fix: Refuse edits that don't fit the file instead of
 crashing

An edit with a position outside of the text, an impossible revision or several
operations panicked in the OT server and took the daemon down.
---
 daemon/src/editor_connection.rs |  8 ++++++++
 daemon/src/ot.rs                | 25 +++++++++++++++++++++++++
 daemon/src/types.rs             | 11 +++++++++++
 3 files changed, 44 insertions(+)

diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index 1e8884b..0611db1 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -222,6 +222,14 @@ impl EditorConnection {
                     delta: delta.clone(),
                 };
 
+                if !ot_server.can_apply(&rev_delta) {
+                    return Err(EditorProtocolMessageError {
+                        code: -1,
+                        message: "Invalid edit".into(),
+                        data: Some("The edit doesn't fit the file at this revision.".into()),
+                    });
+                }
+
                 let (delta_for_crdt, rev_deltas_for_editor) =
                     ot_server.apply_editor_operation(rev_delta.clone());
 
diff --git a/daemon/src/ot.rs b/daemon/src/ot.rs
index b49bb93..70b5849 100644
--- a/daemon/src/ot.rs
+++ b/daemon/src/ot.rs
@@ -108,6 +108,31 @@ impl OTServer {
         }
     }
 
+    /// Whether `apply_editor_operation` can handle what the editor sends us.
+    pub fn can_apply(&self, rev_editor_delta: &RevisionedEditorTextDelta) -> bool {
+        // The editor can't have seen more than we have sent, or less than it has confirmed already.
+        if rev_editor_delta.revision > self.daemon_revision {
+            return false;
+        }
+        let unconfirmed_operations = self.daemon_revision - rev_editor_delta.revision;
+        if unconfirmed_operations > self.editor_queue.len() {
+            return false;
+        }
+
+        let seen_operations = self.editor_queue.len() - unconfirmed_operations;
+        let mut editor_content = self.last_confirmed_editor_content.clone();
+        for editor_op in &self.editor_queue[..seen_operations] {
+            editor_content = Self::force_apply(&editor_content, editor_op.clone());
+        }
+
+        // Deltas with multiple operations are not supported yet.
+        let editor_ops = &rev_editor_delta.delta.0;
+        editor_ops.len() <= 1
+            && editor_ops
+                .iter()
+                .all(|editor_op| editor_op.range.is_within(&editor_content))
+    }
+
     /// Called when the editor sends us an operation.
     /// daemonRevision is the revision this operation applies to.
     pub fn apply_editor_operation(
diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index a064f1f..e576e39 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -326,6 +326,12 @@ impl Range {
             || (self.start.line == self.end.line && self.start.character <= self.end.character)
     }
 
+    /// Whether both ends of the range exist in the given content.
+    #[must_use]
+    pub fn is_within(&self, content: &str) -> bool {
+        self.start.is_within(content) && self.end.is_within(content)
+    }
+
     #[must_use]
     pub fn as_relative(&self, content: &str) -> (usize, usize) {
         let start_offset = self.start.to_offset(content);
@@ -353,6 +359,11 @@ impl Position {
         Self { line, character }
     }
 
+    fn is_within(&self, content: &str) -> bool {
+        let rope = Rope::from_str(content);
+        self.line < rope.len_lines() && self.character <= rope.line(self.line).len_chars()
+    }
+
     fn to_offset(&self, content: &str) -> usize {
         let rope = Rope::from_str(content);
 
-- 
2.43.0


From c858ba7ef109e034e0a39ecad2c6b787041f4372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:43:38 +0000
Subject: [PATCH 11/11] fix: Keep sending to a peer and receiving from it out
 of each other's way

Reading a message was given up as soon as there was something to send, losing
what had been read already. And if both peers were sending more than the
connection can hold, neither of them was reading anymore.
---
 daemon/src/peer.rs | 76 ++++++++++++++++++++++++++--------------------
 1 file changed, 43 insertions(+), 33 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index 10897a4..0c1e000 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -6,10 +6,13 @@
 //! A peer is another daemon. This module is all about daemon to daemon communication.
 
 use crate::daemon::{DocMessage, DocumentActorHandle};
-use anyhow::{Context, Result};
+use anyhow::{bail, Context, Result};
 use automerge::sync::{Message as AutomergeSyncMessage, State as SyncState};
 use futures::StreamExt;
-use futures::{AsyncReadExt, AsyncWriteExt};
+use futures::{
+    io::{ReadHalf, WriteHalf},
+    AsyncReadExt, AsyncWriteExt,
+};
 use ini::Ini;
 use libp2p::core::transport::upgrade::Version;
 use libp2p::core::ConnectedPoint;
@@ -291,44 +294,51 @@ impl P2PActor {
 
     /// Core low-level syncing protocol.
     async fn protocol_handler(
-        mut stream: Stream,
+        stream: Stream,
+        from_peer_tx: mpsc::Sender<AutomergeSyncMessage>,
+        to_peer_rx: mpsc::Receiver<AutomergeSyncMessage>,
+    ) -> Result<()> {
+        // The two directions must not wait for each other: If both peers send more than the
+        // connection can hold, both still need to read. And a read that has been started
+        // may not be given up in favor of sending something, or what it has read would be lost.
+        let (reader, writer) = stream.split();
+
+        tokio::select! {
+            result = Self::receive_from_peer(reader, from_peer_tx) => result,
+            result = Self::send_to_peer(writer, to_peer_rx) => result,
+        }
+    }
+
+    async fn receive_from_peer(
+        mut reader: ReadHalf<Stream>,
         from_peer_tx: mpsc::Sender<AutomergeSyncMessage>,
-        mut to_peer_rx: mpsc::Receiver<AutomergeSyncMessage>,
     ) -> Result<()> {
         loop {
             let mut message_len_buf = [0; 4];
+            reader.read_exact(&mut message_len_buf).await?;
+            let message_len = u32::from_be_bytes(message_len_buf);
 
-            tokio::select! {
-                message_maybe = to_peer_rx.recv() => {
-                    match message_maybe {
-                        Some(message) => {
-                            let message = message.encode();
-                            let message_len = u32::try_from(message.len());
-                            stream
-                                .write_all(&message_len?.to_be_bytes())
-                                .await?;
-                            stream
-                                .write_all(&message)
-                                .await?;
-                            }
-                        None => {
-                            // TODO: What should we do?
-                            error!("None on to_peer_rx");
-                        }
-                    }
-                }
-                _ = stream.read_exact(&mut message_len_buf) => {
-                    let message_len = u32::from_be_bytes(message_len_buf);
-                    let mut message_buf = vec![0; message_len as usize];
-                    stream.read_exact(&mut message_buf).await?;
-
-                    let message =
-                        AutomergeSyncMessage::decode(&message_buf)?;
-                    from_peer_tx.send(message).await?;
-                }
-            }
+            let mut message_buf = vec![0; message_len as usize];
+            reader.read_exact(&mut message_buf).await?;
+
+            let message = AutomergeSyncMessage::decode(&message_buf)?;
+            from_peer_tx.send(message).await?;
         }
     }
+
+    async fn send_to_peer(
+        mut writer: WriteHalf<Stream>,
+        mut to_peer_rx: mpsc::Receiver<AutomergeSyncMessage>,
+    ) -> Result<()> {
+        while let Some(message) = to_peer_rx.recv().await {
+            let message = message.encode();
+            let message_len = u32::try_from(message.len())?;
+            writer.write_all(&message_len.to_be_bytes()).await?;
+            writer.write_all(&message).await?;
+        }
+
+        bail!("The channel with messages for the peer has been closed");
+    }
 }
 
 /// Transport-agnostic logic of how to sync with another peer.
-- 
2.43.0

