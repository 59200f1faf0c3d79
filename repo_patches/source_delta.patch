From 73f253d6450d7c61bc0296eee9deff7452dc27a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:53 +0000
Subject: [PATCH 01/44] fix: keep running when an editor disappears with
 messages still queued

Sending to a closed editor removes its connection. Further queued messages
of that editor, or further messages to it, then hit an expect() and ended
the daemon for everybody.
---
 daemon/src/daemon.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 1fffef0..d5bd091 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -287,12 +287,16 @@ impl DocumentActor {
         editor_id: EditorId,
         message: &EditorProtocolMessageFromEditor,
     ) -> Result<(), EditorProtocolMessageError> {
-        let (inside_message, messages_to_editor) = self
-            .editor_connections
-            .get_mut(&editor_id)
-            .expect("Could not get editor connection")
-            .0
-            .message_from_editor(message)?;
+        let Some(connection) = self.editor_connections.get_mut(&editor_id) else {
+            // We removed the editor because sending to it failed, but some of its messages were
+            // still queued.
+            return Err(EditorProtocolMessageError {
+                code: -1,
+                message: format!("Editor #{editor_id} is not connected anymore"),
+                data: None,
+            });
+        };
+        let (inside_message, messages_to_editor) = connection.0.message_from_editor(message)?;
 
         self.inside_message_to_doc(&inside_message).await;
         self.broadcast_to_editors(Some(editor_id), &inside_message)
@@ -467,10 +471,10 @@ impl DocumentActor {
     }
 
     async fn send_to_editor_client(&mut self, editor_id: &EditorId, message: EditorProtocolObject) {
-        let connection = self
-            .editor_connections
-            .get_mut(editor_id)
-            .expect("Could not get editor handle");
+        let Some(connection) = self.editor_connections.get_mut(editor_id) else {
+            debug!("Not sending a message to editor #{editor_id}, it was removed already.");
+            return;
+        };
 
         connection.1.send(message).await.unwrap_or_else(|err| {
             error!("Failed to send message to editor: {err} Removing editor.");
@@ -630,12 +634,10 @@ impl DocumentActor {
                 continue;
             }
 
-            let messages_to_editor = self
-                .editor_connections
-                .get_mut(&editor_id)
-                .expect("Could not get editor connection")
-                .0
-                .message_from_daemon(message);
+            let Some(connection) = self.editor_connections.get_mut(&editor_id) else {
+                continue;
+            };
+            let messages_to_editor = connection.0.message_from_daemon(message);
 
             for message_to_editor in messages_to_editor {
                 self.send_to_editor_client(
-- 
2.43.0


From 5377976bd7cfc8dfc8b378c01ed6d8f4aea934e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:45 +0000
Subject: [PATCH 02/44] fix: count only line feeds as line breaks in editor
 positions

Editors send and expect line numbers that count line feeds. The rope that
was used to convert positions also broke lines at carriage returns, form
feeds, U+0085, U+2028 and others, so in files containing those characters
edits hit the wrong place or ended the daemon.
---
 daemon/src/types.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index 3916a9a..e26aa67 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -8,7 +8,6 @@ use anyhow::bail;
 use automerge::{Patch, PatchAction};
 use dissimilar::Chunk;
 use operational_transform::{Operation as OTOperation, OperationSeq};
-use ropey::Rope;
 use serde::{Deserialize, Serialize};
 use tracing::{debug, error, warn};
 
@@ -344,21 +343,38 @@ pub struct Position {
     pub character: usize,
 }
 
+// Only "\n" separates lines, like in the editors. (Ropey's lines would additionally end at things
+// like "\r", form feeds, or U+2028.)
 impl Position {
     /// will panic when used with not matching offset/content
     fn from_offset(full_offset: usize, content: &str) -> Self {
-        let rope = Rope::from_str(content);
-        let line = rope.char_to_line(full_offset);
-        let character = full_offset - rope.line_to_char(line);
-        Self { line, character }
+        let mut position = Self::default();
+        let mut offset = 0;
+        for char in content.chars().take(full_offset) {
+            offset += 1;
+            if char == '\n' {
+                position.line += 1;
+                position.character = 0;
+            } else {
+                position.character += 1;
+            }
+        }
+        assert!(offset == full_offset, "Offset is outside of the content");
+        position
     }
 
     fn to_offset(&self, content: &str) -> usize {
-        let rope = Rope::from_str(content);
+        let mut lines = content.split_inclusive('\n');
+        let mut offset = 0;
+        for _ in 0..self.line {
+            let line = lines.next().expect("Line is outside of the content");
+            assert!(line.ends_with('\n'), "Line is outside of the content");
+            offset += line.chars().count();
+        }
 
-        assert!(self.character <= rope.line(self.line).len_chars());
+        assert!(self.character <= lines.next().unwrap_or("").chars().count());
 
-        rope.line_to_char(self.line) + self.character
+        offset + self.character
     }
 }
 
-- 
2.43.0


From 73af10f39a57fff000bb2efc6b7331b274f6a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:07 +0000
Subject: [PATCH 03/44] fix: answer edits that do not fit the file with an
 error

An edit with an unknown revision, with a position outside of the file, or
with several operations made the daemon panic. Check it first, and tell the
editor instead.
---
 daemon/src/editor_connection.rs |  4 ++++
 daemon/src/ot.rs                | 21 ++++++++++++++++++++
 daemon/src/types.rs             | 34 +++++++++++++++++++++++++++------
 3 files changed, 53 insertions(+), 6 deletions(-)

diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index a8b2308..aa2ccc4 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -197,6 +197,10 @@ impl EditorConnection {
                     delta: delta.clone(),
                 };
 
+                ot_server
+                    .check_editor_operation(&rev_delta)
+                    .map_err(anyhow_err_to_protocol_err)?;
+
                 let (delta_for_crdt, rev_deltas_for_editor) =
                     ot_server.apply_editor_operation(rev_delta.clone());
 
diff --git a/daemon/src/ot.rs b/daemon/src/ot.rs
index b49bb93..3efd4d7 100644
--- a/daemon/src/ot.rs
+++ b/daemon/src/ot.rs
@@ -6,6 +6,7 @@
 #![allow(dead_code)]
 
 use crate::types::{EditorTextDelta, RevisionedEditorTextDelta, RevisionedTextDelta, TextDelta};
+use anyhow::bail;
 use operational_transform::OperationSeq;
 use tracing::debug;
 
@@ -108,6 +109,26 @@ impl OTServer {
         }
     }
 
+    /// Checks whether an operation that an editor sent can be passed to `apply_editor_operation`.
+    pub fn check_editor_operation(
+        &self,
+        rev_editor_delta: &RevisionedEditorTextDelta,
+    ) -> anyhow::Result<()> {
+        let Some(unseen_operations) = self.daemon_revision.checked_sub(rev_editor_delta.revision)
+        else {
+            bail!("The edit is based on a revision that does not exist yet");
+        };
+        let Some(seen_operations) = self.editor_queue.len().checked_sub(unseen_operations) else {
+            bail!("The edit is based on a revision that is older than one of a previous edit");
+        };
+
+        let mut content = self.last_confirmed_editor_content.clone();
+        for confirmed_editor_op in &self.editor_queue[..seen_operations] {
+            content = Self::force_apply(&content, confirmed_editor_op.clone());
+        }
+        rev_editor_delta.delta.check_applicable_to(&content)
+    }
+
     /// Called when the editor sends us an operation.
     /// daemonRevision is the revision this operation applies to.
     pub fn apply_editor_operation(
diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index e26aa67..16e1ba5 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -364,17 +364,19 @@ impl Position {
     }
 
     fn to_offset(&self, content: &str) -> usize {
+        self.try_to_offset(content)
+            .expect("Position is outside of the content")
+    }
+
+    fn try_to_offset(&self, content: &str) -> Option<usize> {
         let mut lines = content.split_inclusive('\n');
         let mut offset = 0;
         for _ in 0..self.line {
-            let line = lines.next().expect("Line is outside of the content");
-            assert!(line.ends_with('\n'), "Line is outside of the content");
-            offset += line.chars().count();
+            offset += lines.next()?.strip_suffix('\n')?.chars().count() + 1;
         }
 
-        assert!(self.character <= lines.next().unwrap_or("").chars().count());
-
-        offset + self.character
+        (self.character <= lines.next().unwrap_or("").chars().count())
+            .then_some(offset + self.character)
     }
 }
 
@@ -702,6 +704,26 @@ impl<'a> From<Vec<Chunk<'a>>> for TextDelta {
 }
 
 impl EditorTextDelta {
+    /// Checks whether the delta can be applied to the content.
+    ///
+    /// # Errors
+    ///
+    /// Will return an error if the delta contains multiple operations, or if it refers to positions
+    /// that do not exist in the content.
+    pub fn check_applicable_to(&self, content: &str) -> Result<(), anyhow::Error> {
+        if self.0.len() > 1 {
+            bail!("Edits with multiple operations are not supported yet");
+        }
+        for op in &self.0 {
+            for position in [&op.range.start, &op.range.end] {
+                if position.try_to_offset(content).is_none() {
+                    bail!("The edit refers to {position:?}, which does not exist in the file");
+                }
+            }
+        }
+        Ok(())
+    }
+
     pub fn from_delta(delta: TextDelta, content: &str) -> Self {
         let mut editor_ops = vec![];
         let mut position = 0;
-- 
2.43.0


From c7341c5ac86d1fccc8b27535655e5fa6f29212f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:29 +0000
Subject: [PATCH 04/44] fix: write files back when the editor that owned them
 disconnects

After a 'close' message, the daemon writes the shared content to the file.
Do the same when the connection to the editor ends without one. Before, the
file kept the old content, which was taken for the newest version on the
next start, reverting the edits for everybody.
---
 daemon/src/daemon.rs            | 13 +++++++++++--
 daemon/src/editor_connection.rs |  4 ++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index d5bd091..4563460 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -269,7 +269,7 @@ impl DocumentActor {
                 );
             }
             DocMessage::CloseEditorConnection(editor_id) => {
-                self.editor_connections.remove(&editor_id);
+                self.remove_editor(&editor_id);
 
                 let cursor_id = self.cursor_id(editor_id);
                 debug!("Deleting cursor {cursor_id}");
@@ -478,10 +478,19 @@ impl DocumentActor {
 
         connection.1.send(message).await.unwrap_or_else(|err| {
             error!("Failed to send message to editor: {err} Removing editor.");
-            self.editor_connections.remove(editor_id);
+            self.remove_editor(editor_id);
         });
     }
 
+    fn remove_editor(&mut self, editor_id: &EditorId) {
+        if let Some((connection, _)) = self.editor_connections.remove(editor_id) {
+            // The files that only this editor had open are ours again, bring them up to date.
+            for file_path in connection.open_files() {
+                self.maybe_write_file(&file_path);
+            }
+        }
+    }
+
     fn maybe_write_files_changed_in_file_deltas(&mut self, file_deltas: &Vec<FileTextDelta>) {
         // Collect file paths into a set, so we don't write files multiple times on complex
         // patches.
diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index aa2ccc4..8a44444 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -41,6 +41,10 @@ impl EditorConnection {
         self.ot_servers.contains_key(file_path)
     }
 
+    pub fn open_files(&self) -> Vec<RelativePath> {
+        self.ot_servers.keys().cloned().collect()
+    }
+
     pub fn message_from_daemon(
         &mut self,
         message: &ComponentMessage,
-- 
2.43.0


From b42a967314deadbecb5a55ceb06a46f6fa46e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:58 +0000
Subject: [PATCH 05/44] fix: bring editor and shared content in line when a
 file is opened

The operations of an editor are relative to the file content on disk at the
time of opening, which can differ from the shared content: another editor
can have unsaved changes, or the watcher can still be about to report a
change. Edits then ended up in wrong places, or crashed the daemon. Also
tell the peers when opening a file created it.
---
 daemon/src/daemon.rs            | 61 +++++++++++++++++++++++++++++++--
 daemon/src/editor_connection.rs |  7 ++++
 2 files changed, 65 insertions(+), 3 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 4563460..962d2c8 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -11,8 +11,8 @@ use crate::peer;
 use crate::sandbox;
 use crate::types::{
     ComponentMessage, EditorProtocolMessageError, EditorProtocolMessageFromEditor,
-    EditorProtocolObject, FileTextDelta, JSONRPCFromEditor, JSONRPCResponse, PatchEffect,
-    TextDelta,
+    EditorProtocolMessageToEditor, EditorProtocolObject, FileTextDelta, JSONRPCFromEditor,
+    JSONRPCResponse, PatchEffect, TextDelta,
 };
 use crate::watcher::Watcher;
 use crate::watcher::WatcherEvent;
@@ -296,7 +296,11 @@ impl DocumentActor {
                 data: None,
             });
         };
-        let (inside_message, messages_to_editor) = connection.0.message_from_editor(message)?;
+        let (inside_message, mut messages_to_editor) = connection.0.message_from_editor(message)?;
+
+        if let ComponentMessage::Open { file_path } = &inside_message {
+            messages_to_editor.extend(self.align_opened_file(editor_id, file_path));
+        }
 
         self.inside_message_to_doc(&inside_message).await;
         self.broadcast_to_editors(Some(editor_id), &inside_message)
@@ -312,6 +316,57 @@ impl DocumentActor {
         Ok(())
     }
 
+    /// Makes sure that the shared content of a file that was just opened is what the editor has.
+    fn align_opened_file(
+        &mut self,
+        editor_id: EditorId,
+        file_path: &RelativePath,
+    ) -> Vec<EditorProtocolMessageToEditor> {
+        let owned_by_other_editor = self
+            .editor_connections
+            .iter()
+            .any(|(id, connection)| *id != editor_id && connection.0.owns(file_path));
+        if owned_by_other_editor {
+            // The content on disk can be outdated.
+            return self.update_editor_content(editor_id, file_path);
+        }
+
+        let Some(content) = self
+            .editor_connections
+            .get_mut(&editor_id)
+            .and_then(|connection| connection.0.content(file_path))
+        else {
+            return vec![];
+        };
+        // The watcher might not have told us about the newest content on disk yet.
+        self.crdt_doc.update_text(&content, file_path);
+        let _ = self.doc_changed_ping_tx.send(());
+        vec![]
+    }
+
+    /// Calculates the messages that bring the file in the editor to the current shared content.
+    fn update_editor_content(
+        &mut self,
+        editor_id: EditorId,
+        file_path: &RelativePath,
+    ) -> Vec<EditorProtocolMessageToEditor> {
+        let Ok(shared_content) = self.current_file_content(file_path) else {
+            return vec![];
+        };
+        let Some((connection, _)) = self.editor_connections.get_mut(&editor_id) else {
+            return vec![];
+        };
+        match connection.content(file_path) {
+            Some(content) if content != shared_content => {
+                connection.message_from_daemon(&ComponentMessage::Edit {
+                    file_path: file_path.clone(),
+                    delta: dissimilar::diff(&content, &shared_content).into(),
+                })
+            }
+            _ => vec![],
+        }
+    }
+
     fn cursor_id(&self, editor_id: EditorId) -> String {
         self.crdt_doc.actor_id() + "-" + editor_id.to_string().as_str()
     }
diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index 8a44444..b0e7595 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -45,6 +45,13 @@ impl EditorConnection {
         self.ot_servers.keys().cloned().collect()
     }
 
+    /// The content the file will have in this editor, once it has received all our edits.
+    pub fn content(&mut self, file_path: &RelativePath) -> Option<String> {
+        self.ot_servers
+            .get_mut(file_path)
+            .map(OTServer::current_content)
+    }
+
     pub fn message_from_daemon(
         &mut self,
         message: &ComponentMessage,
-- 
2.43.0


From 8c2df10a3f7d7c54444c3c29cad118f9f8e4f57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:25 +0000
Subject: [PATCH 06/44] fix: follow remote deletions and replacements of open
 files

When a peer deletes a file that is open in an editor, stop tracking it
there. Edits for it crashed the daemon before, now the editor gets an error.
When a file is replaced by an independently created one of the same name,
bring open editors to its content. Before, the new text was inserted into
the old one.
---
 daemon/src/daemon.rs            | 57 +++++++++++++++++++++++++++------
 daemon/src/editor_connection.rs |  6 ++++
 daemon/src/types.rs             |  6 ++--
 3 files changed, 57 insertions(+), 12 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 962d2c8..7dc2722 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -201,6 +201,8 @@ impl DocumentActor {
                 let patch_effects = PatchEffect::from_crdt_patches(patches);
 
                 let mut file_deltas = vec![];
+                let mut created_files = HashSet::new();
+                let mut removed_files = vec![];
                 let mut cursor_states = vec![];
 
                 for patch_effect in patch_effects {
@@ -208,32 +210,69 @@ impl DocumentActor {
                         PatchEffect::FileChange(file_text_delta) => {
                             file_deltas.push(file_text_delta);
                         }
+                        PatchEffect::FileCreation(file_path) => {
+                            // Add an empty delta for the new file, so that the file is created on
+                            // disk.
+                            file_deltas
+                                .push(FileTextDelta::new(file_path.clone(), TextDelta::default()));
+                            created_files.insert(file_path);
+                        }
                         PatchEffect::CursorChange(cursor_state) => {
                             cursor_states.push(cursor_state);
                         }
                         PatchEffect::FileRemoval(file_path) => {
-                            info!("Removing file {file_path}.");
-
-                            sandbox::remove_file(
-                                &self.base_dir,
-                                &self.absolute_path_for_file_path(&file_path),
-                            )
-                            .unwrap_or_else(|err| {
-                                warn!("Failed to remove file {file_path}: {err}");
-                            });
+                            removed_files.push(file_path);
                         }
                         PatchEffect::NoEffect => {}
                     }
                 }
 
+                for file_path in removed_files {
+                    if self.crdt_doc.file_exists(&file_path) {
+                        // It was created again by the same sync message.
+                        continue;
+                    }
+                    info!("Removing file {file_path}.");
+
+                    for (connection, _) in self.editor_connections.values_mut() {
+                        connection.forget_file(&file_path);
+                    }
+
+                    sandbox::remove_file(
+                        &self.base_dir,
+                        &self.absolute_path_for_file_path(&file_path),
+                    )
+                    .unwrap_or_else(|err| {
+                        warn!("Failed to remove file {file_path}: {err}");
+                    });
+                }
+
                 self.maybe_write_files_changed_in_file_deltas(&file_deltas);
                 for file_text_delta in &file_deltas {
+                    if created_files.contains(&file_text_delta.file_path) {
+                        continue;
+                    }
                     let message = ComponentMessage::Edit {
                         file_path: file_text_delta.file_path.clone(),
                         delta: file_text_delta.delta.clone(),
                     };
                     self.broadcast_to_editors(None, &message).await;
                 }
+                for file_path in &created_files {
+                    // The deltas don't apply to what editors have, if they had another file of that
+                    // name open.
+                    let editor_ids: Vec<EditorId> =
+                        self.editor_connections.keys().copied().collect();
+                    for editor_id in editor_ids {
+                        for message in self.update_editor_content(editor_id, file_path) {
+                            self.send_to_editor_client(
+                                &editor_id,
+                                EditorProtocolObject::Request(message),
+                            )
+                            .await;
+                        }
+                    }
+                }
                 for cursor_state in &cursor_states {
                     let message = ComponentMessage::Cursor {
                         cursor_id: cursor_state.cursor_id.clone(),
diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index b0e7595..555bdca 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -52,6 +52,12 @@ impl EditorConnection {
             .map(OTServer::current_content)
     }
 
+    /// Stops tracking a file that doesn't exist anymore. The editor gets errors if it continues to
+    /// edit it.
+    pub fn forget_file(&mut self, file_path: &RelativePath) {
+        self.ot_servers.remove(file_path);
+    }
+
     pub fn message_from_daemon(
         &mut self,
         message: &ComponentMessage,
diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index 16e1ba5..2c92091 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -104,6 +104,8 @@ pub struct CursorState {
 
 pub enum PatchEffect {
     FileChange(FileTextDelta),
+    /// The file is new, or its content was replaced with that of another, independent file.
+    FileCreation(RelativePath),
     FileRemoval(RelativePath),
     CursorChange(CursorState),
     NoEffect,
@@ -469,15 +471,13 @@ impl TryFrom<Patch> for PatchEffect {
                     match patch.action {
                         PatchAction::PutMap { key, conflict, .. } => {
                             // This action happens when a new file is created.
-                            // We return an empty delta on the new file, so that the file is created on disk when
-                            // synced over to another peer. TODO: Is this the best way to solve this?
                             let path = RelativePath::new(&key);
                             if conflict {
                                 warn!(
                                     "Resolved conflict for file {path} by overwriting your version"
                                 );
                             }
-                            Ok(PatchEffect::FileChange(FileTextDelta::new(path, delta)))
+                            Ok(PatchEffect::FileCreation(path))
                         }
                         PatchAction::DeleteMap { key } => {
                             // This action happens when a file is deleted.
-- 
2.43.0


From 992fde5343b9a871f47c5459cd5c15ff8fc61002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:20 +0000
Subject: [PATCH 07/44] fix: ignore changes to the losing side of a naming
 conflict

When several peers create a file of the same name, only one of the contents
is visible. Edits to the hidden ones were still sent to editors as if they
applied to the visible content, garbling buffers or crashing the daemon.
---
 daemon/src/document.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index 038c294..dcf3926 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -76,7 +76,23 @@ impl Document {
             .sync()
             .receive_sync_message_log_patches(peer_state, message, &mut patch_log)
             .expect("Failed to apply sync message to Automerge document");
-        self.doc.make_patches(&mut patch_log)
+        let patches = self.doc.make_patches(&mut patch_log);
+        // Several peers can create an object under the same key. All but one of these objects are
+        // hidden then, but Automerge also reports the changes that happen inside of those.
+        patches
+            .into_iter()
+            .filter(|patch| self.changes_visible_object(patch))
+            .collect()
+    }
+
+    fn changes_visible_object(&self, patch: &Patch) -> bool {
+        match patch.path.last() {
+            Some((parent, prop)) => match self.doc.get(parent, prop.clone()) {
+                Ok(Some((_, object))) => object == patch.obj,
+                _ => false,
+            },
+            None => true,
+        }
     }
 
     pub fn generate_sync_message(
-- 
2.43.0


From 89a8371df0849d3258ddd6b8a6c078042e17ec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:20 +0000
Subject: [PATCH 08/44] fix: pick up the new content when a file is replaced by
 a rename

Many programs save by writing a temporary file and renaming it over the
original. The watcher reports that as a creation, which was ignored for files
that were already known.
---
 daemon/src/daemon.rs | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 7dc2722..65f13fe 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -460,27 +460,22 @@ impl DocumentActor {
                 let relative_file_path = RelativePath::try_from_path(&self.base_dir, &file_path)
                     .expect("Watcher event should have a path within the base directory");
                 if self.owns(&relative_file_path) {
-                    if !self.crdt_doc.file_exists(&relative_file_path) {
-                        let content = match sandbox::read_file(
-                            &self.base_dir,
-                            Path::new(&file_path),
-                        ) {
-                            Ok(content) => content,
-                            Err(e) => {
-                                warn!(
-                                    "The file watcher noticed a file creation for {relative_file_path}, \
-                                    but we couldn't read it: {e} (probably it disappeared again already?)"
-                                );
-                                return;
-                            }
-                        };
-                        if let Ok(content) = String::from_utf8(content) {
-                            self.crdt_doc.initialize_text(&content, &relative_file_path);
-                        } else {
-                            warn!("Ignoring newly created non-UTF-8 file {relative_file_path}");
+                    let content = match sandbox::read_file(&self.base_dir, Path::new(&file_path)) {
+                        Ok(content) => content,
+                        Err(e) => {
+                            warn!(
+                                "The file watcher noticed a file creation for {relative_file_path}, \
+                                but we couldn't read it: {e} (probably it disappeared again already?)"
+                            );
+                            return;
                         }
+                    };
+                    if let Ok(content) = String::from_utf8(content) {
+                        // The file can already exist in the CRDT, when another file is moved to
+                        // its place.
+                        self.crdt_doc.update_text(&content, &relative_file_path);
                     } else {
-                        debug!("Received watcher creation event, but file already exists in CRDT.")
+                        warn!("Ignoring newly created non-UTF-8 file {relative_file_path}");
                     }
                     let _ = self.doc_changed_ping_tx.send(());
                 }
-- 
2.43.0


From 9acf7338c6f5b58697164c755743c8c7d8436a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:13 +0000
Subject: [PATCH 09/44] fix: notice when another of several same-named files
 becomes visible

Automerge's patches don't report every change of which object is visible
under a name. Compare the objects before and after applying a sync message,
so that files on disk and editors get the content which is now shared.
---
 daemon/src/daemon.rs   | 17 +++++++++++++----
 daemon/src/document.rs | 12 ++++++++++++
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 65f13fe..0cfddd1 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -196,6 +196,7 @@ impl DocumentActor {
                 state: mut peer_state,
                 response_tx,
             } => {
+                let old_file_objects = self.crdt_doc.file_objects();
                 let patches = self.apply_sync_message_to_doc(message, &mut peer_state);
 
                 let patch_effects = PatchEffect::from_crdt_patches(patches);
@@ -211,10 +212,6 @@ impl DocumentActor {
                             file_deltas.push(file_text_delta);
                         }
                         PatchEffect::FileCreation(file_path) => {
-                            // Add an empty delta for the new file, so that the file is created on
-                            // disk.
-                            file_deltas
-                                .push(FileTextDelta::new(file_path.clone(), TextDelta::default()));
                             created_files.insert(file_path);
                         }
                         PatchEffect::CursorChange(cursor_state) => {
@@ -227,6 +224,18 @@ impl DocumentActor {
                     }
                 }
 
+                // When there are several independent files of the same name, the patches don't
+                // always tell us that another one of them is visible now.
+                for (file_path, object) in self.crdt_doc.file_objects() {
+                    if old_file_objects.get(&file_path) != Some(&object) {
+                        created_files.insert(file_path);
+                    }
+                }
+                for file_path in &created_files {
+                    // Add an empty delta for the new file, so that the file is created on disk.
+                    file_deltas.push(FileTextDelta::new(file_path.clone(), TextDelta::default()));
+                }
+
                 for file_path in removed_files {
                     if self.crdt_doc.file_exists(&file_path) {
                         // It was created again by the same sync message.
diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index dcf3926..ad3f196 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -15,6 +15,7 @@ use automerge::{
     AutoCommit, ObjType, Patch, PatchLog, ReadDoc,
 };
 use dissimilar::Chunk;
+use std::collections::HashMap;
 use tracing::{debug, info};
 
 /// Encapsulates the Automerge `AutoCommit` and provides a generic interface,
@@ -217,6 +218,17 @@ impl Document {
         }
     }
 
+    /// The Automerge objects which are the contents of the files at the moment.
+    pub fn file_objects(&self) -> HashMap<RelativePath, automerge::ObjId> {
+        self.files()
+            .into_iter()
+            .filter_map(|file_path| {
+                let text_obj = self.text_obj(&file_path).ok()?;
+                Some((file_path, text_obj))
+            })
+            .collect()
+    }
+
     pub fn files(&self) -> Vec<RelativePath> {
         if let Ok(file_map) = self.top_level_map_obj("files") {
             self.doc
-- 
2.43.0


From 2f71d40d90d6042da4802e1b3df81d00ffaaf764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:04 +0000
Subject: [PATCH 10/44] fix: notice moves into and out of the project and files
 in new directories

A file that is moved into or out of the project was not noticed, because only
moves inside of it were handled. Files that were put into a new directory
before it was watched were missed as well. Events of directories that were
moved away could stop the daemon.
---
 daemon/src/sandbox.rs | 22 ++++++++++---
 daemon/src/watcher.rs | 73 ++++++++++++++++++++++++++++++++-----------
 2 files changed, 71 insertions(+), 24 deletions(-)

diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index e8bce6c..6959448 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -90,11 +90,25 @@ pub fn ignored(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<bo
     let canonical_file_path =
         check_inside_base_dir_and_canonicalize(absolute_base_dir, absolute_file_path)?;
 
-    let ignored_things = [".git", ".ethersync"];
-
     // To use the same logic for which files are ignored, iterate through all files
     // using ignore::Walk, and try to find this file.
     // This has the downside that the file must already exist.
+    return Ok(!walk_files(absolute_base_dir).any(|path| path == canonical_file_path));
+}
+
+/// Lists the files in the given directory that are not ignored.
+pub fn list_files(absolute_base_dir: &Path, absolute_dir_path: &Path) -> Result<Vec<PathBuf>> {
+    let canonical_dir_path =
+        check_inside_base_dir_and_canonicalize(absolute_base_dir, absolute_dir_path)?;
+
+    Ok(walk_files(absolute_base_dir)
+        .filter(|path| path.starts_with(&canonical_dir_path))
+        .collect())
+}
+
+fn walk_files(absolute_base_dir: &Path) -> impl Iterator<Item = PathBuf> {
+    let ignored_things = [".git", ".ethersync"];
+
     // TODO: Things in .gitignore are only ignored when there is a .git? Does that make sense?
     let walk = WalkBuilder::new(absolute_base_dir)
         .standard_filters(true)
@@ -111,8 +125,7 @@ pub fn ignored(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<bo
         })
         .build();
 
-    return Ok(!walk
-        .filter_map(Result::ok)
+    walk.filter_map(Result::ok)
         .filter(|dir_entry| {
             dir_entry
                 .file_type()
@@ -121,7 +134,6 @@ pub fn ignored(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<bo
         })
         .map(|dir_entry| absolute_and_canonicalized(dir_entry.path()))
         .filter_map(Result::ok)
-        .any(|path| path == canonical_file_path));
 }
 
 fn check_inside_base_dir_and_canonicalize(base_dir: &Path, path: &Path) -> Result<PathBuf> {
diff --git a/daemon/src/watcher.rs b/daemon/src/watcher.rs
index ab4ef68..0a57c38 100644
--- a/daemon/src/watcher.rs
+++ b/daemon/src/watcher.rs
@@ -12,7 +12,7 @@ use std::{
     collections::VecDeque,
     path::{Path, PathBuf},
 };
-use tokio::sync::mpsc::{self, Receiver};
+use tokio::sync::mpsc::{self, UnboundedReceiver};
 use tracing::debug;
 
 #[derive(Debug, PartialEq)]
@@ -24,19 +24,20 @@ pub enum WatcherEvent {
 
 /// Returns events among the files in base_dir that are not ignored.
 pub struct Watcher {
-    _watcher: RecommendedWatcher,
+    watcher: RecommendedWatcher,
     base_dir: PathBuf,
-    notify_receiver: Receiver<NotifyResult<notify::Event>>,
+    notify_receiver: UnboundedReceiver<NotifyResult<notify::Event>>,
     out_queue: VecDeque<WatcherEvent>,
 }
 
 impl Watcher {
     pub fn new(dir: &Path) -> Self {
-        let (tx, rx) = mpsc::channel(1);
+        // Unbounded, so that the watcher's thread never has to wait for us. When we ask it to watch
+        // another directory, we have to wait for it.
+        let (tx, rx) = mpsc::unbounded_channel();
         let mut watcher = notify::recommended_watcher(move |res: NotifyResult<notify::Event>| {
-            futures::executor::block_on(async {
-                tx.send(res).await.unwrap();
-            });
+            // This fails when the receiver is gone, then nobody is interested anymore.
+            let _ = tx.send(res);
         })
         .expect("Could not construct watcher");
 
@@ -45,8 +46,7 @@ impl Watcher {
             .expect("Failed to watch directory");
 
         Self {
-            // Keep the watcher, so that it's not dropped.
-            _watcher: watcher,
+            watcher,
             base_dir: dir.to_path_buf(),
             notify_receiver: rx,
             out_queue: VecDeque::new(),
@@ -63,7 +63,17 @@ impl Watcher {
             // Otherwise, wait for the next event from the watcher.
             let event = self.notify_receiver.recv().await.unwrap().unwrap();
 
+            if event.paths.is_empty() {
+                // This happens for directories that aren't watched anymore, because they were moved
+                // out of the project.
+                debug!("Ignoring event without a path: {event:?}");
+                continue;
+            }
+
             match event.kind {
+                EventKind::Create(notify::event::CreateKind::Folder) => {
+                    self.queue_files_in_directory(&event.paths[0]);
+                }
                 EventKind::Create(notify::event::CreateKind::File) => {
                     assert!(event.paths.len() == 1);
                     if let Some(e) = self.maybe_created(&event.paths[0]) {
@@ -82,19 +92,21 @@ impl Watcher {
                         return Some(e);
                     }
                 }
+                // On Linux, we get these for both ends of a move. When a file is moved into or out of
+                // the project, there is only one of them.
                 EventKind::Modify(notify::event::ModifyKind::Name(
-                    notify::event::RenameMode::Both,
+                    notify::event::RenameMode::From,
                 )) => {
-                    assert!(event.paths.len() == 2);
-                    let removed = self.maybe_removed(&event.paths[0]);
-                    let created = self.maybe_created(&event.paths[1]);
-
-                    // Queue the create event for later, return the remove event.
-                    if let Some(e) = created {
-                        self.out_queue.push_back(e);
+                    if let Some(e) = self.maybe_removed(&event.paths[0]) {
+                        return Some(e);
                     }
-
-                    if let Some(e) = removed {
+                }
+                EventKind::Modify(notify::event::ModifyKind::Name(
+                    notify::event::RenameMode::To,
+                )) => {
+                    if event.paths[0].is_dir() {
+                        self.queue_files_in_directory(&event.paths[0]);
+                    } else if let Some(e) = self.maybe_created(&event.paths[0]) {
                         return Some(e);
                     }
                 }
@@ -124,6 +136,29 @@ impl Watcher {
         }
     }
 
+    /// When a directory appears, it can already contain files which we won't get events for.
+    fn queue_files_in_directory(&mut self, dir: &Path) {
+        // Make sure that the directory is watched before we list it, so that we don't miss files
+        // that are created afterwards.
+        if let Err(error) = self.watcher.watch(dir, RecursiveMode::Recursive) {
+            debug!("Could not watch '{}': {error}", dir.display());
+        }
+        match sandbox::list_files(&self.base_dir, dir) {
+            Ok(file_paths) => {
+                for file_path in file_paths {
+                    self.out_queue
+                        .push_back(WatcherEvent::Created { file_path });
+                }
+            }
+            Err(error) => {
+                debug!(
+                    "Ignoring creation of '{}' because of an error: {error}",
+                    dir.display()
+                );
+            }
+        }
+    }
+
     fn maybe_created(&self, file_path: &Path) -> Option<WatcherEvent> {
         match sandbox::ignored(&self.base_dir, file_path) {
             Ok(is_ignored) => {
-- 
2.43.0


From 7bd68002612ec1a57853c0bc7b314e9fef0ba985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:04 +0000
Subject: [PATCH 11/44] fix: handle removal events for directories and files
 that exist again

Moving a directory away left its files in the shared project. A removal event
that arrived after the file was created again removed the new file, together
with edits that others made to it meanwhile.
---
 daemon/src/daemon.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 0cfddd1..505963a 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -492,10 +492,26 @@ impl DocumentActor {
             WatcherEvent::Removed { file_path } => {
                 let relative_file_path = RelativePath::try_from_path(&self.base_dir, &file_path)
                     .expect("Watcher event should have a path within the base directory");
-                if self.owns(&relative_file_path) {
-                    self.crdt_doc.remove_text(&relative_file_path);
-                    let _ = self.doc_changed_ping_tx.send(());
+                // It can also be a directory that was moved away.
+                for removed_file_path in self.crdt_doc.files() {
+                    if !removed_file_path.starts_with(&*relative_file_path)
+                        || !self.owns(&removed_file_path)
+                    {
+                        continue;
+                    }
+                    let content = sandbox::read_file(
+                        &self.base_dir,
+                        &self.absolute_path_for_file_path(&removed_file_path),
+                    );
+                    match content.map(String::from_utf8) {
+                        // It was created again already, possibly by ourselves.
+                        Ok(Ok(content)) => {
+                            self.crdt_doc.update_text(&content, &removed_file_path);
+                        }
+                        _ => self.crdt_doc.remove_text(&removed_file_path),
+                    }
                 }
+                let _ = self.doc_changed_ping_tx.send(());
             }
             WatcherEvent::Changed { file_path } => {
                 // Only update if we own the file.
-- 
2.43.0


From b403f6d702518f02f43589a0d6ba7c7c45b7c417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:16 +0000
Subject: [PATCH 12/44] fix: skip unshareable file names the same way at
 start-up and later

A file name that is not valid Unicode stopped the daemon. Backup files ending
in ~ were ignored when they changed, but shared at start-up.
---
 daemon/src/daemon.rs  | 8 +++-----
 daemon/src/sandbox.rs | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 505963a..3617a40 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -655,13 +655,11 @@ impl DocumentActor {
             .hidden(false)
             // Interestingly, the standard filters don't seem to ignore .git.
             .filter_entry(move |dir_entry| {
-                let name = dir_entry
-                    .path()
+                // Names that are not valid Unicode can't be shared.
+                dir_entry
                     .file_name()
-                    .expect("Failed to get file name from path.")
                     .to_str()
-                    .expect("Failed to convert OsStr to str");
-                !ignored_things.contains(&name)
+                    .is_some_and(|name| !ignored_things.contains(&name) && !name.ends_with('~'))
             })
             .build()
     }
diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index 6959448..e638c64 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -115,13 +115,11 @@ fn walk_files(absolute_base_dir: &Path) -> impl Iterator<Item = PathBuf> {
         .hidden(false)
         // Interestingly, the standard filters don't seem to ignore .git.
         .filter_entry(move |dir_entry| {
-            let name = dir_entry
-                .path()
+            // Names that are not valid Unicode can't be shared.
+            dir_entry
                 .file_name()
-                .expect("Failed to get file name from path.")
                 .to_str()
-                .expect("Failed to convert OsStr to str");
-            !ignored_things.contains(&name) && !name.ends_with('~')
+                .is_some_and(|name| !ignored_things.contains(&name) && !name.ends_with('~'))
         })
         .build();
 
-- 
2.43.0


From b302dae68855e6e7b766a8403df737ef459c8e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:13 +0000
Subject: [PATCH 13/44] fix: keep saved state usable when the daemon is killed
 while saving

The state file was truncated and rewritten in place at every start, and changes
appended later could be incomplete. In both cases the next start failed.
---
 daemon/src/daemon.rs   | 16 +++++++++++++---
 daemon/src/document.rs | 20 ++++++++++++++++----
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 3617a40..5a1e1e2 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -179,9 +179,19 @@ impl DocumentActor {
                 if self.save_fully {
                     debug!("Persisting fully!");
                     let bytes = self.crdt_doc.save();
-                    sandbox::write_file(&self.base_dir, &persistence_file, &bytes).unwrap_or_else(
-                        |_| panic!("Failed to persist to '{}'", persistence_file.display()),
-                    );
+                    // Write to another file first, so that there is a usable one at any time.
+                    let new_persistence_file = self.base_dir.join(".ethersync/doc.new");
+                    sandbox::write_file(&self.base_dir, &new_persistence_file, &bytes)
+                        .and_then(|()| {
+                            sandbox::rename_file(
+                                &self.base_dir,
+                                &new_persistence_file,
+                                &persistence_file,
+                            )
+                        })
+                        .unwrap_or_else(|_| {
+                            panic!("Failed to persist to '{}'", persistence_file.display())
+                        });
                     self.save_fully = false
                 } else {
                     debug!("Persisting incrementally!");
diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index ad3f196..f27f220 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -12,11 +12,11 @@ use automerge::{
     patches::TextRepresentation,
     sync::{Message as AutomergeSyncMessage, State as SyncState, SyncDoc},
     transaction::Transactable,
-    AutoCommit, ObjType, Patch, PatchLog, ReadDoc,
+    AutoCommit, AutomergeError, LoadOptions, ObjType, OnPartialLoad, Patch, PatchLog, ReadDoc,
 };
 use dissimilar::Chunk;
 use std::collections::HashMap;
-use tracing::{debug, info};
+use tracing::{debug, info, warn};
 
 /// Encapsulates the Automerge `AutoCommit` and provides a generic interface,
 /// s.t. we don't need to worry about automerge internals elsewhere.
@@ -50,8 +50,20 @@ impl Default for Document {
 
 impl Document {
     pub fn load(bytes: &[u8]) -> Self {
-        let doc =
-            AutoCommit::load(bytes).expect("Failed to load Automerge document from given bytes");
+        let doc = AutoCommit::load(bytes)
+            .or_else(|error| {
+                // When we are stopped while saving incrementally, the last change is incomplete.
+                warn!(
+                    "Failed to load all of the persisted changes, using the intact ones: {error}"
+                );
+                let mut doc = AutoCommit::load_with_options(
+                    bytes,
+                    LoadOptions::new().on_partial_load(OnPartialLoad::Ignore),
+                )?;
+                doc.load_incremental(bytes)?;
+                Ok::<_, AutomergeError>(doc)
+            })
+            .expect("Failed to load Automerge document from given bytes");
         Self { doc }
     }
 
-- 
2.43.0


From 8191ce2a326a34b1d8ed1efa38ea19a237b402bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:51 +0000
Subject: [PATCH 14/44] fix: save the last changes when the daemon is stopped

Changes of the last second were not saved on Ctrl+C. At the next start, they
were treated as changes made offline, and appeared twice after connecting to
peers which already had them.
---
 daemon/src/main.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/daemon/src/main.rs b/daemon/src/main.rs
index c2c6126..898a001 100644
--- a/daemon/src/main.rs
+++ b/daemon/src/main.rs
@@ -6,7 +6,10 @@
 use anyhow::{Context, Result};
 use clap::{parser::ValueSource, CommandFactory, FromArgMatches, Parser, Subcommand};
 use ethersync::peer::PeerConnectionInfo;
-use ethersync::{daemon::Daemon, editor, logging, sandbox};
+use ethersync::{
+    daemon::{Daemon, DocMessage},
+    editor, logging, sandbox,
+};
 use std::path::{Path, PathBuf};
 use tokio::signal;
 use tracing::{error, info};
@@ -129,7 +132,7 @@ async fn main() -> Result<()> {
             }
 
             info!("Starting Ethersync on {}", directory.display());
-            Daemon::new(peer_connection_info, &socket_path, &directory, init);
+            let daemon = Daemon::new(peer_connection_info, &socket_path, &directory, init);
             match signal::ctrl_c().await {
                 Ok(()) => {}
                 Err(err) => {
@@ -137,6 +140,15 @@ async fn main() -> Result<()> {
                     // still shut down.
                 }
             }
+
+            // Persist the changes of the last moments. Otherwise, they would look like offline
+            // changes at the next start, and be duplicated when syncing with peers that have them.
+            daemon
+                .document_handle
+                .send_message(DocMessage::Persist)
+                .await;
+            // The messages are handled in order, so after this, we're done persisting.
+            let _ = daemon.document_handle.content().await;
         }
         Commands::Client => {
             jsonrpc_forwarder::connection(&socket_path)
-- 
2.43.0


From f8e0722ec6ff3aa42bb060564e6f234d1808ca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:24 +0000
Subject: [PATCH 15/44] fix: do not follow dangling symlinks out of the project

A path whose last existing part was a symlink to a nonexistent target was
considered to be inside the project, so writing it created a file outside.
Paths with parent components after nonexistent directories panicked.
---
 daemon/src/sandbox.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index e638c64..4c4e8a3 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -155,8 +155,9 @@ fn absolute_and_canonicalized(path: &Path) -> Result<PathBuf> {
     let mut suffix_path = PathBuf::new();
     let mut prefix_path = canonical_path.clone();
 
-    for component in path.components().rev() {
-        if prefix_path.exists() {
+    for component in canonical_path.components().rev() {
+        // Don't follow symlinks here: Canonicalizing a symlink that points nowhere has to fail.
+        if prefix_path.symlink_metadata().is_ok() {
             break;
         }
         prefix_path.pop();
-- 
2.43.0


From 9001df2a4f2c4381f4dd5aa33a41d595a56747f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:24 +0000
Subject: [PATCH 16/44] fix: keep running when a file can not be written

Names chosen by peers can be absolute, lead through files or symlinks, or
clash with directories. Log these cases instead of panicking.
---
 daemon/src/daemon.rs            | 42 ++++++++++++++++++---------------
 daemon/src/editor_connection.rs |  2 +-
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 5a1e1e2..a125363 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -16,7 +16,7 @@ use crate::types::{
 };
 use crate::watcher::Watcher;
 use crate::watcher::WatcherEvent;
-use anyhow::Result;
+use anyhow::{Context, Result};
 use automerge::{
     sync::{Message as AutomergeSyncMessage, State as SyncState},
     Patch,
@@ -632,30 +632,33 @@ impl DocumentActor {
         // Only write to the file if editor *doesn't* have the file open.
         if self.owns(file_path) {
             if let Ok(text) = self.current_file_content(file_path) {
-                let abs_path = self.absolute_path_for_file_path(file_path);
-                debug!("Writing to {abs_path}.");
-
-                // Create the parent directorie(s), if neccessary.
-                let parent_dir = abs_path.parent().unwrap();
-                sandbox::create_dir_all(&self.base_dir, parent_dir).unwrap_or_else(|_| {
-                    panic!("Could not create parent directory {}", parent_dir.display())
-                });
-
-                // If the file didn't exist before, log it.
-                if !sandbox::exists(&self.base_dir, &abs_path)
-                    .expect("Failed to check for file existence before writing to it")
-                {
-                    info!("Creating {file_path}.");
+                // Peers decide on the file names, so this can fail for various reasons.
+                if let Err(err) = self.write_file(file_path, &text) {
+                    warn!("Failed to write file {file_path}: {err}");
                 }
-
-                sandbox::write_file(&self.base_dir, &abs_path, &text.into_bytes())
-                    .unwrap_or_else(|_| panic!("Could not write to file {abs_path}"));
             } else {
                 warn!("Failed to get content of file '{file_path}' when writing to disk. Key should have existed?");
             }
         }
     }
 
+    fn write_file(&self, file_path: &RelativePath, text: &str) -> Result<()> {
+        let abs_path = self.absolute_path_for_file_path(file_path);
+        debug!("Writing to {abs_path}.");
+
+        // Create the parent directorie(s), if neccessary.
+        let parent_dir = abs_path.parent().context("File has no parent directory")?;
+        sandbox::create_dir_all(&self.base_dir, parent_dir)
+            .context("Could not create parent directory")?;
+
+        // If the file didn't exist before, log it.
+        if !sandbox::exists(&self.base_dir, &abs_path)? {
+            info!("Creating {file_path}.");
+        }
+
+        sandbox::write_file(&self.base_dir, &abs_path, text.as_bytes())
+    }
+
     // TODO: Should this also go to the sandbox module?
     fn build_walk(&mut self) -> Walk {
         let ignored_things = [".git", ".ethersync"];
@@ -707,7 +710,8 @@ impl DocumentActor {
             });
         for file_path in self.crdt_doc.files() {
             let absolute_file_path = self.absolute_path_for_file_path(&file_path);
-            if !sandbox::exists(&self.base_dir, &absolute_file_path).expect("") {
+            // A file that we are not allowed to access can still exist for other peers.
+            if !sandbox::exists(&self.base_dir, &absolute_file_path).unwrap_or(true) {
                 warn!("File {file_path} exists in the CRDT, but not on disk. Deleting from CRDT.");
                 self.crdt_doc.remove_text(&file_path);
             }
diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index 555bdca..655851c 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -138,7 +138,7 @@ impl EditorConnection {
 
                 // We only want to process these messages for files that are not ignored.
                 if sandbox::ignored(&self.base_dir, &absolute_path)
-                    .expect("Could not check ignore status of opened file")
+                    .map_err(anyhow_err_to_protocol_err)?
                 {
                     return Err(EditorProtocolMessageError {
                         code: -1,
-- 
2.43.0


From cec19e698841ee2f618e8ea07414f8b204ebe745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:33 +0000
Subject: [PATCH 17/44] fix: do not let peers change files in .git and
 .ethersync

---
 daemon/src/daemon.rs  | 22 ++++++++++++++++------
 daemon/src/sandbox.rs | 23 +++++++++++++++++++----
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index a125363..a0b5571 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -16,7 +16,7 @@ use crate::types::{
 };
 use crate::watcher::Watcher;
 use crate::watcher::WatcherEvent;
-use anyhow::{Context, Result};
+use anyhow::{bail, Context, Result};
 use automerge::{
     sync::{Message as AutomergeSyncMessage, State as SyncState},
     Patch,
@@ -257,11 +257,7 @@ impl DocumentActor {
                         connection.forget_file(&file_path);
                     }
 
-                    sandbox::remove_file(
-                        &self.base_dir,
-                        &self.absolute_path_for_file_path(&file_path),
-                    )
-                    .unwrap_or_else(|err| {
+                    self.remove_file(&file_path).unwrap_or_else(|err| {
                         warn!("Failed to remove file {file_path}: {err}");
                     });
                 }
@@ -646,6 +642,10 @@ impl DocumentActor {
         let abs_path = self.absolute_path_for_file_path(file_path);
         debug!("Writing to {abs_path}.");
 
+        if sandbox::private(&self.base_dir, &abs_path)? {
+            bail!("Peers are not allowed to change private files");
+        }
+
         // Create the parent directorie(s), if neccessary.
         let parent_dir = abs_path.parent().context("File has no parent directory")?;
         sandbox::create_dir_all(&self.base_dir, parent_dir)
@@ -659,6 +659,16 @@ impl DocumentActor {
         sandbox::write_file(&self.base_dir, &abs_path, text.as_bytes())
     }
 
+    fn remove_file(&self, file_path: &RelativePath) -> Result<()> {
+        let abs_path = self.absolute_path_for_file_path(file_path);
+
+        if sandbox::private(&self.base_dir, &abs_path)? {
+            bail!("Peers are not allowed to remove private files");
+        }
+
+        sandbox::remove_file(&self.base_dir, &abs_path)
+    }
+
     // TODO: Should this also go to the sandbox module?
     fn build_walk(&mut self) -> Walk {
         let ignored_things = [".git", ".ethersync"];
diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index 4c4e8a3..4216c7f 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -14,6 +14,8 @@ use std::fs::{self, OpenOptions};
 use std::io::Write;
 use std::path::{Path, PathBuf};
 
+const PRIVATE_NAMES: [&str; 2] = [".git", ".ethersync"];
+
 pub fn read_file(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<Vec<u8>> {
     let canonical_file_path =
         check_inside_base_dir_and_canonicalize(absolute_base_dir, absolute_file_path)?;
@@ -84,6 +86,21 @@ pub fn exists(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<boo
     Ok(canonical_file_path.exists())
 }
 
+/// Checks whether a path is in one of the directories that are never shared.
+pub fn private(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<bool> {
+    let canonical_base_dir = absolute_and_canonicalized(absolute_base_dir)?;
+    let canonical_file_path =
+        check_inside_base_dir_and_canonicalize(absolute_base_dir, absolute_file_path)?;
+    Ok(canonical_file_path
+        .strip_prefix(canonical_base_dir)?
+        .iter()
+        .any(|name| {
+            PRIVATE_NAMES
+                .iter()
+                .any(|private_name| name == *private_name)
+        }))
+}
+
 // TODO: Don't build the list of ignored files on every call.
 // TODO: Allow calling this for non-existing files.
 pub fn ignored(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<bool> {
@@ -107,19 +124,17 @@ pub fn list_files(absolute_base_dir: &Path, absolute_dir_path: &Path) -> Result<
 }
 
 fn walk_files(absolute_base_dir: &Path) -> impl Iterator<Item = PathBuf> {
-    let ignored_things = [".git", ".ethersync"];
-
     // TODO: Things in .gitignore are only ignored when there is a .git? Does that make sense?
     let walk = WalkBuilder::new(absolute_base_dir)
         .standard_filters(true)
         .hidden(false)
         // Interestingly, the standard filters don't seem to ignore .git.
-        .filter_entry(move |dir_entry| {
+        .filter_entry(|dir_entry| {
             // Names that are not valid Unicode can't be shared.
             dir_entry
                 .file_name()
                 .to_str()
-                .is_some_and(|name| !ignored_things.contains(&name) && !name.ends_with('~'))
+                .is_some_and(|name| !PRIVATE_NAMES.contains(&name) && !name.ends_with('~'))
         })
         .build();
 
-- 
2.43.0


From bfff55f1f46aa8c7f6e143d4182f35a5652187e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:11 +0000
Subject: [PATCH 18/44] fix: keep running when a peer shares unexpected data

Changes to parts of the document which we do not use, unusual operations on
texts and undecodable changes made the daemon panic.
---
 daemon/src/daemon.rs   | 17 ++++++++++++-----
 daemon/src/document.rs | 30 +++++++++++++++++++-----------
 daemon/src/types.rs    | 19 ++++++++++++-------
 3 files changed, 43 insertions(+), 23 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index a0b5571..21f2e12 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -213,7 +213,7 @@ impl DocumentActor {
 
                 let mut file_deltas = vec![];
                 let mut created_files = HashSet::new();
-                let mut removed_files = vec![];
+                let mut removed_files = HashSet::new();
                 let mut cursor_states = vec![];
 
                 for patch_effect in patch_effects {
@@ -228,7 +228,7 @@ impl DocumentActor {
                             cursor_states.push(cursor_state);
                         }
                         PatchEffect::FileRemoval(file_path) => {
-                            removed_files.push(file_path);
+                            removed_files.insert(file_path);
                         }
                         PatchEffect::NoEffect => {}
                     }
@@ -236,9 +236,16 @@ impl DocumentActor {
 
                 // When there are several independent files of the same name, the patches don't
                 // always tell us that another one of them is visible now.
-                for (file_path, object) in self.crdt_doc.file_objects() {
-                    if old_file_objects.get(&file_path) != Some(&object) {
-                        created_files.insert(file_path);
+                let new_file_objects = self.crdt_doc.file_objects();
+                for (file_path, object) in &new_file_objects {
+                    if old_file_objects.get(file_path) != Some(object) {
+                        created_files.insert(file_path.clone());
+                    }
+                }
+                // Something else than the removal of a file can also make it go away.
+                for file_path in old_file_objects.into_keys() {
+                    if !new_file_objects.contains_key(&file_path) {
+                        removed_files.insert(file_path);
                     }
                 }
                 for file_path in &created_files {
diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index f27f220..ab0e972 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -16,7 +16,7 @@ use automerge::{
 };
 use dissimilar::Chunk;
 use std::collections::HashMap;
-use tracing::{debug, info, warn};
+use tracing::{debug, error, info, warn};
 
 /// Encapsulates the Automerge `AutoCommit` and provides a generic interface,
 /// s.t. we don't need to worry about automerge internals elsewhere.
@@ -85,10 +85,13 @@ impl Document {
         peer_state: &mut SyncState,
     ) -> Vec<Patch> {
         let mut patch_log = PatchLog::active(TextRepresentation::String);
-        self.doc
-            .sync()
-            .receive_sync_message_log_patches(peer_state, message, &mut patch_log)
-            .expect("Failed to apply sync message to Automerge document");
+        if let Err(error) =
+            self.doc
+                .sync()
+                .receive_sync_message_log_patches(peer_state, message, &mut patch_log)
+        {
+            error!("Failed to apply sync message to Automerge document: {error}");
+        }
         let patches = self.doc.make_patches(&mut patch_log);
         // Several peers can create an object under the same key. All but one of these objects are
         // hidden then, but Automerge also reports the changes that happen inside of those.
@@ -152,9 +155,7 @@ impl Document {
         info!("Initializing {file_path} in CRDT.");
 
         // Now it should definitely work?
-        let file_map = self
-            .top_level_map_obj("files")
-            .expect("Failed to get files Map object");
+        let file_map = self.get_or_create_top_level_map_obj("files");
 
         let text_obj = self
             .doc
@@ -215,6 +216,15 @@ impl Document {
         }
     }
 
+    /// Like `top_level_map_obj`, for when we need to write to a map that a peer might have removed.
+    fn get_or_create_top_level_map_obj(&mut self, name: &str) -> automerge::ObjId {
+        self.top_level_map_obj(name).unwrap_or_else(|_| {
+            self.doc
+                .put_object(automerge::ROOT, name, ObjType::Map)
+                .expect("Failed to create Map object in Automerge document")
+        })
+    }
+
     fn text_obj(&self, file_path: &RelativePath) -> Result<automerge::ObjId> {
         let file_map = self.top_level_map_obj("files")?;
         let text_obj = self
@@ -263,9 +273,7 @@ impl Document {
         file_path: &RelativePath,
         ranges: Vec<Range>,
     ) {
-        let state_map = self
-            .top_level_map_obj("states")
-            .expect("Failed to get states Map object");
+        let state_map = self.get_or_create_top_level_map_obj("states");
         let user_obj = self
             .doc
             .put_object(state_map, cursor_id, ObjType::Text)
diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index 2c92091..1e5a1ba 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -121,7 +121,8 @@ impl PatchEffect {
                     file_deltas.push(result);
                 }
                 Err(e) => {
-                    panic!("Failed to convert patch to delta: {e:#?}");
+                    // Peers can put anything into the document, so this shouldn't stop us.
+                    error!("Failed to convert patch to delta, ignoring: {e:#?}");
                 }
             }
         }
@@ -523,10 +524,13 @@ impl TryFrom<Patch> for PatchEffect {
                                 delta,
                             )))
                         }
-                        other_action => Err(anyhow::anyhow!(
-                            "Unsupported patch action for path 'files/*': {}",
-                            other_action
-                        )),
+                        other_action => {
+                            // This is not something we write, but we can still use the text.
+                            warn!("Unexpected patch action for path 'files/*': {other_action}");
+                            Ok(PatchEffect::FileCreation(file_path_from_path_default(
+                                &patch.path,
+                            )?))
+                        }
                     }
                 } else {
                     Err(anyhow::anyhow!(
@@ -537,8 +541,9 @@ impl TryFrom<Patch> for PatchEffect {
             (_, automerge::Prop::Map(key)) if key == "states" => {
                 if patch.path.len() == 2 {
                     match patch.action {
-                        PatchAction::SpliceText { index, value, .. } => {
-                            assert_eq!(index, 0);
+                        PatchAction::SpliceText {
+                            index: 0, value, ..
+                        } => {
                             if let Ok(cursor_state) = serde_json::from_str(&value.make_string()) {
                                 Ok(PatchEffect::CursorChange(cursor_state))
                             } else {
-- 
2.43.0


From 60e03945cfd9dc53b661ba365fbfa6f36b1a21f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:35 +0000
Subject: [PATCH 19/44] fix: read and write sync messages independently of each
 other

When there was something to send while a message was arriving, its first bytes
could get lost. Two peers sending large messages at the same time blocked each
other.
---
 daemon/src/peer.rs | 79 +++++++++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 33 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index 10897a4..ea346b6 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -6,10 +6,10 @@
 //! A peer is another daemon. This module is all about daemon to daemon communication.
 
 use crate::daemon::{DocMessage, DocumentActorHandle};
-use anyhow::{Context, Result};
+use anyhow::{bail, Context, Result};
 use automerge::sync::{Message as AutomergeSyncMessage, State as SyncState};
 use futures::StreamExt;
-use futures::{AsyncReadExt, AsyncWriteExt};
+use futures::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
 use ini::Ini;
 use libp2p::core::transport::upgrade::Version;
 use libp2p::core::ConnectedPoint;
@@ -291,43 +291,56 @@ impl P2PActor {
 
     /// Core low-level syncing protocol.
     async fn protocol_handler(
-        mut stream: Stream,
+        stream: Stream,
+        from_peer_tx: mpsc::Sender<AutomergeSyncMessage>,
+        to_peer_rx: mpsc::Receiver<AutomergeSyncMessage>,
+    ) -> Result<()> {
+        let (reader, writer) = stream.split();
+
+        // Both directions need to make progress independently: A message can arrive in several
+        // pieces, and sending can take long when the peer is busy sending something to us.
+        tokio::select! {
+            result = Self::read_messages(reader, from_peer_tx) => result,
+            result = Self::write_messages(writer, to_peer_rx) => result,
+        }
+    }
+
+    async fn read_messages(
+        mut reader: impl AsyncRead + Unpin,
         from_peer_tx: mpsc::Sender<AutomergeSyncMessage>,
-        mut to_peer_rx: mpsc::Receiver<AutomergeSyncMessage>,
     ) -> Result<()> {
         loop {
             let mut message_len_buf = [0; 4];
-
-            tokio::select! {
-                message_maybe = to_peer_rx.recv() => {
-                    match message_maybe {
-                        Some(message) => {
-                            let message = message.encode();
-                            let message_len = u32::try_from(message.len());
-                            stream
-                                .write_all(&message_len?.to_be_bytes())
-                                .await?;
-                            stream
-                                .write_all(&message)
-                                .await?;
-                            }
-                        None => {
-                            // TODO: What should we do?
-                            error!("None on to_peer_rx");
-                        }
-                    }
-                }
-                _ = stream.read_exact(&mut message_len_buf) => {
-                    let message_len = u32::from_be_bytes(message_len_buf);
-                    let mut message_buf = vec![0; message_len as usize];
-                    stream.read_exact(&mut message_buf).await?;
-
-                    let message =
-                        AutomergeSyncMessage::decode(&message_buf)?;
-                    from_peer_tx.send(message).await?;
-                }
+            reader.read_exact(&mut message_len_buf).await?;
+            let message_len = u32::from_be_bytes(message_len_buf);
+
+            // Don't reserve the memory beforehand, the length could be wrong.
+            let mut message_buf = Vec::new();
+            (&mut reader)
+                .take(message_len.into())
+                .read_to_end(&mut message_buf)
+                .await?;
+
+            if message_buf.len() != message_len as usize {
+                bail!("Stream ended in the middle of a message");
             }
+
+            let message = AutomergeSyncMessage::decode(&message_buf)?;
+            from_peer_tx.send(message).await?;
+        }
+    }
+
+    async fn write_messages(
+        mut writer: impl AsyncWrite + Unpin,
+        mut to_peer_rx: mpsc::Receiver<AutomergeSyncMessage>,
+    ) -> Result<()> {
+        while let Some(message) = to_peer_rx.recv().await {
+            let message = message.encode();
+            let message_len = u32::try_from(message.len())?;
+            writer.write_all(&message_len.to_be_bytes()).await?;
+            writer.write_all(&message).await?;
         }
+        Ok(())
     }
 }
 
-- 
2.43.0


From e0078dda19a6e492c5932f15ce00613df61b4c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:51 +0000
Subject: [PATCH 20/44] fix: do not let a silent peer keep others from
 connecting

The accept loop waited for the stream of the latest connection before looking
at the next one, and ended completely when a stream could not be opened.
---
 daemon/src/peer.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index ea346b6..fc1719b 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -159,7 +159,14 @@ impl P2PActor {
 
         // Poll the swarm to make progress.
         loop {
-            let event = swarm.next().await.expect("never terminates");
+            let event = tokio::select! {
+                event = swarm.next() => event.expect("never terminates"),
+                Some((peer, stream)) = incoming_streams.next() => {
+                    info!("Peer connected: {}", peer);
+                    self.spawn_peer_sync(stream);
+                    continue;
+                }
+            };
 
             match event {
                 libp2p::swarm::SwarmEvent::NewListenAddr { address, .. } => {
@@ -186,23 +193,17 @@ impl P2PActor {
                     ..
                 } => {
                     let mut control = swarm.behaviour().new_control();
-                    let stream = control
-                        .open_stream(peer_id, ETHERSYNC_PROTOCOL)
-                        .await
-                        .context("Failed to open stream")?;
-
-                    info!("Connected to peer {}", peer_id);
-
-                    self.spawn_peer_sync(stream);
-                }
-                libp2p::swarm::SwarmEvent::ConnectionEstablished {
-                    endpoint: ConnectedPoint::Listener { .. },
-                    ..
-                } => {
-                    if let Some((peer, stream)) = incoming_streams.next().await {
-                        info!("Peer connected: {}", peer);
-                        self.spawn_peer_sync(stream);
-                    }
+                    let actor = self.clone();
+                    // The peer decides how long this takes, so don't wait for it.
+                    tokio::spawn(async move {
+                        match control.open_stream(peer_id, ETHERSYNC_PROTOCOL).await {
+                            Ok(stream) => {
+                                info!("Connected to peer {}", peer_id);
+                                actor.spawn_peer_sync(stream);
+                            }
+                            Err(error) => error!("Failed to open stream: {error}"),
+                        }
+                    });
                 }
                 libp2p::swarm::SwarmEvent::OutgoingConnectionError { error, .. } => {
                     error!("Failed to connect, the peer multiaddress or secret you provided might be wrong?");
-- 
2.43.0


From 905a03e13197fe410367faf19de2bfef1a5757a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:06 +0000
Subject: [PATCH 21/44] fix: never leave an incomplete key file behind

When the daemon was stopped between creating the key file and writing to it,
it could not start anymore.
---
 daemon/src/peer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index fc1719b..eab6760 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -241,14 +241,17 @@ impl P2PActor {
                 .to_protobuf_encoding()
                 .expect("Failed to serialize keypair");
 
+            // Write to another file first, so that the key file is complete as soon as it exists.
+            let new_keyfile = keyfile.with_extension("new");
             let mut file = OpenOptions::new()
                 .create(true)
                 .write(true)
                 .truncate(true)
                 .mode(0o600)
-                .open(keyfile)
+                .open(&new_keyfile)
                 .expect("Should have been able to create key file that did not exist before");
             file.write_all(&bytes).expect("Failed to write to key file");
+            fs::rename(new_keyfile, keyfile).expect("Failed to rename key file");
 
             keypair
         }
-- 
2.43.0


From d555eb2043960cc742d12ab7de93470891778b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:09 +0000
Subject: [PATCH 22/44] fix: accept other headers after Content-Length

---
 daemon/src/jsonrpc_forwarder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daemon/src/jsonrpc_forwarder.rs b/daemon/src/jsonrpc_forwarder.rs
index 66714fb..900b406 100644
--- a/daemon/src/jsonrpc_forwarder.rs
+++ b/daemon/src/jsonrpc_forwarder.rs
@@ -91,10 +91,13 @@ impl Decoder for ContentLengthCodec {
             },
         };
 
-        // Parse the content length.
+        // Parse the content length. There can be other headers after it.
         let content_length = std::str::from_utf8(
             &src[start_of_header + c.len()..start_of_header + c.len() + end_of_line],
         )?
+        .lines()
+        .next()
+        .unwrap_or_default()
         .parse()?;
         let content_start = start_of_header + c.len() + end_of_line + end_of_line_bytes;
 
-- 
2.43.0


From 934dedf1a3dd527565c0a4d02bb94a130f1e956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:37 +0000
Subject: [PATCH 23/44] fix: do not lose peers that connect at the same time

libp2p drops an incoming stream when the previous one has not been taken yet.
Take them in a task of their own, and open a new stream if ours was dropped.
---
 daemon/src/peer.rs | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index eab6760..575eebb 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -28,6 +28,7 @@ use std::net::Ipv4Addr;
 use std::os::unix::fs::{OpenOptionsExt, PermissionsExt};
 use std::path::{Path, PathBuf};
 use tokio::sync::{broadcast, mpsc, oneshot};
+use tokio::task::JoinHandle;
 use tokio::time::Duration;
 use tracing::{debug, error, info, warn};
 
@@ -157,16 +158,18 @@ impl P2PActor {
             swarm.dial(multiaddr)?;
         }
 
+        // Take incoming streams as fast as possible, libp2p drops them when we're too slow.
+        let actor = self.clone();
+        tokio::spawn(async move {
+            while let Some((peer, stream)) = incoming_streams.next().await {
+                info!("Peer connected: {}", peer);
+                actor.spawn_peer_sync(stream);
+            }
+        });
+
         // Poll the swarm to make progress.
         loop {
-            let event = tokio::select! {
-                event = swarm.next() => event.expect("never terminates"),
-                Some((peer, stream)) = incoming_streams.next() => {
-                    info!("Peer connected: {}", peer);
-                    self.spawn_peer_sync(stream);
-                    continue;
-                }
-            };
+            let event = swarm.next().await.expect("never terminates");
 
             match event {
                 libp2p::swarm::SwarmEvent::NewListenAddr { address, .. } => {
@@ -196,12 +199,20 @@ impl P2PActor {
                     let actor = self.clone();
                     // The peer decides how long this takes, so don't wait for it.
                     tokio::spawn(async move {
-                        match control.open_stream(peer_id, ETHERSYNC_PROTOCOL).await {
-                            Ok(stream) => {
-                                info!("Connected to peer {}", peer_id);
-                                actor.spawn_peer_sync(stream);
+                        loop {
+                            match control.open_stream(peer_id, ETHERSYNC_PROTOCOL).await {
+                                Ok(stream) => {
+                                    info!("Connected to peer {}", peer_id);
+                                    let _ = actor.spawn_peer_sync(stream).await;
+                                }
+                                Err(error) => {
+                                    debug!("Failed to open stream: {error}");
+                                    break;
+                                }
                             }
-                            Err(error) => error!("Failed to open stream: {error}"),
+                            // When many peers connect at once, the other side can drop our stream.
+                            // As long as we're still connected, try again.
+                            tokio::time::sleep(Duration::from_secs(1)).await;
                         }
                     });
                 }
@@ -269,7 +280,7 @@ impl P2PActor {
         key
     }
 
-    fn spawn_peer_sync(&self, stream: Stream) {
+    fn spawn_peer_sync(&self, stream: Stream) -> JoinHandle<()> {
         let (to_peer_tx, to_peer_rx) = mpsc::channel(16);
         let (from_peer_tx, from_peer_rx) = mpsc::channel(16);
 
@@ -290,7 +301,7 @@ impl P2PActor {
             // TODO: Do we still this abort? The syncer should stop anyway once it cannot use its
             // to_peer_tx anymore.
             syncer_handle.abort_handle().abort();
-        });
+        })
     }
 
     /// Core low-level syncing protocol.
-- 
2.43.0


From 605ad955e454ba1923e7cb1f8c1a49b1f0d81161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:22 +0000
Subject: [PATCH 24/44] fix: do not let an editor that stops reading block the
 daemon

Messages for an editor were written to its socket by the document actor.
When an editor stopped reading, the actor waited for it, and nobody else's
requests were handled anymore. A task per connection does the writing now.
---
 daemon/src/daemon.rs |  3 +--
 daemon/src/editor.rs | 23 +++++++++++++++++------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 21f2e12..3f0c581 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -21,7 +21,6 @@ use automerge::{
     sync::{Message as AutomergeSyncMessage, State as SyncState},
     Patch,
 };
-use futures::SinkExt;
 use ignore::{Walk, WalkBuilder};
 use rand::Rng;
 use std::collections::{HashMap, HashSet};
@@ -603,7 +602,7 @@ impl DocumentActor {
             return;
         };
 
-        connection.1.send(message).await.unwrap_or_else(|err| {
+        connection.1.send(message).unwrap_or_else(|err| {
             error!("Failed to send message to editor: {err} Removing editor.");
             self.remove_editor(editor_id);
         });
diff --git a/daemon/src/editor.rs b/daemon/src/editor.rs
index fac0904..80e90d5 100644
--- a/daemon/src/editor.rs
+++ b/daemon/src/editor.rs
@@ -8,25 +8,25 @@ use crate::daemon::{DocMessage, DocumentActorHandle};
 use crate::sandbox;
 use crate::types::EditorProtocolObject;
 use anyhow::{bail, Context, Result};
-use futures::StreamExt;
+use futures::{SinkExt, StreamExt};
 use std::{
     fs, io,
     os::unix::fs::PermissionsExt,
     path::{Path, PathBuf},
 };
 use tokio::{
-    io::WriteHalf,
     net::{UnixListener, UnixStream},
+    sync::mpsc,
 };
 use tokio_util::{
     bytes::BytesMut,
     codec::{Encoder, FramedRead, FramedWrite, LinesCodec},
 };
-use tracing::info;
+use tracing::{debug, info};
 
 pub type EditorId = usize;
 
-pub type EditorWriter = FramedWrite<WriteHalf<UnixStream>, EditorProtocolCodec>;
+pub type EditorWriter = mpsc::UnboundedSender<EditorProtocolObject>;
 
 pub struct EditorProtocolCodec;
 
@@ -150,10 +150,21 @@ fn spawn_editor_connection(
     tokio::spawn(async move {
         let (stream_read, stream_write) = tokio::io::split(stream);
         let mut reader = FramedRead::new(stream_read, LinesCodec::new());
-        let writer = FramedWrite::new(stream_write, EditorProtocolCodec);
+        let mut writer = FramedWrite::new(stream_write, EditorProtocolCodec);
+
+        // The editor decides how fast it reads, and everyone else shouldn't have to wait for that.
+        let (message_tx, mut message_rx) = mpsc::unbounded_channel();
+        tokio::spawn(async move {
+            while let Some(message) = message_rx.recv().await {
+                if let Err(err) = writer.send(message).await {
+                    debug!("Failed to send message to editor: {err}");
+                    break;
+                }
+            }
+        });
 
         document_handle
-            .send_message(DocMessage::NewEditorConnection(editor_id, writer))
+            .send_message(DocMessage::NewEditorConnection(editor_id, message_tx))
             .await;
         info!("Client #{editor_id} connected");
 
-- 
2.43.0


From 1158c5b853f41a0abf1f01dc50bf4ec580388045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:16 +0000
Subject: [PATCH 25/44] fix: apply remote edits of the last newline to the
 Neovim buffer they are for

Edits at or after the end of the last line were clamped, and 'eol' was
switched off in the current buffer, which can be a different one.
---
 vim-plugin/lua/utils.lua | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/vim-plugin/lua/utils.lua b/vim-plugin/lua/utils.lua
index bbc60f0..f634d65 100644
--- a/vim-plugin/lua/utils.lua
+++ b/vim-plugin/lua/utils.lua
@@ -89,8 +89,13 @@ function M.apply_text_edits(text_edits, bufnr, offset_encoding)
         end
     end
 
+    -- Edits can refer to the position after a trailing newline, which Neovim doesn't represent as a line.
+    -- While applying them, let's have one there.
+    if vim.bo[bufnr].eol then
+        vim.api.nvim_buf_set_lines(bufnr, -1, -1, false, { "" })
+    end
+
     -- Apply text edits.
-    local disable_eol = false
     for _, text_edit in ipairs(text_edits) do
         -- Normalize line ending
         text_edit.newText, _ = string.gsub(text_edit.newText, "\r\n?", "\n")
@@ -123,9 +128,6 @@ function M.apply_text_edits(text_edits, bufnr, offset_encoding)
             if max <= e.end_row then
                 e.end_row = max - 1
                 e.end_col = last_line_len
-                disable_eol = true
-                -- "a" + 'eol' + replace((0,1), (1,0), "") => "a" + 'noeol'
-                -- "a" + 'eol' + replace((0,1), (1,0), "\n\n") => "a\n\n" + 'noeol' (I guess?)
             else
                 -- If the replacement is over the end of a line (i.e. e.end_col is out of bounds and the
                 -- replacement text ends with a newline We can likely assume that the replacement is assumed
@@ -149,6 +151,12 @@ function M.apply_text_edits(text_edits, bufnr, offset_encoding)
     end
 
     local max = vim.api.nvim_buf_line_count(bufnr)
+    local ends_with_newline = max > 1 and get_line(bufnr, max - 1) == ""
+    if ends_with_newline then
+        vim.api.nvim_buf_set_lines(bufnr, max - 1, max, false, {})
+        max = max - 1
+    end
+    vim.bo[bufnr].eol = ends_with_newline
 
     -- no need to restore marks that still exist
     for _, m in pairs(vim.fn.getmarklist(bufnr)) do
@@ -163,10 +171,6 @@ function M.apply_text_edits(text_edits, bufnr, offset_encoding)
             vim.api.nvim_buf_set_mark(bufnr or 0, mark, pos[1], pos[2], {})
         end
     end
-
-    if disable_eol then
-        vim.bo.eol = false
-    end
 end
 
 return M
-- 
2.43.0


From c4d666204d7583530bc3b2249d2c30aceb43ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:16 +0000
Subject: [PATCH 26/44] fix: keep carriage returns of remote edits in Neovim
 buffers

They became newlines, so that the buffer differed from the shared text.
---
 vim-plugin/lua/utils.lua | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vim-plugin/lua/utils.lua b/vim-plugin/lua/utils.lua
index f634d65..7ea9d41 100644
--- a/vim-plugin/lua/utils.lua
+++ b/vim-plugin/lua/utils.lua
@@ -97,8 +97,10 @@ function M.apply_text_edits(text_edits, bufnr, offset_encoding)
 
     -- Apply text edits.
     for _, text_edit in ipairs(text_edits) do
-        -- Normalize line ending
-        text_edit.newText, _ = string.gsub(text_edit.newText, "\r\n?", "\n")
+        -- Normalize line ending, if the buffer doesn't contain it itself.
+        if vim.bo[bufnr].fileformat == "dos" then
+            text_edit.newText, _ = string.gsub(text_edit.newText, "\r\n", "\n")
+        end
 
         -- Convert from LSP style ranges to Neovim style ranges.
         local e = {
-- 
2.43.0


From 29007ffc67a03c923ed6e05b54058b23cf1e59fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:16 +0000
Subject: [PATCH 27/44] fix: report the whole difference after a change in
 Neovim

The line range that Neovim announces does not always cover everything that
changed, for example after undoing or with :global.
---
 vim-plugin/lua/changetracker.lua | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/vim-plugin/lua/changetracker.lua b/vim-plugin/lua/changetracker.lua
index 07f81e3..c773888 100644
--- a/vim-plugin/lua/changetracker.lua
+++ b/vim-plugin/lua/changetracker.lua
@@ -12,6 +12,22 @@ local M = {}
 -- Used to note that changes to the buffer should be ignored, and not be sent out as deltas.
 local ignore_edits = false
 
+-- Extends a line range so that it covers everything that is different.
+local function widen_to_difference(prev_lines, curr_lines, first_line, last_line, new_last_line)
+    local before = 0
+    while before < first_line and before < #curr_lines and prev_lines[before + 1] == curr_lines[before + 1] do
+        before = before + 1
+    end
+
+    local max_after = math.min(#prev_lines - math.max(last_line, before), #curr_lines - math.max(new_last_line, before))
+    local after = 0
+    while after < max_after and prev_lines[#prev_lines - after] == curr_lines[#curr_lines - after] do
+        after = after + 1
+    end
+
+    return before, #prev_lines - after, #curr_lines - after
+end
+
 -- Subscribes the callback to changes for a given buffer id and reports with a delta.
 --
 -- The delta can be expected to be in the format as specified in the daemon-editor protocol.
@@ -42,6 +58,10 @@ function M.track_changes(buffer, callback)
                 return
             end
 
+            -- The lines we get called with don't always cover the whole difference to the previous content.
+            first_line, last_line, new_last_line =
+                widen_to_difference(prev_lines, curr_lines, first_line, last_line, new_last_line)
+
             debug({ curr_lines = curr_lines, prev_lines = prev_lines })
             local diff = sync.compute_diff(prev_lines, curr_lines, first_line, last_line, new_last_line, "utf-32", "\n")
             -- line/character indices in diff are zero-based.
-- 
2.43.0


From 0cf162b9708e4494a113c7da4a96a4a3643a7da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:16 +0000
Subject: [PATCH 28/44] fix: do not move replacements at the end of a Neovim
 buffer one line up

Only deletions may be shifted to the previous newline. With inserted text,
the reported edit did not lead to what the buffer shows.
---
 vim-plugin/lua/changetracker.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vim-plugin/lua/changetracker.lua b/vim-plugin/lua/changetracker.lua
index c773888..2e33548 100644
--- a/vim-plugin/lua/changetracker.lua
+++ b/vim-plugin/lua/changetracker.lua
@@ -91,7 +91,7 @@ function M.track_changes(buffer, callback)
                     -- The range doesn't start on the first line.
                     if diff.range["end"].character == 0 then
                         -- The range ends at the beginning of the line after the visible lines.
-                        if diff.range["start"].character == 0 then
+                        if diff.range["start"].character == 0 and diff.text == "" then
                             -- Operation applies to beginning of lines, that means it's possible to shift it back.
                             -- Modify edit, s.t. not the last \n, but the one before is replaced.
                             diff.range["start"].line = diff.range["start"].line - 1
-- 
2.43.0


From bfe29066ebc29b4afab5fdbe2ade16ebe5819fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:16 +0000
Subject: [PATCH 29/44] fix: keep tracking a Neovim buffer after a reload is
 undone

---
 vim-plugin/lua/changetracker.lua | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vim-plugin/lua/changetracker.lua b/vim-plugin/lua/changetracker.lua
index 2e33548..7b7e93c 100644
--- a/vim-plugin/lua/changetracker.lua
+++ b/vim-plugin/lua/changetracker.lua
@@ -145,6 +145,8 @@ function M.track_changes(buffer, callback)
 
             callback(delta)
         end,
+        -- Without this, Neovim stops calling on_lines when undoing a reload of the buffer.
+        on_reload = function() end,
     })
 end
 
-- 
2.43.0


From e840a42a10220c316f8bdd2cb8c42f19038b1785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:16 +0000
Subject: [PATCH 30/44] fix: track a Neovim buffer from the moment it is
 announced

Tracking began with the answer of the daemon, for whichever buffer was
current by then. Edits made in between were lost.
---
 vim-plugin/plugin/ethersync.lua | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/vim-plugin/plugin/ethersync.lua b/vim-plugin/plugin/ethersync.lua
index d4ba110..25f1c64 100644
--- a/vim-plugin/plugin/ethersync.lua
+++ b/vim-plugin/plugin/ethersync.lua
@@ -124,21 +124,29 @@ local function is_ethersync_enabled(filename)
 end
 
 local function track_edits(filename, uri)
-    files[filename] = {
+    local file = {
         -- Number of operations the daemon has made.
         daemon_revision = 0,
         -- Number of operations we have made.
         editor_revision = 0,
     }
+    files[filename] = file
 
     changetracker.track_changes(0, function(delta)
-        files[filename].editor_revision = files[filename].editor_revision + 1
+        if files[filename] ~= file then
+            -- The daemon didn't want to open it.
+            return
+        end
+        file.editor_revision = file.editor_revision + 1
 
-        local params = { uri = uri, delta = delta, revision = files[filename].daemon_revision }
+        local params = { uri = uri, delta = delta, revision = file.daemon_revision }
 
         send_request("edit", params)
     end)
     cursor.track_cursor(0, function(ranges)
+        if files[filename] ~= file then
+            return
+        end
         local params = { uri = uri, ranges = ranges }
         -- Even though it's not "needed" we're sending requests in this case
         -- to ensure we're processing/seeing potential errors.
@@ -149,13 +157,13 @@ end
 -- Disabling 'autoread' prevents Neovim from reloading the file when it changes externally,
 -- but only in the case where the buffer hasn't been modified in Neovim already.
 -- For the conflicting case, we prevent a popup dialog by setting the FileChangedShell autocommand below.
-local function ensure_autoread_is_off()
+local function ensure_autoread_is_off(buffer)
     if vim.o.autoread then
         if not did_print_autoread_info then
             print("Ethersync works better when autoread is off, so we're disabling it for you (in Ethersync buffers).")
             did_print_autoread_info = true
         end
-        vim.bo.autoread = false
+        vim.bo[buffer].autoread = false
     end
 end
 
@@ -180,11 +188,18 @@ local function on_buffer_open()
         vim.bo.eol = false
     end
 
+    local buffer = vim.api.nvim_get_current_buf()
     send_request("open", { uri = uri }, function()
-        debug("Tracking Edits")
-        ensure_autoread_is_off()
-        track_edits(filename, uri)
+        if vim.api.nvim_buf_is_valid(buffer) then
+            ensure_autoread_is_off(buffer)
+        end
+    end, function()
+        files[filename] = nil
     end)
+
+    -- Don't wait for the answer. Until then, the user might have edited the buffer or moved on to another one.
+    debug("Tracking Edits")
+    track_edits(filename, uri)
 end
 
 local function on_buffer_new_file()
-- 
2.43.0


From 3663184841f1abf1ef3bc74bdde2e61da474d1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:48 +0000
Subject: [PATCH 31/44] fix: ignore edits for files the daemon has not
 confirmed yet in the Neovim plugin

Edits that arrive after a file was closed, or before the answer to a new
"open" request, belong to an earlier session. They were applied to the
buffer, or led to an error for unknown files.
---
 vim-plugin/plugin/ethersync.lua | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/vim-plugin/plugin/ethersync.lua b/vim-plugin/plugin/ethersync.lua
index 25f1c64..70ce38c 100644
--- a/vim-plugin/plugin/ethersync.lua
+++ b/vim-plugin/plugin/ethersync.lua
@@ -49,15 +49,21 @@ local function process_operation_for_editor(method, parameters)
         local delta = parameters.delta
         local the_editor_revision = parameters.revision
 
+        local file = files[filepath]
+        if not file or not file.is_open then
+            -- This is about a file we have closed in the meantime.
+            return
+        end
+
         -- Check if operation is up-to-date to our content.
         -- If it's not, ignore it! The daemon will send a transformed one later.
-        if the_editor_revision == files[filepath].editor_revision then
+        if the_editor_revision == file.editor_revision then
             -- Find correct buffer to apply edits to.
             local bufnr = vim.uri_to_bufnr(uri)
 
             changetracker.apply_delta(bufnr, delta)
 
-            files[filepath].daemon_revision = files[filepath].daemon_revision + 1
+            file.daemon_revision = file.daemon_revision + 1
         end
     elseif method == "cursor" then
         cursor.set_cursor(parameters.uri, parameters.userid, parameters.name, parameters.ranges)
@@ -129,6 +135,8 @@ local function track_edits(filename, uri)
         daemon_revision = 0,
         -- Number of operations we have made.
         editor_revision = 0,
+        -- Whether the daemon has confirmed that it opened the file.
+        is_open = false,
     }
     files[filename] = file
 
@@ -152,6 +160,8 @@ local function track_edits(filename, uri)
         -- to ensure we're processing/seeing potential errors.
         send_request("cursor", params)
     end)
+
+    return file
 end
 
 -- Disabling 'autoread' prevents Neovim from reloading the file when it changes externally,
@@ -188,18 +198,21 @@ local function on_buffer_open()
         vim.bo.eol = false
     end
 
+    -- Don't wait for the answer. Until then, the user might have edited the buffer or moved on to another one.
+    debug("Tracking Edits")
+    local file = track_edits(filename, uri)
     local buffer = vim.api.nvim_get_current_buf()
+
     send_request("open", { uri = uri }, function()
+        file.is_open = true
         if vim.api.nvim_buf_is_valid(buffer) then
             ensure_autoread_is_off(buffer)
         end
     end, function()
-        files[filename] = nil
+        if files[filename] == file then
+            files[filename] = nil
+        end
     end)
-
-    -- Don't wait for the answer. Until then, the user might have edited the buffer or moved on to another one.
-    debug("Tracking Edits")
-    track_edits(filename, uri)
 end
 
 local function on_buffer_new_file()
-- 
2.43.0


From a10250bd0b8f4025cc717ea949133046a56ffef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:48 +0000
Subject: [PATCH 32/44] fix: don't percent-decode file names in the Neovim
 plugin

Neither the plugin nor the daemon percent-encode URIs, so edits of files
with a percent sign in their name went to a different buffer.
---
 vim-plugin/plugin/ethersync.lua | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vim-plugin/plugin/ethersync.lua b/vim-plugin/plugin/ethersync.lua
index 70ce38c..a921d87 100644
--- a/vim-plugin/plugin/ethersync.lua
+++ b/vim-plugin/plugin/ethersync.lua
@@ -45,7 +45,8 @@ local function process_operation_for_editor(method, parameters)
     if method == "edit" then
         local uri = parameters.uri
         -- TODO: Determine the proper filepath (relative to project dir).
-        local filepath = vim.uri_to_fname(uri)
+        -- Like ours, the daemon's URIs are not percent-encoded.
+        local filepath = uri:gsub("^file://", "")
         local delta = parameters.delta
         local the_editor_revision = parameters.revision
 
@@ -59,7 +60,7 @@ local function process_operation_for_editor(method, parameters)
         -- If it's not, ignore it! The daemon will send a transformed one later.
         if the_editor_revision == file.editor_revision then
             -- Find correct buffer to apply edits to.
-            local bufnr = vim.uri_to_bufnr(uri)
+            local bufnr = vim.fn.bufadd(filepath)
 
             changetracker.apply_delta(bufnr, delta)
 
-- 
2.43.0


From c141028844debd756bf91e78c2219029664dea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:48 +0000
Subject: [PATCH 33/44] fix: only share documents that are files in VS Code

Other documents, like the left side of a diff view, have the same file name
as the file they belong to, and were sent to the daemon in its place.
---
 vscode-plugin/src/extension.ts | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vscode-plugin/src/extension.ts b/vscode-plugin/src/extension.ts
index 345e271..d1a5f86 100644
--- a/vscode-plugin/src/extension.ts
+++ b/vscode-plugin/src/extension.ts
@@ -181,6 +181,11 @@ function documentForUri(uri: string): vscode.TextDocument | undefined {
     return vscode.workspace.textDocuments.find((doc) => decodeURI(doc.uri.toString()) === uri)
 }
 
+// There are other documents with the same file name, for example older versions in a diff view.
+function isFile(document: vscode.TextDocument): boolean {
+    return document.uri.scheme === "file"
+}
+
 async function processEditFromDaemon(edit: Edit) {
     try {
         await mutex.runExclusive(async () => {
@@ -262,6 +267,9 @@ async function applyEdit(document: vscode.TextDocument, edit: Edit): Promise<boo
 
 // TODO: check if belongs to project.
 async function processUserOpen(document: vscode.TextDocument) {
+    if (!isFile(document)) {
+        return
+    }
     const fileUri = decodeURI(document.uri.toString())
     debug("OPEN " + fileUri)
     connection
@@ -277,7 +285,7 @@ async function processUserOpen(document: vscode.TextDocument) {
 }
 
 function processUserClose(document: vscode.TextDocument) {
-    if (!(document.fileName in revisions)) {
+    if (!isFile(document) || !(document.fileName in revisions)) {
         // File is not currently tracked in ethersync.
         return
     }
@@ -322,7 +330,7 @@ function isRemoteEdit(event: vscode.TextDocumentChangeEvent): boolean {
 // NOTE: We might get multiple events per document.version,
 // as the _state_ of the document might change (like isDirty).
 function processUserEdit(event: vscode.TextDocumentChangeEvent) {
-    if (!(event.document.fileName in revisions)) {
+    if (!isFile(event.document) || !(event.document.fileName in revisions)) {
         // File is not currently tracked in Ethersync.
         return
     }
@@ -376,7 +384,7 @@ function processUserEdit(event: vscode.TextDocumentChangeEvent) {
 }
 
 function processSelection(event: vscode.TextEditorSelectionChangeEvent) {
-    if (!(event.textEditor.document.fileName in revisions)) {
+    if (!isFile(event.textEditor.document) || !(event.textEditor.document.fileName in revisions)) {
         // File is not currently tracked in ethersync.
         return
     }
-- 
2.43.0


From d3325c54717e46dd95bb15f4acc3c92c5c18ab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:48 +0000
Subject: [PATCH 34/44] fix: file names with special characters in VS Code

decodeURI leaves characters like '#' and '?' encoded, so the daemon got
a wrong file name. Cursors in such files were not shown, either.
---
 vscode-plugin/src/extension.ts | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vscode-plugin/src/extension.ts b/vscode-plugin/src/extension.ts
index d1a5f86..0fe3e7a 100644
--- a/vscode-plugin/src/extension.ts
+++ b/vscode-plugin/src/extension.ts
@@ -178,7 +178,7 @@ function openCurrentTextDocuments() {
 }
 
 function documentForUri(uri: string): vscode.TextDocument | undefined {
-    return vscode.workspace.textDocuments.find((doc) => decodeURI(doc.uri.toString()) === uri)
+    return vscode.workspace.textDocuments.find((doc) => decodeURIComponent(doc.uri.toString()) === uri)
 }
 
 // There are other documents with the same file name, for example older versions in a diff view.
@@ -235,7 +235,7 @@ async function processCursorFromDaemon(cursor: CursorFromDaemon) {
         if (document) {
             selections = cursor.ranges.map((r) => ethersyncRangeToVSCodeRange(document, r)).map(vsCodeRangeToSelection)
         }
-        setCursor(cursor.userid, cursor.name || "anonymous", vscode.Uri.parse(uri), selections)
+        setCursor(cursor.userid, cursor.name || "anonymous", vscode.Uri.file(uriToFname(uri)), selections)
     } catch {
         // If we couldn't convert ethersyncRangeToVSCodeRange, it's probably because
         // we received the cursor message before integrating the edits, typing at the end of a line.
@@ -249,7 +249,7 @@ async function applyEdit(document: vscode.TextDocument, edit: Edit): Promise<boo
     for (const delta of edit.delta) {
         const range = ethersyncRangeToVSCodeRange(document, delta.range)
         let edit = new vscode.TextEdit(range, delta.replacement)
-        debug(`Edit applied to document ${decodeURI(document.uri.toString())}`)
+        debug(`Edit applied to document ${decodeURIComponent(document.uri.toString())}`)
         edits.push(edit)
     }
     let workspaceEdit = new vscode.WorkspaceEdit()
@@ -270,7 +270,7 @@ async function processUserOpen(document: vscode.TextDocument) {
     if (!isFile(document)) {
         return
     }
-    const fileUri = decodeURI(document.uri.toString())
+    const fileUri = decodeURIComponent(document.uri.toString())
     debug("OPEN " + fileUri)
     connection
         .sendRequest(openType, {uri: fileUri})
@@ -289,7 +289,7 @@ function processUserClose(document: vscode.TextDocument) {
         // File is not currently tracked in ethersync.
         return
     }
-    const fileUri = decodeURI(document.uri.toString())
+    const fileUri = decodeURIComponent(document.uri.toString())
     connection.sendRequest(closeType, {uri: fileUri})
 
     delete revisions[document.fileName]
@@ -388,7 +388,7 @@ function processSelection(event: vscode.TextEditorSelectionChangeEvent) {
         // File is not currently tracked in ethersync.
         return
     }
-    let uri = decodeURI(event.textEditor.document.uri.toString())
+    let uri = decodeURIComponent(event.textEditor.document.uri.toString())
     let content = contents[event.textEditor.document.fileName]
     let ranges = event.selections.map((s) => {
         return vsCodeRangeToEthersyncRange(content, s)
@@ -407,7 +407,7 @@ function vsCodeChangeEventToEthersyncEdits(event: vscode.TextDocumentChangeEvent
 
     for (const change of event.contentChanges) {
         let delta = vsCodeChangeToEthersyncDelta(content, change)
-        let uri = decodeURI(document.uri.toString())
+        let uri = decodeURIComponent(document.uri.toString())
         let theEdit: Edit = {uri, revision: revision.daemon, delta: [delta]}
         edits.push(theEdit)
     }
-- 
2.43.0


From f0dd048a1fb8ec598c0ed1945c9a57c4c3cd5641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:48 +0000
Subject: [PATCH 35/44] fix: track documents from the moment they are opened in
 VS Code

Edits the user made before the daemon's answer were not sent. Edits of the
daemon that belong to an earlier session were applied to the new one.
---
 vscode-plugin/src/extension.ts | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/vscode-plugin/src/extension.ts b/vscode-plugin/src/extension.ts
index 0fe3e7a..8c1dfe4 100644
--- a/vscode-plugin/src/extension.ts
+++ b/vscode-plugin/src/extension.ts
@@ -63,6 +63,8 @@ interface CursorFromDaemon {
 class Revision {
     daemon = 0
     editor = 0
+    // Whether the daemon has confirmed that it opened the file.
+    isOpen = false
 }
 
 let connection: rpc.MessageConnection
@@ -191,6 +193,10 @@ async function processEditFromDaemon(edit: Edit) {
         await mutex.runExclusive(async () => {
             const filename = uriToFname(edit.uri)
             let revision = revisions[filename]
+            if (!revision || !revision.isOpen) {
+                debug("Received edit for a file that was closed in the meantime, ignoring")
+                return
+            }
             if (edit.revision !== revision.editor) {
                 debug(`Received edit for revision ${edit.revision} (!= ${revision.editor}), ignoring`)
                 return
@@ -272,15 +278,21 @@ async function processUserOpen(document: vscode.TextDocument) {
     }
     const fileUri = decodeURIComponent(document.uri.toString())
     debug("OPEN " + fileUri)
+    // Don't wait for the answer, there might be edits until then.
+    const revision = new Revision()
+    revisions[document.fileName] = revision
+    updateContents(document)
     connection
         .sendRequest(openType, {uri: fileUri})
         .then(() => {
-            revisions[document.fileName] = new Revision()
-            updateContents(document)
-            debug("Successfully opened. Tracking changes.")
+            revision.isOpen = true
+            debug("Successfully opened.")
         })
         .catch(() => {
             debug("OPEN rejected by daemon")
+            if (revisions[document.fileName] === revision) {
+                delete revisions[document.fileName]
+            }
         })
 }
 
-- 
2.43.0


From e09b9308137bf2a45099a9e1dcc4ef7c3d121feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:48 +0000
Subject: [PATCH 36/44] fix: recognize edits of others by their result in VS
 Code

VS Code may report the parts of an edit in a different order, so they were
taken for the user's own and sent back. An edit that VS Code rejected was
expected forever, and could hide one of the user's.
---
 vscode-plugin/src/extension.ts | 45 ++++++++++++++--------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/vscode-plugin/src/extension.ts b/vscode-plugin/src/extension.ts
index 8c1dfe4..1e457fd 100644
--- a/vscode-plugin/src/extension.ts
+++ b/vscode-plugin/src/extension.ts
@@ -75,7 +75,7 @@ let contents: {[filename: string]: string[]} = {}
 // TODO: if we load from disk, this will also cause edits :-/
 let t0 = Date.now()
 const mutex = new Mutex()
-let attemptedRemoteEdits: Set<vscode.TextEdit[]> = new Set()
+let attemptedRemoteEdit: {document: vscode.TextDocument; expectedText: string} | null = null
 
 const openType = new rpc.RequestType<{uri: string}, string, void>("open")
 const closeType = new rpc.RequestType<{uri: string}, string, void>("close")
@@ -209,8 +209,9 @@ async function processEditFromDaemon(edit: Edit) {
             const document = documentForUri(uri)
             if (document) {
                 let textEdit = ethersyncDeltasToVSCodeTextEdits(document, edit.delta)
-                attemptedRemoteEdits.add(textEdit)
+                attemptedRemoteEdit = {document, expectedText: textAfterEdits(document, textEdit)}
                 let worked = await applyEdit(document, edit)
+                attemptedRemoteEdit = null
                 if (worked) {
                     revision.daemon += 1
                     // Attempt auto-save to avoid the situation where one user closes a modified
@@ -307,36 +308,28 @@ function processUserClose(document: vscode.TextDocument) {
     delete revisions[document.fileName]
 }
 
-function isTextEditsEqualToVSCodeContentChanges(
-    textEdits: vscode.TextEdit[],
-    changes: readonly vscode.TextDocumentContentChangeEvent[],
-): boolean {
-    if (textEdits.length !== changes.length) {
-        return false
-    }
-    for (let i = 0; i < textEdits.length; i++) {
-        let textEdit = textEdits[i]
-        let change = changes[i]
-        if (textEdit.newText !== change.text || !textEdit.range.isEqual(change.range)) {
-            return false
-        }
+function textAfterEdits(document: vscode.TextDocument, textEdits: vscode.TextEdit[]): string {
+    let text = document.getText()
+    // All ranges refer to the current text, so let's begin at its end.
+    for (const {range, newText} of [...textEdits].reverse()) {
+        text = text.slice(0, document.offsetAt(range.start)) + newText + text.slice(document.offsetAt(range.end))
     }
-    return true
+    return text
 }
 
+// VS Code doesn't report changes in the order (or even in the form) in which we requested them,
+// so we look at the result.
 function isRemoteEdit(event: vscode.TextDocumentChangeEvent): boolean {
-    let found: vscode.TextEdit[] | null = null
-    for (let attemptedEdit of attemptedRemoteEdits) {
-        if (isTextEditsEqualToVSCodeContentChanges(attemptedEdit, event.contentChanges)) {
-            found = attemptedEdit
-            break
-        }
+    if (attemptedRemoteEdit === null || attemptedRemoteEdit.document !== event.document) {
+        return false
     }
-    if (found !== null) {
-        attemptedRemoteEdits.delete(found)
-        return true
+    if (event.contentChanges.length == 0) {
+        return false
     }
-    return false
+    const isExpected = event.document.getText() === attemptedRemoteEdit.expectedText
+    // If it's a different edit, VS Code is going to reject ours.
+    attemptedRemoteEdit = null
+    return isExpected
 }
 
 // NOTE: We might get multiple events per document.version,
-- 
2.43.0


From c5246a3c7521be1c2ab96386770016e693c48d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:48 +0000
Subject: [PATCH 37/44] fix: handle changes synchronously in VS Code

While waiting for a lock, the revisions and the content got out of step
with the document, so edits were sent with wrong positions or revisions.
---
 vscode-plugin/src/extension.ts | 106 +++++++++++++++++----------------
 1 file changed, 56 insertions(+), 50 deletions(-)

diff --git a/vscode-plugin/src/extension.ts b/vscode-plugin/src/extension.ts
index 1e457fd..f837988 100644
--- a/vscode-plugin/src/extension.ts
+++ b/vscode-plugin/src/extension.ts
@@ -75,7 +75,14 @@ let contents: {[filename: string]: string[]} = {}
 // TODO: if we load from disk, this will also cause edits :-/
 let t0 = Date.now()
 const mutex = new Mutex()
-let attemptedRemoteEdit: {document: vscode.TextDocument; expectedText: string} | null = null
+class RemoteEdit {
+    wasSeen = false
+    constructor(
+        public document: vscode.TextDocument,
+        public expectedText: string,
+    ) {}
+}
+let attemptedRemoteEdit: RemoteEdit | null = null
 
 const openType = new rpc.RequestType<{uri: string}, string, void>("open")
 const closeType = new rpc.RequestType<{uri: string}, string, void>("close")
@@ -209,11 +216,16 @@ async function processEditFromDaemon(edit: Edit) {
             const document = documentForUri(uri)
             if (document) {
                 let textEdit = ethersyncDeltasToVSCodeTextEdits(document, edit.delta)
-                attemptedRemoteEdit = {document, expectedText: textAfterEdits(document, textEdit)}
-                let worked = await applyEdit(document, edit)
-                attemptedRemoteEdit = null
-                if (worked) {
+                const remoteEdit = new RemoteEdit(document, textAfterEdits(document, textEdit))
+                if (remoteEdit.expectedText === document.getText()) {
+                    // There is nothing to do, and there won't be an event.
                     revision.daemon += 1
+                    return
+                }
+                attemptedRemoteEdit = remoteEdit
+                await applyEdit(document, edit)
+                attemptedRemoteEdit = null
+                if (remoteEdit.wasSeen) {
                     // Attempt auto-save to avoid the situation where one user closes a modified
                     // document without saving, which will cause VS Code to undo the dirty changes.
                     document.save()
@@ -261,15 +273,7 @@ async function applyEdit(document: vscode.TextDocument, edit: Edit): Promise<boo
     }
     let workspaceEdit = new vscode.WorkspaceEdit()
     workspaceEdit.set(document.uri, edits)
-    let worked = await vscode.workspace.applyEdit(workspaceEdit)
-
-    // TODO: Make this more efficient by replacing only the changed lines.
-    // The challenge with that is that we need to compute how many lines are
-    // left after the edit.
-    if (worked) {
-        updateContents(document)
-    }
-    return worked
+    return await vscode.workspace.applyEdit(workspaceEdit)
 }
 
 // TODO: check if belongs to project.
@@ -327,6 +331,7 @@ function isRemoteEdit(event: vscode.TextDocumentChangeEvent): boolean {
         return false
     }
     const isExpected = event.document.getText() === attemptedRemoteEdit.expectedText
+    attemptedRemoteEdit.wasSeen = isExpected
     // If it's a different edit, VS Code is going to reject ours.
     attemptedRemoteEdit = null
     return isExpected
@@ -339,53 +344,54 @@ function processUserEdit(event: vscode.TextDocumentChangeEvent) {
         // File is not currently tracked in Ethersync.
         return
     }
+    const document = event.document
+    const filename = document.fileName
+    const revision = revisions[filename]
+
+    // From now on, the revisions and contents have to include this change, as it can influence
+    // the next edit we receive or report.
     if (isRemoteEdit(event)) {
         debug("Ignoring remote event (we have caused it)")
+        revision.daemon += 1
+        updateContents(document)
         return
     }
-    mutex
-        .runExclusive(() => {
-            let document = event.document
-
-            // For some reason we get multipe events per edit caused by us.
-            // Let's actively skip the empty ones to make debugging output below less noisy.
-            if (event.contentChanges.length == 0) {
-                if (document.isDirty == false) {
-                    debug("Ignoring empty docChange. (probably saving...)")
-                }
-                return
-            }
-
-            const filename = document.fileName
-            if (!isEthersyncEnabled(path.dirname(filename))) {
-                return
+    try {
+        // For some reason we get multipe events per edit caused by us.
+        // Let's actively skip the empty ones to make debugging output below less noisy.
+        if (event.contentChanges.length == 0) {
+            if (document.isDirty == false) {
+                debug("Ignoring empty docChange. (probably saving...)")
             }
+            return
+        }
 
-            let revision = revisions[filename]
+        if (!isEthersyncEnabled(path.dirname(filename))) {
+            return
+        }
 
-            let edits = vsCodeChangeEventToEthersyncEdits(event)
+        let edits = vsCodeChangeEventToEthersyncEdits(event)
 
-            for (const theEdit of edits) {
-                // interestingly this seems to block when it can't send
-                // TODO: Catch exceptions, for example when daemon disconnects/crashes.
-                connection.sendRequest(editType, theEdit)
-                revision.editor += 1
+        for (const theEdit of edits) {
+            // interestingly this seems to block when it can't send
+            // TODO: Catch exceptions, for example when daemon disconnects/crashes.
+            connection.sendRequest(editType, theEdit)
+            revision.editor += 1
 
-                debug(`sent edit for dR ${revision.daemon} (having edR ${revision.editor})`)
-            }
+            debug(`sent edit for dR ${revision.daemon} (having edR ${revision.editor})`)
+        }
 
-            // TODO: Make this more efficient by replacing only the changed lines.
-            // The challenge with that is that we need to compute how many lines are
-            // left after the edit.
-            updateContents(document)
+        // TODO: Make this more efficient by replacing only the changed lines.
+        // The challenge with that is that we need to compute how many lines are
+        // left after the edit.
+        updateContents(document)
 
-            // Attempt auto-save to avoid the situation where one user closes a modified
-            // document without saving, which will cause VS Code to undo the dirty changes.
-            document.save()
-        })
-        .catch((e: Error) => {
-            vscode.window.showErrorMessage(`Error while sending edit to Ethersync daemon: ${e}`)
-        })
+        // Attempt auto-save to avoid the situation where one user closes a modified
+        // document without saving, which will cause VS Code to undo the dirty changes.
+        document.save()
+    } catch (e) {
+        vscode.window.showErrorMessage(`Error while sending edit to Ethersync daemon: ${e}`)
+    }
 }
 
 function processSelection(event: vscode.TextEditorSelectionChangeEvent) {
-- 
2.43.0


From 7b087fcc275f10c3cc59681b0cbd231d875a9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:05:05 +0000
Subject: [PATCH 38/44] fix: show cursors in Neovim buffers that are not the
 current one

---
 vim-plugin/lua/cursor.lua | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vim-plugin/lua/cursor.lua b/vim-plugin/lua/cursor.lua
index 309d462..74a0c84 100644
--- a/vim-plugin/lua/cursor.lua
+++ b/vim-plugin/lua/cursor.lua
@@ -75,7 +75,8 @@ function M.set_cursor(uri, user_id, name, ranges)
 
         -- If the range is empty, expand the highlighted range by 1 to make it visible.
         if start_row == end_row and start_col == end_col then
-            local bytes_in_end_row = vim.fn.strlen(vim.fn.getline(end_row + 1))
+            local end_line = vim.api.nvim_buf_get_lines(bufnr, end_row, end_row + 1, false)[1] or ""
+            local bytes_in_end_row = vim.fn.strlen(end_line)
             if bytes_in_end_row > end_col then
                 -- Note: Instead of 1, we should actually add the byte length of the character at this position.
                 end_col = end_col + 1
-- 
2.43.0


From 4b548b4068e6c32a43921167802854bb3e7fa24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:05:05 +0000
Subject: [PATCH 39/44] fix: keep showing a cursor in Neovim after its buffer
 was wiped out

---
 vim-plugin/lua/cursor.lua | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vim-plugin/lua/cursor.lua b/vim-plugin/lua/cursor.lua
index 74a0c84..987236b 100644
--- a/vim-plugin/lua/cursor.lua
+++ b/vim-plugin/lua/cursor.lua
@@ -36,6 +36,13 @@ local function is_forward(start_row, end_row, start_col, end_col)
     return (start_row < end_row) or (start_row == end_row and start_col <= end_col)
 end
 
+local function del_extmark(bufnr, id)
+    -- The buffer might have been wiped out in the meantime.
+    if vim.api.nvim_buf_is_valid(bufnr) then
+        vim.api.nvim_buf_del_extmark(bufnr, cursor_namespace, id)
+    end
+end
+
 -- A new set of ranges means, we delete all existing ones for that user.
 function M.set_cursor(uri, user_id, name, ranges)
     -- Find correct buffer to apply edits to.
@@ -46,7 +53,7 @@ function M.set_cursor(uri, user_id, name, ranges)
             if user_cursor.extmark then
                 local old_id = user_cursor.extmark.id
                 local old_bufnr = user_cursor.extmark.bufnr
-                vim.api.nvim_buf_del_extmark(old_bufnr, cursor_namespace, old_id)
+                del_extmark(old_bufnr, old_id)
             end
         end
     end
@@ -108,7 +115,7 @@ function M.set_cursor(uri, user_id, name, ranges)
                 virt_text = virt_text,
             })
             vim.defer_fn(function()
-                vim.api.nvim_buf_del_extmark(bufnr, cursor_namespace, extmark_id)
+                del_extmark(bufnr, extmark_id)
                 for _, user_cursor in ipairs(user_cursors[user_id].cursors) do
                     if user_cursor.extmark ~= nil and user_cursor.extmark.id == extmark_id then
                         -- If we find our own extmark_id, we can remove all ranges,
-- 
2.43.0


From 30fe44b80e87c2965f0c82406241d76ff4a01399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:05:05 +0000
Subject: [PATCH 40/44] fix: show cursors in files with a percent sign in their
 name in Neovim

---
 vim-plugin/lua/cursor.lua | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vim-plugin/lua/cursor.lua b/vim-plugin/lua/cursor.lua
index 987236b..d543381 100644
--- a/vim-plugin/lua/cursor.lua
+++ b/vim-plugin/lua/cursor.lua
@@ -46,7 +46,8 @@ end
 -- A new set of ranges means, we delete all existing ones for that user.
 function M.set_cursor(uri, user_id, name, ranges)
     -- Find correct buffer to apply edits to.
-    local bufnr = vim.uri_to_bufnr(uri)
+    -- The daemon's URIs are not percent-encoded.
+    local bufnr = vim.fn.bufadd((uri:gsub("^file://", "")))
 
     if user_cursors[user_id] then
         for _, user_cursor in ipairs(user_cursors[user_id].cursors) do
-- 
2.43.0


From 5a21617bb044239d828806324f3b1f9ee5a38792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:05:20 +0000
Subject: [PATCH 41/44] fix: report backward selections after multi-byte
 characters correctly in Neovim

---
 vim-plugin/lua/cursor.lua | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vim-plugin/lua/cursor.lua b/vim-plugin/lua/cursor.lua
index d543381..fe9e9e5 100644
--- a/vim-plugin/lua/cursor.lua
+++ b/vim-plugin/lua/cursor.lua
@@ -156,7 +156,9 @@ function M.track_cursor(bufnr, callback)
                     -- TODO: This is not in "screen columns", but in "bytes"!
                     if not is_forward(start_row, end_row, start_col, end_col) then
                         -- If the selection is backwards, we need to extend it on both ends for some reason.
-                        end_col = end_col - 1
+                        -- Step back by a whole character, not by a byte.
+                        local line_to_end = string.sub(vim.fn.getline(end_row), 1, end_col)
+                        end_col = vim.fn.byteidxcomp(line_to_end, vim.fn.strchars(line_to_end) - 1)
                         start_col = start_col + 1
                     end
                 elseif vim.fn.mode() == "V" then
-- 
2.43.0


From 8b0b5aaaacc1cefb0a430ec7a2efd9f09c129f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:19:36 +0000
Subject: [PATCH 42/44] fix: keep other users' cursors in Neovim after a buffer
 was unloaded and loaded again

---
 vim-plugin/lua/cursor.lua | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vim-plugin/lua/cursor.lua b/vim-plugin/lua/cursor.lua
index fe9e9e5..5a59a53 100644
--- a/vim-plugin/lua/cursor.lua
+++ b/vim-plugin/lua/cursor.lua
@@ -18,6 +18,9 @@ local user_cursors = {}
 local cursor_namespace = vim.api.nvim_create_namespace("Ethersync")
 local offset_encoding = "utf-32"
 local cursor_timeout_ms = 300 * 1000
+-- We choose the IDs of the extmarks ourselves: When a buffer is unloaded and loaded again, Neovim would
+-- reuse the old ones, and deleting an extmark that is gone would delete another user's cursor.
+local last_extmark_id = 0
 
 local function show_cursor_information(name, cursor)
     return name .. " @ " .. vim.uri_to_fname(cursor.uri) .. ":" .. cursor.range.start.line + 1
@@ -108,7 +111,9 @@ function M.set_cursor(uri, user_id, name, ranges)
 
         -- Try setting the extmark, ignore errors (which can happen at end of lines/buffers).
         pcall(function()
+            last_extmark_id = last_extmark_id + 1
             local extmark_id = vim.api.nvim_buf_set_extmark(bufnr, cursor_namespace, e.start_row, e.start_col, {
+                id = last_extmark_id,
                 hl_mode = "combine",
                 hl_group = "TermCursor",
                 end_col = e.end_col,
-- 
2.43.0


From bafd9cb9dc0a7e21febdc766f34363e400f3c47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:24:32 +0000
Subject: [PATCH 43/44] fix: show the cursors of several users in the same file
 in VS Code

---
 vscode-plugin/src/cursor.ts | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/vscode-plugin/src/cursor.ts b/vscode-plugin/src/cursor.ts
index 11c8623..170bf82 100644
--- a/vscode-plugin/src/cursor.ts
+++ b/vscode-plugin/src/cursor.ts
@@ -5,17 +5,22 @@
 
 import * as vscode from "vscode"
 
-const selectionDecorationType = vscode.window.createTextEditorDecorationType({
-    backgroundColor: "#1a4978",
-    borderRadius: "0.1rem",
-    rangeBehavior: vscode.DecorationRangeBehavior.ClosedClosed,
-    before: {
-        color: "#548abf",
-        contentText: "ᛙ",
-        margin: "0px 0px 0px -0.5ch",
-        textDecoration: "font-weight: bold; position: absolute; top: 0; font-size: 200%; z-index: 0;",
-    },
-})
+function createSelectionDecorationType() {
+    return vscode.window.createTextEditorDecorationType({
+        backgroundColor: "#1a4978",
+        borderRadius: "0.1rem",
+        rangeBehavior: vscode.DecorationRangeBehavior.ClosedClosed,
+        before: {
+            color: "#548abf",
+            contentText: "ᛙ",
+            margin: "0px 0px 0px -0.5ch",
+            textDecoration: "font-weight: bold; position: absolute; top: 0; font-size: 200%; z-index: 0;",
+        },
+    })
+}
+
+// Setting the decorations of a type replaces all previous ones of that type, so every user needs their own.
+let selectionDecorationTypes: Map<number, vscode.TextEditorDecorationType> = new Map()
 
 interface RemoteCursor {
     name: string
@@ -26,6 +31,12 @@ interface RemoteCursor {
 let cursors: Map<number, RemoteCursor[]> = new Map()
 
 export function setCursor(userid: number, name: string, uri: vscode.Uri, selections: vscode.Selection[]) {
+    let selectionDecorationType = selectionDecorationTypes.get(userid)
+    if (!selectionDecorationType) {
+        selectionDecorationType = createSelectionDecorationType()
+        selectionDecorationTypes.set(userid, selectionDecorationType)
+    }
+
     let usersCursors = cursors.get(userid)
     if (usersCursors) {
         for (let cursor of usersCursors) {
-- 
2.43.0


From a5c99631d06f40f86122a30c8a4c98aaf88368c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:24:32 +0000
Subject: [PATCH 44/44] fix: show cursors in all editors of a file in VS Code

---
 vscode-plugin/src/cursor.ts | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vscode-plugin/src/cursor.ts b/vscode-plugin/src/cursor.ts
index 170bf82..6a39c7e 100644
--- a/vscode-plugin/src/cursor.ts
+++ b/vscode-plugin/src/cursor.ts
@@ -30,6 +30,11 @@ interface RemoteCursor {
 
 let cursors: Map<number, RemoteCursor[]> = new Map()
 
+// A document can be shown in several editors at the same time.
+function visibleEditors(uri: vscode.Uri): vscode.TextEditor[] {
+    return vscode.window.visibleTextEditors.filter((editor) => editor.document.uri.toString() === uri.toString())
+}
+
 export function setCursor(userid: number, name: string, uri: vscode.Uri, selections: vscode.Selection[]) {
     let selectionDecorationType = selectionDecorationTypes.get(userid)
     if (!selectionDecorationType) {
@@ -40,10 +45,7 @@ export function setCursor(userid: number, name: string, uri: vscode.Uri, selecti
     let usersCursors = cursors.get(userid)
     if (usersCursors) {
         for (let cursor of usersCursors) {
-            const editor = vscode.window.visibleTextEditors.find(
-                (editor) => editor.document.uri.toString() === cursor.uri.toString(),
-            )
-            if (editor) {
+            for (const editor of visibleEditors(cursor.uri)) {
                 editor.setDecorations(selectionDecorationType, [])
             }
         }
@@ -54,8 +56,7 @@ export function setCursor(userid: number, name: string, uri: vscode.Uri, selecti
     })
     cursors.set(userid, newCursors)
 
-    const editor = vscode.window.visibleTextEditors.find((editor) => editor.document.uri.toString() === uri.toString())
-    if (editor) {
+    for (const editor of visibleEditors(uri)) {
         editor.setDecorations(selectionDecorationType, selections)
     }
 }
-- 
2.43.0

