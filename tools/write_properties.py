#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
D = "daemon/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe or [], hook_needed=hook)))

prop("C01", "Connected peers converge to the same project content",
  "Once all changes have been exchanged and nothing is in flight, every connected daemon holds the same set of shared files with byte-identical content. "
  "On every peer the file on disk (or, while it is open, the editor's buffer) shows exactly that content. "
  "This holds whatever mix of editor edits, external file changes, creations and deletions happened on any peer, however they were interleaved, and across connection losses and reconnects.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of editor edits, file changes, sync messages, connection losses and reconnects among 2 to 4 peers",
  "No stable test connects two daemons at all; the only two-daemon test is a single randomised run that is excluded because it is flaky and slow, and it only edits one file.",
  [D+"daemon.rs", D+"document.rs", D+"peer.rs", D+"types.rs"],
  [("sync message exchange on every document change", D+"peer.rs SyncActor::run / daemon.rs ReceiveSyncMessage, GenerateSyncMessage"),
   ("patches turned into file writes and editor edits", D+"types.rs TryFrom<Patch> for PatchEffect; daemon.rs maybe_write_file"),
   ("hard-coded common initial change", D+"document.rs Document::default")],
  [("files map", "shared path -> text mapping of the CRDT document", D+"document.rs"),
   ("peer sync state", "what a peer is believed to have", D+"peer.rs SyncActor::peer_state")],
  ["directory contents of each daemon", "editor buffers", "a passive replica that joins the sync protocol"])

prop("C02", "An editor's buffer and the shared content converge under concurrent edits",
  "For an editor that follows the documented revision protocol, every edit the daemon sends with the editor's current revision applies cleanly to the buffer the editor has at that moment. "
  "Once all messages in both directions have been handled, the buffer is identical to the shared content. "
  "This holds for any number of in-flight edits on either side and for several local editors on the same file.",
  ["schedules", "histories"],
  "every interleaving of editor edits, edits by other editors or peers, and delayed deliveries in both directions",
  "Unit tests walk a handful of fixed operation sequences of one operation each with ASCII text; the space of interleavings and overlapping ranges is unbounded.",
  [D+"ot.rs", D+"editor_connection.rs", D+"types.rs", D+"daemon.rs"],
  [("transformation through the queue of unconfirmed operations", D+"ot.rs transform_through_operations / OTServer::apply_editor_operation"),
   ("revision counters", D+"ot.rs editor_revision, daemon_revision")],
  [("editor_queue", "operations sent to the editor and not confirmed yet", D+"ot.rs"),
   ("last_confirmed_editor_content", "content the editor is assumed to have", D+"ot.rs")],
  ["the newline-delimited JSON-RPC messages of the editor socket"])

prop("C03", "Concurrent edits are merged without loss, duplication or reordering",
  "Every character an editor inserts with an accepted edit appears exactly once in the merged content of every peer and editor until some user deletes it, and a deletion removes only characters its author could see. "
  "Any two characters keep, in every later content, the relative order in which a user saw them.",
  ["schedules", "histories"],
  "all concurrent histories of inserts, deletes and replacements by any number of editors on any number of peers",
  "Convergence to the same wrong text would satisfy any equality test; existing tests compare a few fixed results only.",
  [D+"ot.rs", D+"document.rs", D+"types.rs", D+"daemon.rs"],
  [("delta conversion editor -> OT -> CRDT", D+"types.rs from_ed_delta/from_delta; document.rs apply_delta_to_doc"),
   ("patch conversion CRDT -> OT -> editor", D+"types.rs PatchEffect; editor_connection.rs message_from_daemon"),
   ("the author's own edit is not echoed", D+"daemon.rs broadcast_to_editors(Some(editor_id))")],
  None, ["editor buffers at every step, labelled with unique characters"])

prop("C04", "Concurrent file creations and deletions resolve the same everywhere",
  "When peers independently create, delete or re-create files of the same name, all peers end with the same outcome for that name: either absent everywhere or present everywhere with the complete content of exactly one of the copies, plus later edits to that copy. "
  "Files that were not involved keep their content, and an editor that has the file open is brought to the surviving content, or its edits are refused if the file is gone.",
  ["schedules", "histories"],
  "all concurrent histories of create/delete/re-create/edit on the same path by 2 to 3 peers, with and without editors",
  "Needs at least two replicas with a partition between them; no test has that.",
  [D+"document.rs", D+"types.rs", D+"daemon.rs"],
  [("map conflict resolution, PutMap/DeleteMap/Conflict patches", D+"types.rs TryFrom<Patch>"),
   ("removal of files on disk", D+"daemon.rs PatchEffect::FileRemoval")],
  None, ["directory contents of each daemon", "editor messages"])

prop("C05", "The daemon never writes a file that is open in an editor, and writes it on close",
  "While at least one editor has a file open, the daemon neither writes that file's content on disk nor takes external content changes of it into the shared content; remote changes go to the editor instead. "
  "As soon as the last editor gives the file up, by closing it or by losing its connection, the file on disk holds the current shared content, and from then on it follows remote changes.",
  ["schedules", "histories"],
  "every interleaving of open, close, disconnect, editor edits, remote edits and external changes for any number of editors and files",
  "Unit tests exercise one editor connection object without a document or a disk; the rule is about interleavings of several actors.",
  [D+"daemon.rs", D+"editor_connection.rs"],
  [("owns()", D+"daemon.rs DocumentActor::owns / editor_connection.rs EditorConnection::owns"),
   ("maybe_write_file", D+"daemon.rs"), ("watcher events ignored for open files", D+"daemon.rs handle_watcher_event")],
  [("ot_servers", "one entry per file this editor has open", D+"editor_connection.rs")],
  ["file content and modification on disk after every step", "editor messages"])

prop("C06", "After a restart the files are the truth and both sides' offline work merges",
  "After a daemon is stopped in an orderly way (or ended after its state was saved) and restarted, its shared content equals the files now on disk: files changed, added or deleted meanwhile are changed, added or deleted for everybody. "
  "Changes that other peers made meanwhile are merged in rather than overwritten, so text added by either side during the outage survives exactly once.",
  ["histories", "crash_points"],
  "any sequence of runs, stops at any moment, offline file changes and remote changes",
  "The only test of start-up reads a fresh directory; no test restarts anything.",
  [D+"daemon.rs", D+"document.rs"],
  [("load persisted document, reconcile with directory", D+"daemon.rs DocumentActor::new / read_current_content_from_dir"),
   ("diff-based update", D+"document.rs update_text"), ("persister", D+"daemon.rs spawn_persister")],
  [(".ethersync/doc", "persisted CRDT history", D+"daemon.rs DocMessage::Persist")],
  ["directory contents", "a passive replica"])

prop("C07", "A crash at any point leaves a project that starts again with its history",
  "If the daemon is killed at any instant, including in the middle of writing its saved state, the next start succeeds without user intervention. "
  "After it, the shared content is what the files on disk hold, and whatever had been saved is still shared history: after reconnecting, text in these files appears neither twice nor not at all, and what peers changed meanwhile is merged in. "
  "Changes are saved within a bounded time after they happen. What was only in an editor's buffer is not covered.",
  ["crash_points", "fault_sequences"],
  "every point in the sequence of file-system operations that save state, including every partial write",
  "Tests never kill the process; the interesting points are between two system calls.",
  [D+"daemon.rs", D+"document.rs", D+"sandbox.rs"],
  [("full save, then incremental appends", D+"daemon.rs DocMessage::Persist"),
   ("loading", D+"document.rs Document::load"), ("one save per second after a change", D+"daemon.rs spawn_persister")],
  [(".ethersync/doc", "persisted CRDT history", D+"daemon.rs")],
  ["system calls of the process", "restart success", "content after reconnecting"])

prop("C08", "No message or file name makes the daemon touch files outside the project",
  "Whatever URIs editors send and whatever file names or contents peers share, the daemon creates, changes, deletes and reads files only inside the project directory (apart from its own socket). "
  "This includes parent-directory components, absolute names, look-alike sibling directories and symbolic links inside the project that point outside, dangling or not.",
  ["inputs", "configurations"],
  "all path strings and all arrangements of directories and symbolic links that are in place when a message is handled",
  "Unit tests try a dozen paths against one directory layout and never a hostile peer.",
  [D+"sandbox.rs", D+"path.rs", D+"editor_connection.rs", D+"daemon.rs"],
  [("containment check on a canonicalised path before every I/O call", D+"sandbox.rs check_inside_base_dir_and_canonicalize"),
   ("URIs must lie in the project", D+"path.rs RelativePath::try_from_absolute")],
  None, ["paths of file-system calls of the process", "snapshot of everything around the project directory"])

prop("C09", "Ignored, private and binary files are neither shared nor touched",
  "The content of ignored files (everything in .git and .ethersync, whatever git would ignore in a git repository, backup files ending in ~) and of files that are not valid UTF-8 is never sent to any peer, whether at start-up, after a change on disk or when an editor opens the file. "
  "No peer can create, change or delete anything inside .git or .ethersync of somebody else's project. "
  "Files that are neither ignored nor binary are shared.",
  ["inputs", "histories", "configurations"],
  "all sets of ignore rules, file names, contents and orders of events",
  "Tests check one ignore rule with one file and never look at what leaves the machine.",
  [D+"daemon.rs", D+"sandbox.rs", D+"watcher.rs", D+"editor_connection.rs"],
  [("walk with ignore rules", D+"daemon.rs build_walk / sandbox.rs ignored"),
   ("events of ignored files dropped", D+"watcher.rs maybe_created/maybe_modified"),
   ("opening ignored files refused", D+"editor_connection.rs Open"), ("UTF-8 check", D+"daemon.rs")],
  None, ["everything a passive peer receives", "bytes of the saved history", "directory contents"])

prop("C10", "File changes made by other programs reach every peer",
  "While the daemon runs and a file is not open in an editor, every creation, content change, replacement by rename, rename, move into or out of the project and deletion made by another program is reflected in the shared content and on all connected peers' disks. "
  "After a burst of such changes the shared content equals the directory.",
  ["histories", "schedules"],
  "all sequences and speeds of file operations in directories the daemon is already watching",
  "Watcher tests look at a single event each; nothing checks the effect on content or on a peer.",
  [D+"watcher.rs", D+"daemon.rs", D+"document.rs"],
  [("translation of file-system events", D+"watcher.rs Watcher::next"),
   ("events applied to the document", D+"daemon.rs handle_watcher_event")],
  None, ["peer's directory contents", "a passive replica"])

prop("C11", "Every editor request gets exactly one matching answer, in order",
  "For every JSON-RPC request an editor sends, the daemon sends exactly one response carrying the same id, in the order of the requests: success if it was carried out, an error otherwise. "
  "A refused request changes nothing: not the shared content, not the disk, not what other editors see. "
  "Notifications get no response, and lines of text that cannot be understood get an error response with a null id.",
  ["inputs", "histories"],
  "all sequences of well-formed, malformed and refused messages from any number of editors",
  "Unit tests parse and print single messages; nothing tests the conversation.",
  [D+"daemon.rs", D+"types.rs", D+"editor_connection.rs", D+"editor.rs"],
  [("request/notification split", D+"types.rs JSONRPCFromEditor"), ("response generation", D+"daemon.rs handle_message_from_editor")],
  None, ["bytes on the editor socket", "shared content and disk before/after"])

prop("C12", "No editor can crash the daemon or disturb other editors",
  "Whatever an editor sends or does (arbitrary bytes, wrong revisions or positions, edits of files it has not opened, not reading what it is sent, closing or half-closing its connection at any moment), the daemon keeps running and keeps serving the other editors and peers with correct content. "
  "Edits of other users are not affected by a misbehaving editor.",
  ["inputs", "fault_sequences", "schedules"],
  "all byte streams and all disconnect points",
  "Tests send only well-formed messages and never disconnect in the middle of anything.",
  [D+"daemon.rs", D+"editor.rs", D+"editor_connection.rs", D+"ot.rs", D+"types.rs"],
  [("line framing and parse errors", D+"editor.rs spawn_editor_connection; daemon.rs handle_message_from_editor"),
   ("removal of broken connections", D+"daemon.rs send_to_editor_client, CloseEditorConnection")],
  None, ["liveness of the process", "a well-behaved editor and a peer next to the hostile one"])

prop("C13", "No peer can crash the daemon or corrupt unrelated content",
  "Whatever an authenticated peer sends (malformed frames, undecodable messages, documents with unexpected structure, odd file names, invalid cursor states), the daemon keeps running and keeps serving its editors and other peers. "
  "Files the peer did not validly change keep their content.",
  ["inputs", "fault_sequences"],
  "all byte streams on the sync stream and all CRDT documents a peer can construct",
  "No test talks to the peer protocol; a unit test covers two shapes of patch only.",
  [D+"peer.rs", D+"types.rs", D+"document.rs", D+"daemon.rs"],
  [("frame and message decoding", D+"peer.rs protocol_handler"), ("patch interpretation", D+"types.rs TryFrom<Patch>"),
   ("writing changed files", D+"daemon.rs maybe_write_file")],
  None, ["liveness of the process", "directory contents", "a well-behaved peer and editor next to the hostile one"])

prop("C14", "Sync traffic survives any fragmentation, size, direction and peer churn",
  "However the byte stream between two peers is cut into pieces and delayed, however large the exchanged changes are and even when both sides send at once, sync messages arrive intact and in order and synchronisation completes. "
  "Peers that connect, disconnect, or connect and stay silent do not prevent other peers from connecting and syncing.",
  ["schedules", "inputs", "fault_sequences"],
  "all ways to fragment and delay the stream, message sizes up to several megabytes, any order of connects and disconnects",
  "No test transfers a single sync message over the network.",
  [D+"peer.rs"],
  [("length-prefixed framing", D+"peer.rs protocol_handler"), ("sync loop", D+"peer.rs SyncActor::run"), ("accept loop", D+"peer.rs P2PActor::run")],
  None, ["a peer implementation that fragments, delays and floods", "directory contents"])

prop("C15", "Only holders of the same secret can exchange data with a daemon",
  "A peer whose secret differs in any way from the daemon's cannot learn or change any project content: its connection attempts fail, in both directions. "
  "Peers with an equal secret connect and sync, and a failed attempt does not stop legitimate peers from connecting.",
  ["inputs", "configurations"],
  "all pairs of secrets, including empty, long, non-ASCII, prefix-sharing and case-differing ones, and absent ones",
  "No test opens a connection between peers.",
  [D+"peer.rs", D+"main.rs"],
  [("pre-shared key derived from the secret", D+"peer.rs P2PActor::run, passphrase_to_bytes"), ("secret from the config file", D+"peer.rs from_config_file")],
  None, ["outcome of connection attempts", "directory contents", "bytes on the wire"])

prop("C16", "Socket and key are accessible to their owner only",
  "The daemon serves its editor socket only from a directory to which group and others have no access, and refuses to serve otherwise; a socket name that is not a plain file name is refused. "
  "The key file is created readable by the owner only, an existing key is kept, and a key file with any wider permissions is refused.",
  ["configurations", "inputs"],
  "all permission modes of directory and key file and all socket names",
  "No test covers permissions beyond a fixed example.",
  [D+"editor.rs", D+"peer.rs", D+"main.rs"],
  [("parent directory mode check", D+"editor.rs is_user_readable_only"), ("socket name check", D+"editor.rs is_valid_socket_name"),
   ("key file mode", D+"peer.rs get_keypair"), ("fallback directory", D+"editor.rs get_fallback_socket_dir")],
  None, ["exit status", "existence of the socket", "modes of created files"])

prop("C17", "Cursors reach all other editors, never their own, and vanish with the user",
  "Every cursor update is delivered to all other editors on all connected peers with the same file, ranges and user id, and after quiescence each editor's latest view of a user's cursor is that user's latest position. "
  "It is never sent back to its own editor, two editors never share a user id, and when an editor disconnects in any way its cursor is removed everywhere (as long as the project has a file at all).",
  ["histories", "schedules"],
  "all interleavings of cursor moves, edits, connects and disconnects of editors and peers",
  "No test has two editors; cursor code is only tested for patch parsing.",
  [D+"daemon.rs", D+"document.rs", D+"editor_connection.rs", D+"types.rs"],
  [("cursor state stored in the document", D+"document.rs store_cursor_position"), ("broadcast excluding the author", D+"daemon.rs broadcast_to_editors"),
   ("removal on disconnect", D+"daemon.rs maybe_delete_cursor_position"), ("user id", D+"daemon.rs cursor_id")],
  None, ["cursor messages on every editor socket"])

prop("C18", "Positions count Unicode characters in newline-ended lines, both ways",
  "For every text and every range, an edit from an editor changes exactly the characters that the range denotes when lines end at a newline character and columns count Unicode scalar values, and the edits the daemon sends denote the change the same way, all ranges of one message referring to the content before it. "
  "This holds for any text, including empty text, missing final newlines, carriage returns and other control or separator characters, combining and astral characters.",
  ["inputs"],
  "all texts and all ranges",
  "Unit tests check a dozen fixed positions; some characters are treated as line ends by the text library and not by editors.",
  [D+"types.rs", D+"document.rs", D+"ot.rs"],
  [("offset/position conversion", D+"types.rs Position::from_offset, to_offset, Range::as_relative"),
   ("delta conversion", D+"types.rs TextDelta::from_ed_delta, EditorTextDelta::from_delta")],
  None, ["editor messages against an independent model of the text"])

prop("C19", "The stdio client forwards every message unchanged, in order, both ways",
  "Every single-line message an editor writes with a Content-Length header to the client's stdin reaches the daemon socket exactly once, unchanged and in order, and every line from the socket reaches stdout with a correct Content-Length header, however either stream is cut into chunks, whatever characters and sizes the messages have. "
  "When either side closes, all complete messages received from that side have been forwarded, and the client exits.",
  ["inputs", "schedules"],
  "all message sequences, chunkings, sizes and close points",
  "The codec has no tests at all.",
  [D+"jsonrpc_forwarder.rs", D+"main.rs"],
  [("header codec", D+"jsonrpc_forwarder.rs ContentLengthCodec"), ("forwarding loops", D+"jsonrpc_forwarder.rs connection")],
  None, ["stdin/stdout of the client process and the socket"])

prop("C20", "The Neovim plugin mirrors its buffer exactly, in both directions",
  "Every change to a shared buffer in Neovim, however it was made, is reported as edits that, applied to the previously known content, give the buffer's new content (its lines joined by newlines, with a final newline exactly if 'endofline' is set; for text in Unix format and UTF-8). "
  "Every edit from the daemon with the current revision changes the buffer to exactly the intended content without being reported back, edits with another revision are ignored, and the revision numbers sent follow the documented rules.",
  ["inputs", "histories", "schedules"],
  "all sequences of normal, insert, visual and ex-mode changes, undo and redo, interleaved with remote edits",
  "Tests try about twenty fixed key sequences on ASCII text and a few incoming edits.",
  ["vim-plugin/plugin/ethersync.lua", "vim-plugin/lua/changetracker.lua", "vim-plugin/lua/utils.lua"],
  [("change callbacks", "vim-plugin/lua/changetracker.lua track_changes"), ("applying edits", "vim-plugin/lua/changetracker.lua apply_delta, lua/utils.lua"),
   ("revisions", "vim-plugin/plugin/ethersync.lua process_operation_for_editor")],
  None, ["messages on the daemon side of the client", "nvim_buf_get_lines"])

prop("C21", "The VS Code plugin mirrors its documents exactly, in both directions",
  "Every change of a shared document (a file of the project, with newlines as line ends) is reported as edits in Unicode-character positions that, applied in order to the previous content, give the new content, with the revision of the daemon edits applied so far. "
  "Every daemon edit with the current revision is applied at the right UTF-16 position and is not reported back; edits with another revision are ignored.",
  ["inputs", "histories", "schedules"],
  "all texts with astral characters, multi-change events and interleavings of local and remote edits",
  "The plugin has no tests.",
  ["vscode-plugin/src/extension.ts"],
  [("UTF-16 conversion", "vscode-plugin/src/extension.ts"), ("revision handling", "vscode-plugin/src/extension.ts processEditFromDaemon, processUserEdit")],
  None, ["messages to the daemon", "edits applied through a simulated editor API"])

prop("C22", "Command line beats config file, and roles start from the right content",
  "Each connection setting is taken from the command line if given there, else from the project's config file, else from the default, independently of the other settings. "
  "A hosting daemon without saved state shares what is in its directory; a joining daemon without saved state takes the host's content for every file the host has and shares nothing of its own; starting with the init option begins a new history from the directory.",
  ["configurations"],
  "all combinations of options, config entries, saved state and directory contents",
  "No test starts the binary with options.",
  [D+"main.rs", D+"peer.rs", D+"daemon.rs"],
  [("precedence", D+"peer.rs takes_precedence_over, from_config_file"), ("host/joiner start", D+"daemon.rs DocumentActor::new, peer.rs is_host")],
  None, ["listening port", "connections made", "directory contents of both sides"])

prop("C23", "Plugins report the user's cursor and draw the others' cursors where they are",
  "When the user of a shared file moves the cursor or selects text, the last report of the Neovim or VS Code plugin gives the position, or both ends of each selection, in Unicode characters of the current text. "
  "When the daemon announces a user's cursors in a file that is shown, with positions inside its text, exactly those places are marked for that user, in every window of the file, until that user's next announcement, the text there changes or the file is closed; other users' marks stay as they are, and marks of a former position vanish.",
  ["inputs", "histories", "schedules"],
  "all texts, movements, selection modes and directions, and all interleavings with edits, other users' cursors and files being opened, shown, hidden, closed and opened again",
  "The plugins' cursor code has no tests.",
  ["vim-plugin/lua/cursor.lua", "vscode-plugin/src/cursor.ts", "vscode-plugin/src/extension.ts"],
  [("reports and marks in Neovim", "vim-plugin/lua/cursor.lua track_cursor, set_cursor"), ("decorations", "vscode-plugin/src/cursor.ts setCursor"),
   ("conversion of positions", "vscode-plugin/src/extension.ts processSelection, processCursorFromDaemon")],
  None, ["messages to the daemon", "extmarks of all namespaces", "decorations set through a simulated editor API"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
