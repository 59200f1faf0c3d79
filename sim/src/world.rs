//! A simulated world around real document actors: the network, the editors, the file watcher and
//! the user are played by the harness, one step at a time, in an order chosen by a seeded scheduler.
use crate::text::{self, Rep, Text};
use automerge::{
    sync::{Message, State, SyncDoc},
    AutoCommit, ObjType, ReadDoc, Value as AmValue, ROOT,
};
use ethersync::daemon::{DocMessage, DocumentActorHandle};
use ethersync::editor::EditorProtocolCodec;
use ethersync::types::EditorProtocolObject;
use ethersync::watcher::WatcherEvent;
use futures::FutureExt;
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use tokio::sync::{broadcast, mpsc, oneshot};
use tokio_util::bytes::BytesMut;
use tokio_util::codec::Encoder;

thread_local! {
    pub static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub kind: &'static str,
    pub detail: String,
}
pub type R<T> = Result<T, Violation>;

pub fn viol<T>(kind: &'static str, detail: impl Into<String>) -> R<T> {
    Err(Violation { kind, detail: detail.into() })
}

/// Which monitors of the engine are on, and how often which event happens.
#[derive(Clone, Debug)]
pub struct Profile {
    pub name: &'static str,
    pub peers: (usize, usize),
    pub steps: (usize, usize),
    pub files: usize,
    pub w: BTreeMap<&'static str, u32>,
    pub labels: bool,
    pub immediate_editors: bool,
    pub all_hosts: bool,
    pub nasty: bool,
    pub sync_external: bool,
    pub second_phase: bool,
    pub max_editors: usize,
    pub max_len: usize,
    pub big: bool,
}

pub struct Buf {
    pub text: Text,
    pub erev: usize,
    pub drev: usize,
    /// The file was deleted by somebody while it was open here.
    pub gone: bool,
    pub opened_step: usize,
}

struct Out {
    line: String,
    kind: &'static str,
    path: String,
    id: Option<u64>,
    ins: Vec<char>,
    del: Vec<char>,
    cursor: Option<u64>,
    before: Option<BTreeMap<String, String>>,
}

pub struct Editor {
    pub id: usize,
    messages: mpsc::UnboundedReceiver<EditorProtocolObject>,
    pub inbox: VecDeque<Value>,
    outbox: VecDeque<Out>,
    pub bufs: BTreeMap<String, Buf>,
    /// Files that are open from the daemon's point of view.
    dopen: BTreeSet<String>,
    pending: VecDeque<(u64, &'static str, String, bool)>,
    next_id: u64,
    pub uid: usize,
    /// userid -> token of the last cursor seen (None: removed)
    pub views: BTreeMap<String, Option<u64>>,
    connected_step: usize,
    pub last_cursor: Option<(u64, usize, String)>,
}

pub struct Peer {
    pub dir: PathBuf,
    pub base: PathBuf,
    handle: Option<DocumentActorHandle>,
    pub editors: Vec<Editor>,
    watch: VecDeque<WatcherEvent>,
    snapshot: BTreeMap<String, Vec<u8>>,
    probe_doc: AutoCommit,
    probe_ours: State,
    probe_theirs: State,
    pub content: BTreeMap<String, String>,
    pub states: BTreeMap<String, String>,
    is_host: bool,
    removed_by_remote: BTreeSet<String>,
    pub starts: usize,
}

struct Side {
    state: State,
    want_gen: bool,
    rx: Option<broadcast::Receiver<()>>,
    /// Messages travelling to this side.
    queue: VecDeque<Vec<u8>>,
}

pub struct Link {
    a: usize,
    b: usize,
    up: bool,
    sa: Side,
    sb: Side,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub steps: u64,
    pub edits: u64,
    pub edits_applied_at_editor: u64,
    pub edits_ignored_by_revision: u64,
    pub multi_op_deltas: u64,
    pub sync_messages: u64,
    pub link_cuts: u64,
    pub restarts: u64,
    pub crash_restarts: u64,
    pub opens: u64,
    pub closes: u64,
    pub disconnects: u64,
    pub external: u64,
    pub watch_events: u64,
    pub cursor_updates: u64,
    pub cursor_deliveries: u64,
    pub conflicts: u64,
    pub deletions: u64,
    pub refused: u64,
    pub responses: u64,
    pub probes: u64,
    pub ownership_checks: u64,
    pub disk_checks: u64,
    pub quiescent_checks: u64,
    pub replicas_compared: u64,
    pub chars_inserted: u64,
    pub chars_deleted: u64,
    pub order_pairs: u64,
    pub lines_tracked: u64,
}

impl Stats {
    pub fn list(&self) -> Vec<(&'static str, u64)> {
        vec![("steps", self.steps), ("edits", self.edits), ("edits_applied_at_editor", self.edits_applied_at_editor), ("edits_ignored_by_revision", self.edits_ignored_by_revision), ("multi_op_deltas", self.multi_op_deltas), ("sync_messages", self.sync_messages), ("link_cuts", self.link_cuts), ("restarts", self.restarts), ("crash_restarts", self.crash_restarts), ("opens", self.opens), ("closes", self.closes), ("disconnects", self.disconnects), ("external", self.external), ("watch_events", self.watch_events), ("cursor_updates", self.cursor_updates), ("cursor_deliveries", self.cursor_deliveries), ("conflicts", self.conflicts), ("deletions", self.deletions), ("refused", self.refused), ("responses", self.responses), ("probes", self.probes), ("ownership_checks", self.ownership_checks), ("disk_checks", self.disk_checks), ("quiescent_checks", self.quiescent_checks), ("replicas_compared", self.replicas_compared), ("chars_inserted", self.chars_inserted), ("chars_deleted", self.chars_deleted), ("order_pairs", self.order_pairs), ("lines_tracked", self.lines_tracked)]
    }
}

pub struct World {
    pub p: Profile,
    pub rng: StdRng,
    pub peers: Vec<Peer>,
    pub links: Vec<Link>,
    pub trace: Vec<String>,
    pub sched: Vec<u8>,
    pub st: Stats,
    root: PathBuf,
    next_char: u32,
    inserted: HashMap<char, String>,
    deleted: HashSet<char>,
    /// chars of edits that may or may not count (refused, file gone)
    void: HashSet<char>,
    observed: HashSet<Vec<char>>,
    next_uid: usize,
    next_token: u64,
    token_author: HashMap<u64, (usize, String)>,
    userid_of: HashMap<usize, String>,
    removed_users: BTreeMap<usize, (usize, usize)>,
    step: usize,
    line_no: u64,
    /// Labelled lines (restart workloads): line -> file; those removed by somebody.
    pub lines: BTreeMap<String, String>,
    pub lines_deleted: BTreeSet<String>,
    conflict_copies: BTreeMap<String, Vec<String>>,
    /// Who may create a file of that name, in workloads without naming conflicts.
    creator: BTreeMap<String, usize>,
}

fn read_dir_files(base: &Path) -> BTreeMap<String, Vec<u8>> {
    fn rec(base: &Path, d: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                let name = e.file_name();
                if d == base && (name == ".ethersync" || name == ".git") {
                    continue;
                }
                let Ok(ft) = e.file_type() else { continue };
                if ft.is_dir() {
                    rec(base, &p, out);
                } else if ft.is_file() {
                    if let Ok(b) = std::fs::read(&p) {
                        out.insert(p.strip_prefix(base).unwrap().to_string_lossy().into_owned(), b);
                    }
                }
            }
        }
    }
    let mut out = BTreeMap::new();
    rec(base, base, &mut out);
    out
}

const NASTY: &[&str] = &[
    "\r", "\r\n", "\u{2028}", "\u{2029}", "\u{85}", "\u{b}", "\u{c}", "\u{0}", "\t", "\u{feff}",
    "e\u{301}", "👨‍👩‍👧", "🥕", "\u{10ffff}", "ß", "İ", "\u{200d}", "\u{ad}", "\\", "\"", "\u{7f}", "\u{1b}",
    "\u{fffd}", "é", "한", "\u{1f1e9}\u{1f1ea}", "\\n", "\n\n", "\n\r", " ",
];

impl World {
    pub async fn new(p: Profile, seed: u64, root: PathBuf) -> R<World> {
        let mut rng = StdRng::seed_from_u64(seed);
        let n = rng.gen_range(p.peers.0..=p.peers.1);
        let mut w = World {
            p,
            rng,
            peers: vec![],
            links: vec![],
            trace: vec![],
            sched: vec![],
            st: Stats::default(),
            root,
            next_char: 0,
            inserted: HashMap::new(),
            deleted: HashSet::new(),
            void: HashSet::new(),
            observed: HashSet::new(),
            next_uid: 0,
            next_token: 0,
            token_author: HashMap::new(),
            userid_of: HashMap::new(),
            removed_users: BTreeMap::new(),
            step: 0,
            line_no: 0,
            lines: BTreeMap::new(),
            lines_deleted: BTreeSet::new(),
            conflict_copies: BTreeMap::new(),
            creator: BTreeMap::new(),
        };
        // Vary the mix of events from history to history.
        let keys: Vec<&'static str> = w.p.w.keys().copied().collect();
        for k in keys {
            let f = [0u32, 1, 2, 2, 4, 8][w.rng.gen_range(0..6)];
            let v = w.p.w[k];
            let essential = matches!(k, "send" | "recv" | "gen" | "deliver" | "watch");
            let nv = if essential { (v * f.max(1)).max(1) / 2 + 1 } else { v * f / 2 };
            w.p.w.insert(k, nv);
        }
        for i in 0..n {
            let dir = w.root.join(format!("p{i}"));
            let base = dir.join("project");
            std::fs::create_dir_all(base.join(".ethersync")).unwrap();
            std::fs::create_dir_all(base.join("sub")).unwrap();
            let is_host = i == 0 || w.p.all_hosts;
            let base = base.canonicalize().unwrap();
            if is_host {
                for f in 0..w.p.files {
                    if w.rng.gen_range(0..100) < if i == 0 { 70 } else { 40 } {
                        let path = w.file_name(f);
                        let len = w.rng.gen_range(0..w.p.max_len.min(40));
                        let t = w.fresh_text(len);
                        if w.p.labels {
                            for c in &t {
                                if Self::is_label(*c) {
                                    w.inserted.insert(*c, path.clone());
                                }
                            }
                        }
                        std::fs::write(base.join(&path), text::string_of(&t)).unwrap();
                        w.creator.insert(path.clone(), i);
                        if w.p.all_hosts {
                            w.conflict_copies.entry(path).or_default().push(text::string_of(&t));
                        }
                    }
                }
            }
            w.peers.push(Peer {
                dir,
                base,
                handle: None,
                editors: vec![],
                watch: VecDeque::new(),
                snapshot: BTreeMap::new(),
                probe_doc: AutoCommit::new(),
                probe_ours: State::new(),
                probe_theirs: State::new(),
                content: BTreeMap::new(),
                states: BTreeMap::new(),
                is_host,
                removed_by_remote: BTreeSet::new(),
                starts: 0,
            });
            w.start_actor(i).await?;
        }
        // Links: a random tree plus maybe extra edges.
        for i in 1..n {
            let j = w.rng.gen_range(0..i);
            w.add_link(j, i);
        }
        if n > 2 && w.rng.gen_bool(0.4) {
            let i = w.rng.gen_range(0..n);
            let j = w.rng.gen_range(0..n);
            if i != j && !w.links.iter().any(|l| (l.a, l.b) == (i.min(j), i.max(j)) || (l.b, l.a) == (i.min(j), i.max(j))) {
                w.add_link(i.min(j), i.max(j));
            }
        }
        Ok(w)
    }

    fn is_label(c: char) -> bool {
        matches!(c as u32, 0x4E00..=0x9FFF | 0xAC00..=0xD7A3 | 0x20000..=0x2A6DF)
    }

    fn fresh_char(&mut self) -> char {
        let k = self.next_char;
        self.next_char += 1;
        // Interleave the ranges, so that one- and two-unit UTF-16 characters mix.
        let m = k / 3;
        match k % 3 {
            0 => char::from_u32(0x4E00 + m % 20000),
            1 => char::from_u32(0x20000 + m % 42000),
            _ => char::from_u32(0xAC00 + m % 11000),
        }
        .unwrap()
    }

    fn fresh_text(&mut self, n: usize) -> Text {
        let mut t = vec![];
        for _ in 0..n {
            if self.rng.gen_bool(0.15) {
                t.push('\n');
            } else if self.p.nasty && self.rng.gen_bool(0.4) {
                let k = self.rng.gen_range(0..NASTY.len());
                t.extend(NASTY[k].chars());
            } else {
                t.push(self.fresh_char());
            }
        }
        t
    }

    fn file_name(&self, i: usize) -> String {
        ["text", "sub/a.txt", "b", "sub/ü 🥕.md", "c.rs", "d"][i % 6].to_string()
    }

    fn log(&mut self, s: String) {
        self.trace.push(format!("{}: {}", self.step, s));
    }

    fn add_link(&mut self, a: usize, b: usize) {
        let side = || Side { state: State::new(), want_gen: false, rx: None, queue: VecDeque::new() };
        self.links.push(Link { a, b, up: false, sa: side(), sb: side() });
        let l = self.links.len() - 1;
        self.link_up(l);
    }

    fn link_up(&mut self, l: usize) {
        let (a, b) = (self.links[l].a, self.links[l].b);
        if self.peers[a].handle.is_none() || self.peers[b].handle.is_none() {
            return;
        }
        let rxa = self.peers[a].handle.as_ref().unwrap().subscribe_document_changes();
        let rxb = self.peers[b].handle.as_ref().unwrap().subscribe_document_changes();
        let link = &mut self.links[l];
        link.up = true;
        link.sa = Side { state: State::new(), want_gen: true, rx: Some(rxa), queue: VecDeque::new() };
        link.sb = Side { state: State::new(), want_gen: true, rx: Some(rxb), queue: VecDeque::new() };
        self.trace.push(format!("link {a}-{b} up"));
    }

    fn link_down(&mut self, l: usize) {
        let link = &mut self.links[l];
        link.up = false;
        link.sa.queue.clear();
        link.sb.queue.clear();
        link.sa.rx = None;
        link.sb.rx = None;
        link.sa.want_gen = false;
        link.sb.want_gen = false;
    }

    /// Like the sync task of the daemon, which reacts to pings.
    fn collect_pings(&mut self, discard: bool) {
        for link in &mut self.links {
            if !link.up {
                continue;
            }
            for s in [&mut link.sa, &mut link.sb] {
                if let Some(rx) = &mut s.rx {
                    loop {
                        match rx.try_recv() {
                            Ok(()) | Err(broadcast::error::TryRecvError::Lagged(_)) => {
                                if !discard {
                                    s.want_gen = true;
                                }
                            }
                            _ => break,
                        }
                    }
                }
            }
        }
    }

    async fn start_actor(&mut self, i: usize) -> R<()> {
        let base = self.peers[i].base.clone();
        let is_host = self.peers[i].is_host;
        let r = std::panic::catch_unwind(AssertUnwindSafe(|| DocumentActorHandle::new(&base, false, is_host)));
        match r {
            Ok(h) => {
                self.peers[i].handle = Some(h);
                self.peers[i].starts += 1;
            }
            Err(_) => {
                let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                return viol("crash", format!("daemon p{i} could not start: {m}"));
            }
        }
        self.peers[i].snapshot = read_dir_files(&base);
        self.peers[i].watch.clear();
        self.peers[i].probe_doc = AutoCommit::new();
        self.peers[i].probe_ours = State::new();
        self.peers[i].probe_theirs = State::new();
        self.peers[i].removed_by_remote.clear();
        // The daemon saves its state right after the start.
        self.raw(i, DocMessage::Persist).await?;
        self.probe(i).await?;
        Ok(())
    }

    /// Sends a message to the actor and waits until it was handled completely.
    async fn raw(&mut self, i: usize, m: DocMessage) -> R<()> {
        let h = self.peers[i].handle.clone().expect("actor is running");
        let fut = async {
            h.send_message(m).await;
            let _ = h.content().await;
        };
        let fut = AssertUnwindSafe(fut).catch_unwind();
        tokio::pin!(fut);
        let mut stuck = 0;
        loop {
            let r = tokio::select! {
                r = &mut fut => Some(r),
                _ = tokio::time::sleep(std::time::Duration::from_millis(5)) => None,
            };
            self.drain_messages(i);
            match r {
                Some(Ok(())) => break,
                Some(Err(_)) => {
                    let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                    return viol("crash", format!("daemon p{i} panicked: {m}"));
                }
                None => {
                    stuck += 1;
                    if stuck > 6000 {
                        return viol("harness", format!("actor p{i} did not answer for 30 s"));
                    }
                }
            }
        }
        self.drain_messages(i);
        Ok(())
    }

    fn drain_messages(&mut self, i: usize) {
        for e in &mut self.peers[i].editors {
            while let Ok(message) = e.messages.try_recv() {
                // As it would be on the wire: exactly one line.
                let mut bytes = BytesMut::new();
                let v = match EditorProtocolCodec.encode(message, &mut bytes) {
                    Ok(()) if bytes.iter().filter(|c| **c == b'\n').count() == 1 && bytes.last() == Some(&b'\n') => {
                        serde_json::from_slice(&bytes).unwrap_or_else(|_| json!({"unparsable": String::from_utf8_lossy(&bytes)}))
                    }
                    other => json!({"unparsable": format!("{other:?} {}", String::from_utf8_lossy(&bytes))}),
                };
                e.inbox.push_back(v);
            }
        }
    }

    /// Passive replica: fetches the shared document through the sync interface.
    async fn probe(&mut self, i: usize) -> R<()> {
        self.collect_pings(false);
        self.st.probes += 1;
        for _round in 0..1000 {
            let mut progress = false;
            let (tx, rx) = oneshot::channel();
            let state = std::mem::take(&mut self.peers[i].probe_theirs);
            self.raw(i, DocMessage::GenerateSyncMessage { state, response_tx: tx }).await?;
            let Ok((state, msg)) = rx.await else {
                return viol("crash", format!("daemon p{i} dropped a sync request"));
            };
            self.peers[i].probe_theirs = state;
            if let Some(m) = msg {
                progress = true;
                let peer = &mut self.peers[i];
                if let Err(e) = peer.probe_doc.sync().receive_sync_message(&mut peer.probe_ours, m) {
                    return viol("sync", format!("p{i} sent a sync message that cannot be applied: {e}"));
                }
            }
            let peer = &mut self.peers[i];
            let out = peer.probe_doc.sync().generate_sync_message(&mut peer.probe_ours);
            if let Some(m) = out {
                progress = true;
                let (tx, rx) = oneshot::channel();
                let state = std::mem::take(&mut self.peers[i].probe_theirs);
                self.raw(i, DocMessage::ReceiveSyncMessage { message: m, state, response_tx: tx }).await?;
                let Ok(state) = rx.await else {
                    return viol("crash", format!("daemon p{i} dropped a sync message"));
                };
                self.peers[i].probe_theirs = state;
            }
            if !progress {
                break;
            }
        }
        self.collect_pings(true);
        let peer = &mut self.peers[i];
        peer.content = am_texts(&peer.probe_doc, "files");
        peer.states = am_texts(&peer.probe_doc, "states");
        Ok(())
    }

    fn open_at(&self, i: usize, path: &str) -> bool {
        self.peers[i].editors.iter().any(|e| e.dopen.contains(path))
    }

    fn all_open(&self, i: usize) -> BTreeSet<String> {
        self.peers[i].editors.iter().flat_map(|e| e.dopen.iter().cloned()).collect()
    }

    /// One message for the actor, with the monitors around it.
    /// `may_remove`: the message may carry remote deletions.
    async fn act(&mut self, i: usize, m: DocMessage, open_before: &BTreeSet<String>, may_remove: bool) -> R<()> {
        let before = self.peers[i].snapshot.clone();
        let content_before = self.peers[i].content.clone();
        self.raw(i, m).await?;
        self.probe(i).await?;
        let after = read_dir_files(&self.peers[i].base);
        // A file that somebody deleted is gone for the editors that had it open.
        if may_remove {
            for path in open_before {
                if content_before.contains_key(path) && !self.peers[i].content.contains_key(path) {
                    self.st.deletions += 1;
                    self.peers[i].removed_by_remote.insert(path.clone());
                    for e in &mut self.peers[i].editors {
                        e.dopen.remove(path);
                        if let Some(b) = e.bufs.get_mut(path) {
                            b.gone = true;
                        }
                    }
                    let msg = format!("p{i}: open file {path} was deleted remotely");
                    self.log(msg);
                }
            }
        }
        // Watcher events for what the daemon itself did.
        let paths: BTreeSet<String> = before.keys().chain(after.keys()).cloned().collect();
        for path in paths {
            let (b, a) = (before.get(&path), after.get(&path));
            if b == a {
                continue;
            }
            let open_still = open_before.contains(&path) && self.open_at(i, &path);
            if open_still {
                let d = format!(
                    "p{i}: the daemon changed {path} on disk while it is open in an editor: {:?} -> {:?}",
                    b.map(|x| String::from_utf8_lossy(x).into_owned()),
                    a.map(|x| String::from_utf8_lossy(x).into_owned())
                );
                return viol("ownership", d);
            }
            let full = self.peers[i].base.join(&path);
            match (b, a) {
                (None, Some(_)) => {
                    self.peers[i].watch.push_back(WatcherEvent::Created { file_path: full.clone() });
                    self.peers[i].watch.push_back(WatcherEvent::Changed { file_path: full });
                }
                (Some(_), None) => self.peers[i].watch.push_back(WatcherEvent::Removed { file_path: full }),
                _ => self.peers[i].watch.push_back(WatcherEvent::Changed { file_path: full }),
            }
        }
        self.st.ownership_checks += open_before.len() as u64;
        self.peers[i].snapshot = after;
        self.disk_invariant(i, &content_before)?;
        Ok(())
    }

    fn pending_watch(&self, i: usize) -> HashSet<String> {
        self.peers[i]
            .watch
            .iter()
            .map(|e| {
                let p = match e {
                    WatcherEvent::Created { file_path }
                    | WatcherEvent::Removed { file_path }
                    | WatcherEvent::Changed { file_path } => file_path,
                };
                p.strip_prefix(&self.peers[i].base).unwrap().to_string_lossy().into_owned()
            })
            .collect()
    }

    /// Files that no editor has open, and about which no event is on its way, are the same on disk
    /// and in the shared content.
    fn disk_invariant(&mut self, i: usize, _before: &BTreeMap<String, String>) -> R<()> {
        let open = self.all_open(i);
        let pend = self.pending_watch(i);
        let peer = &self.peers[i];
        let joining = !peer.is_host && peer.starts <= 1;
        let paths: BTreeSet<String> = peer.content.keys().chain(peer.snapshot.keys()).cloned().collect();
        for path in paths {
            if open.contains(&path) || pend.contains(&path) || path.contains("ignored") {
                continue;
            }
            let disk = peer.snapshot.get(&path).map(|b| String::from_utf8_lossy(b).into_owned());
            let crdt = peer.content.get(&path).cloned();
            if crdt.is_none() && joining {
                continue;
            }
            self.st.disk_checks += 1;
            if disk != crdt {
                let peer_gone = peer.removed_by_remote.contains(&path);
                return viol(
                    "disk",
                    format!("p{i}: {path}: on disk {disk:?}, shared content {crdt:?} (not open, no event pending, removed remotely while open: {peer_gone})"),
                );
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- editors

    async fn editor_connect(&mut self, i: usize) -> R<()> {
        let h = self.peers[i].handle.clone().unwrap();
        let (writer, messages) = mpsc::unbounded_channel();
        let id = h.next_editor_id();
        let uid = self.next_uid;
        self.next_uid += 1;
        let open = self.all_open(i);
        self.log(format!("p{i}: editor #{id} (u{uid}) connects"));
        self.act(i, DocMessage::NewEditorConnection(id, writer), &open, false).await?;
        self.peers[i].editors.push(Editor {
            id,
            messages,
            inbox: VecDeque::new(),
            outbox: VecDeque::new(),
            bufs: BTreeMap::new(),
            dopen: BTreeSet::new(),
            pending: VecDeque::new(),
            next_id: 1,
            uid,
            views: BTreeMap::new(),
            connected_step: self.step,
            last_cursor: None,
        });
        Ok(())
    }

    fn uri(&self, i: usize, path: &str) -> String {
        format!("file://{}/{}", self.peers[i].base.display(), path)
    }

    fn push_out(&mut self, i: usize, e: usize, method: &'static str, path: &str, mut params: Value) -> &mut Out {
        let uri = self.uri(i, path);
        params["uri"] = json!(uri);
        let as_request = self.rng.gen_bool(0.8);
        let ed = &mut self.peers[i].editors[e];
        let mut msg = json!({"jsonrpc": "2.0", "method": method, "params": params});
        let mut id = None;
        if as_request {
            id = Some(ed.next_id);
            msg["id"] = json!(ed.next_id);
            ed.next_id += 1;
        }
        ed.outbox.push_back(Out {
            line: msg.to_string(),
            kind: method,
            path: path.to_string(),
            id,
            ins: vec![],
            del: vec![],
            cursor: None,
            before: None,
        });
        ed.outbox.back_mut().unwrap()
    }

    /// Delivers the oldest message of an editor to the daemon.
    async fn editor_send(&mut self, i: usize, e: usize) -> R<()> {
        let out = self.peers[i].editors[e].outbox.pop_front().unwrap();
        let id = self.peers[i].editors[e].id;
        match out.kind {
            "close" => {
                self.peers[i].editors[e].dopen.remove(&out.path);
            }
            _ => {}
        }
        let open = self.all_open(i);
        let gone = !self.peers[i].editors[e].dopen.contains(&out.path);
        if let Some(rid) = out.id {
            let expect_err = out.kind == "edit" && gone;
            self.peers[i].editors[e].pending.push_back((rid, out.kind, out.path.clone(), expect_err));
        }
        if out.kind == "edit" {
            if gone {
                for c in out.ins.iter().chain(out.del.iter()) {
                    self.void.insert(*c);
                }
                self.st.refused += 1;
            } else {
                for c in &out.ins {
                    self.inserted.insert(*c, out.path.clone());
                    self.st.chars_inserted += 1;
                }
                for c in &out.del {
                    self.deleted.insert(*c);
                    self.st.chars_deleted += 1;
                }
            }
        }
        if let Some(t) = out.cursor {
            let uid = self.peers[i].editors[e].uid;
            self.token_author.insert(t, (uid, self.uri(i, &out.path)));
            self.peers[i].editors[e].last_cursor = Some((t, self.step, out.path.clone()));
            self.st.cursor_updates += 1;
        }
        self.log(format!("p{i} <- editor #{id}: {}", out.line));
        let _ = &out.before;
        let content_before = self.peers[i].content.clone();
        self.act(i, DocMessage::FromEditor(id, out.line.clone()), &open, false).await?;
        if out.kind == "open" {
            self.peers[i].editors[e].dopen.insert(out.path.clone());
        }
        if out.kind == "edit" && gone && self.peers[i].content != content_before {
            return viol("refused-effect", format!("p{i}: an edit of a file that is gone changed the shared content"));
        }
        if out.kind == "cursor" && self.peers[i].content != content_before {
            return viol("cursor-effect", format!("p{i}: a cursor message changed the shared content"));
        }
        Ok(())
    }

    /// The editor handles the oldest message from the daemon.
    fn editor_recv(&mut self, i: usize, e: usize) -> R<()> {
        let msg = self.peers[i].editors[e].inbox.pop_front().unwrap();
        let (id, uid) = (self.peers[i].editors[e].id, self.peers[i].editors[e].uid);
        self.log(format!("p{i}: editor #{id} handles {msg}"));
        match msg["method"].as_str() {
            Some("edit") => {
                let uri = msg["params"]["uri"].as_str().unwrap_or("").to_string();
                let prefix = format!("file://{}/", self.peers[i].base.display());
                let Some(path) = uri.strip_prefix(&prefix).map(|s| s.to_string()) else {
                    return viol("protocol", format!("p{i}: edit for a strange uri {uri}"));
                };
                let rev = msg["params"]["revision"].as_u64().unwrap_or(u64::MAX) as usize;
                let Some(b) = self.peers[i].editors[e].bufs.get_mut(&path) else {
                    // Closed meanwhile; the message was on its way.
                    return Ok(());
                };
                if rev > b.erev {
                    return viol("ot", format!("p{i}: edit for {path} is based on editor revision {rev}, but the editor is only at {}", b.erev));
                }
                if rev != b.erev {
                    self.st.edits_ignored_by_revision += 1;
                    return Ok(());
                }
                let reps = match text::parse_delta(&b.text, &msg["params"]["delta"]) {
                    Ok(r) => r,
                    Err(err) => {
                        return viol("ot", format!("p{i}: edit from the daemon does not fit the buffer {:?}: {err}: {msg}", text::string_of(&b.text)))
                    }
                };
                if reps.len() > 1 {
                    self.st.multi_op_deltas += 1;
                }
                match text::apply(&b.text, &reps) {
                    Ok(t) => b.text = t,
                    Err(err) => return viol("ot", format!("p{i}: edit from the daemon is not applicable: {err}: {msg}")),
                }
                b.drev += 1;
                self.st.edits_applied_at_editor += 1;
                if self.p.labels {
                    let seq: Vec<char> = b.text.iter().copied().filter(|c| Self::is_label(*c)).collect();
                    self.observed.insert(seq);
                }
            }
            Some("cursor") => {
                let p = &msg["params"];
                let userid = p["userid"].as_str().unwrap_or("").to_string();
                let ranges = p["ranges"].as_array().cloned().unwrap_or_default();
                if ranges.is_empty() {
                    self.peers[i].editors[e].views.insert(userid, None);
                    return Ok(());
                }
                let token = ranges[0]["start"]["line"].as_u64().unwrap_or(0);
                let Some((author, _)) = self.token_author.get(&token).cloned() else {
                    return viol("cursor", format!("p{i}: cursor nobody sent: {msg}"));
                };
                self.st.cursor_deliveries += 1;
                if author == uid {
                    return viol("cursor", format!("p{i}: editor u{uid} got its own cursor back: {msg}"));
                }
                let want = Self::cursor_ranges(token);
                if p["ranges"] != want {
                    return viol("cursor", format!("p{i}: cursor ranges changed on the way: sent {want}, got {}", p["ranges"]));
                }
                match self.userid_of.get(&author) {
                    None => {
                        if self.userid_of.values().any(|v| *v == userid) {
                            return viol("cursor", format!("p{i}: two editors share the user id {userid}"));
                        }
                        self.userid_of.insert(author, userid.clone());
                    }
                    Some(u) if *u != userid => {
                        return viol("cursor", format!("p{i}: editor u{author} appears as {u} and {userid}"));
                    }
                    _ => {}
                }
                // Same relative path on this peer's own project.
                let (_, src_uri) = &self.token_author[&token];
                let rel = src_uri.split("/project/").last().unwrap_or("");
                let want_uri = self.uri(i, rel);
                if p["uri"].as_str() != Some(&want_uri) {
                    return viol("cursor", format!("p{i}: cursor uri {} instead of {want_uri}", p["uri"]));
                }
                let want_name = std::env::var("USER").ok();
                if p["name"].as_str().map(|s| s.to_string()) != want_name {
                    return viol("cursor", format!("p{i}: cursor name {} instead of {want_name:?}", p["name"]));
                }
                if let Some(Some(old)) = self.peers[i].editors[e].views.get(&userid) {
                    if *old > token {
                        return viol("cursor", format!("p{i}: cursor of u{author} went back from {old} to {token}"));
                    }
                }
                self.peers[i].editors[e].views.insert(userid, Some(token));
            }
            Some(other) => return viol("protocol", format!("p{i}: unknown message {other} to editor")),
            None => {
                self.st.responses += 1;
                let Some((want, kind, path, expect_err)) = self.peers[i].editors[e].pending.pop_front() else {
                    return viol("response", format!("p{i}: editor #{id} got a response to nothing: {msg}"));
                };
                if msg["id"].as_u64() != Some(want) {
                    return viol("response", format!("p{i}: editor #{id} expected a response to request {want} ({kind}), got {msg}"));
                }
                let ok = msg.get("result").is_some() && msg.get("error").is_none();
                let err = msg.get("error").is_some() && msg.get("result").is_none();
                if !(ok ^ err) {
                    return viol("response", format!("p{i}: response is neither success nor error: {msg}"));
                }
                if ok == expect_err {
                    return viol("response", format!("p{i}: response to {kind} of {path} should be {}: {msg}", if expect_err { "an error" } else { "success" }));
                }
                if err {
                    self.st.refused += 1;
                }
            }
        }
        Ok(())
    }

    fn cursor_ranges(token: u64) -> Value {
        let mut v = vec![json!({"start": {"line": token, "character": token % 7}, "end": {"line": token + token % 3, "character": token % 11}})];
        if token % 4 == 1 {
            v.push(json!({"start": {"line": 0, "character": 3}, "end": {"line": 0, "character": 1}}));
        }
        json!(v)
    }

    fn user_edit(&mut self, i: usize, e: usize) -> bool {
        let paths: Vec<String> = self.peers[i].editors[e].bufs.keys().cloned().collect();
        if paths.is_empty() {
            return false;
        }
        let path = paths[self.rng.gen_range(0..paths.len())].clone();
        let burst = if self.rng.gen_bool(0.2) { self.rng.gen_range(2..5) } else { 1 };
        for _ in 0..burst {
            let old = self.peers[i].editors[e].bufs[&path].text.clone();
            let n = old.len();
            let hot = self.rng.gen_range(0..6);
            let pick = |rng: &mut StdRng| -> usize {
                match hot {
                    0 => 0,
                    1 => n,
                    2 => n / 2,
                    _ => rng.gen_range(0..=n),
                }
            };
            let a = pick(&mut self.rng);
            let kind = self.rng.gen_range(0..10);
            let maxdel = if self.rng.gen_bool(0.1) { n } else { 6 };
            let b = if kind < 5 { a } else { (a + self.rng.gen_range(0..=maxdel)).min(n) };
            let t = if kind == 9 || (kind >= 5 && kind < 8) {
                if kind == 9 { let k = self.rng.gen_range(1..5); self.fresh_text(k) } else { vec![] }
            } else if n < self.p.max_len {
                let k = if self.p.big && self.rng.gen_bool(0.05) { self.rng.gen_range(200..2000) } else { self.rng.gen_range(1..6) };
                self.fresh_text(k)
            } else {
                vec![]
            };
            if a == b && t.is_empty() {
                continue;
            }
            let rep = Rep { start: a, end: b, text: t.clone() };
            let mut delta = vec![text::rep_json(&old, &rep)];
            if self.rng.gen_bool(0.05) && a != b {
                // A backward selection means the same range.
                let r = delta[0]["range"].clone();
                delta[0]["range"] = json!({"start": r["end"], "end": r["start"]});
            }
            let new = text::apply(&old, &[rep]).unwrap();
            let drev = self.peers[i].editors[e].bufs[&path].drev;
            let ins: Vec<char> = t.into_iter().filter(|c| Self::is_label(*c)).collect();
            let del: Vec<char> = old[a..b].iter().copied().filter(|c| Self::is_label(*c)).collect();
            let out = self.push_out(i, e, "edit", &path, json!({"delta": delta, "revision": drev}));
            out.ins = ins;
            out.del = del;
            let labels = self.p.labels;
            let buf = self.peers[i].editors[e].bufs.get_mut(&path).unwrap();
            buf.text = new;
            buf.erev += 1;
            if labels {
                let seq: Vec<char> = buf.text.iter().copied().filter(|c| Self::is_label(*c)).collect();
                self.observed.insert(seq);
            }
            self.st.edits += 1;
            let ed = self.peers[i].editors[e].id;
            self.log(format!("p{i}: user of editor #{ed} edits {path} [{a}..{b}]"));
        }
        true
    }

    /// The editor loads the file and opens it; the daemon hears of it at once.
    async fn editor_open(&mut self, i: usize, e: usize, path: &str) -> R<bool> {
        while !self.peers[i].editors[e].outbox.is_empty() {
            self.editor_send(i, e).await?;
        }
        if self.peers[i].editors[e].bufs.get(path).is_some() {
            return Ok(false);
        }
        let disk = std::fs::read_to_string(self.peers[i].base.join(path)).ok();
        if self.open_at(i, path) {
            // Several local editors must start in sync with the others (documented).
            if disk.as_ref() != self.peers[i].content.get(path) {
                return Ok(false);
            }
        }
        if disk.is_none() && !self.may_create(i, path) {
            return Ok(false);
        }
        if disk.is_none() && self.p.all_hosts {
            self.conflict_copies.entry(path.to_string()).or_default().push(String::new());
        }
        self.push_out(i, e, "open", path, json!({}));
        self.st.opens += 1;
        self.peers[i].removed_by_remote.remove(path);
        self.editor_send(i, e).await?;
        let step = self.step;
        self.peers[i].editors[e].bufs.insert(
            path.to_string(),
            Buf { text: text::text_of(&disk.unwrap_or_default()), erev: 0, drev: 0, gone: false, opened_step: step },
        );
        // Messages from an earlier time when the file was open do not concern the new buffer.
        let prefix = self.uri(i, path);
        self.peers[i].editors[e].inbox.retain(|m| !(m["method"] == "edit" && m["params"]["uri"] == json!(prefix)));
        if self.p.labels {
            let seq: Vec<char> = self.peers[i].editors[e].bufs[path].text.iter().copied().filter(|c| Self::is_label(*c)).collect();
            self.observed.insert(seq);
        }
        if self.peers[i].content.get(path).map(|s| s.as_str()) != Some(&text::string_of(&self.peers[i].editors[e].bufs[path].text)) {
            return viol("handoff", format!(
                "p{i}: after opening {path} the shared content is {:?}, but the file the editor loaded has {:?}",
                self.peers[i].content.get(path), text::string_of(&self.peers[i].editors[e].bufs[path].text)));
        }
        Ok(true)
    }

    fn may_create(&mut self, i: usize, path: &str) -> bool {
        !self.p.labels || *self.creator.entry(path.to_string()).or_insert(i) == i
    }

    async fn editor_disconnect(&mut self, i: usize, e: usize) -> R<()> {
        let open = self.all_open(i);
        let ed = self.peers[i].editors.remove(e);
        let still = self.all_open(i);
        let _ = open;
        self.log(format!("p{i}: editor #{} disconnects with {} messages unsent", ed.id, ed.outbox.len()));
        // What the daemon never got was never accepted.
        for o in &ed.outbox {
            for c in o.ins.iter().chain(o.del.iter()) {
                if o.ins.contains(c) {
                    self.void.insert(*c);
                }
            }
        }
        let unsent_del: Vec<char> = ed.outbox.iter().flat_map(|o| o.del.clone()).collect();
        let _ = unsent_del;
        // The daemon documents that a cursor can stay when the project has no file at all.
        if !self.peers[i].content.is_empty() {
            self.removed_users.insert(ed.uid, (self.step, i));
        }
        let id = ed.id;
        drop(ed);
        self.st.disconnects += 1;
        self.act(i, DocMessage::CloseEditorConnection(id), &still, false).await
    }

    // ---------------------------------------------------------------- links

    async fn link_gen(&mut self, l: usize, side_a: bool) -> R<()> {
        let i = if side_a { self.links[l].a } else { self.links[l].b };
        let state = {
            let s = if side_a { &mut self.links[l].sa } else { &mut self.links[l].sb };
            s.want_gen = false;
            std::mem::take(&mut s.state)
        };
        let (tx, rx) = oneshot::channel();
        self.raw(i, DocMessage::GenerateSyncMessage { state, response_tx: tx }).await?;
        let Ok((state, msg)) = rx.await else {
            return viol("crash", "sync request dropped");
        };
        let link = &mut self.links[l];
        if side_a {
            link.sa.state = state;
        } else {
            link.sb.state = state;
        }
        if let Some(m) = msg {
            self.st.sync_messages += 1;
            let bytes = m.encode();
            let link = &mut self.links[l];
            if side_a {
                link.sb.queue.push_back(bytes);
            } else {
                link.sa.queue.push_back(bytes);
            }
        }
        Ok(())
    }

    async fn link_deliver(&mut self, l: usize, to_a: bool) -> R<()> {
        let i = if to_a { self.links[l].a } else { self.links[l].b };
        let (bytes, state) = {
            let s = if to_a { &mut self.links[l].sa } else { &mut self.links[l].sb };
            (s.queue.pop_front().unwrap(), std::mem::take(&mut s.state))
        };
        let Ok(message) = Message::decode(&bytes) else {
            return viol("sync", "sync message does not decode");
        };
        let (tx, rx) = oneshot::channel();
        let open = self.all_open(i);
        self.log(format!("p{i} <- sync message of {} bytes ({} changes)", bytes.len(), message.changes.len()));
        self.act(i, DocMessage::ReceiveSyncMessage { message, state, response_tx: tx }, &open, true).await?;
        let Ok(state) = rx.await else {
            return viol("crash", "sync message dropped");
        };
        let link = &mut self.links[l];
        if to_a {
            link.sa.state = state;
        } else {
            link.sb.state = state;
        }
        Ok(())
    }

    // ---------------------------------------------------------------- files

    fn queue_ext(&mut self, i: usize, path: &str, before: bool, after: bool) {
        let full = self.peers[i].base.join(path);
        let q = &mut self.peers[i].watch;
        match (before, after) {
            (false, true) => {
                q.push_back(WatcherEvent::Created { file_path: full.clone() });
                q.push_back(WatcherEvent::Changed { file_path: full });
            }
            (true, true) => q.push_back(WatcherEvent::Changed { file_path: full }),
            (true, false) => q.push_back(WatcherEvent::Removed { file_path: full }),
            _ => {}
        }
        let base = self.peers[i].base.clone();
        self.peers[i].snapshot = read_dir_files(&base);
    }

    async fn external(&mut self, i: usize) -> R<()> {
        let k = self.rng.gen_range(0..self.p.files);
        let path = self.file_name(k);
        let full = self.peers[i].base.join(&path);
        let exists = full.exists();
        let open = self.open_at(i, &path);
        let choice = self.rng.gen_range(0..10);
        self.st.external += 1;
        let new_text = {
            let old: Text = std::fs::read_to_string(&full).map(|s| text::text_of(&s)).unwrap_or_default();
            let n = old.len();
            let mut t = old.clone();
            let edits = self.rng.gen_range(1..4);
            for _ in 0..edits {
                let m = t.len();
                let a = self.rng.gen_range(0..=m);
                let b = (a + if self.rng.gen_bool(0.4) { self.rng.gen_range(0..8) } else { 0 }).min(m);
                let add = if n < self.p.max_len { let k = self.rng.gen_range(0..6); self.fresh_text(k) } else { vec![] };
                t.splice(a..b, add);
            }
            text::string_of(&t)
        };
        match choice {
            0 | 1 if exists && self.p.w.get("extdel").copied().unwrap_or(1) > 0 => {
                std::fs::remove_file(&full).unwrap();
                self.log(format!("p{i}: another program deletes {path} (open: {open})"));
                self.queue_ext(i, &path, true, false);
            }
            2 if exists => {
                // rename
                let k2 = self.rng.gen_range(0..self.p.files);
                let p2 = self.file_name(k2);
                if p2 == path {
                    return Ok(());
                }
                let full2 = self.peers[i].base.join(&p2);
                let e2 = full2.exists();
                std::fs::create_dir_all(full2.parent().unwrap()).unwrap();
                std::fs::rename(&full, &full2).unwrap();
                self.log(format!("p{i}: another program renames {path} to {p2}"));
                // The real watcher reports a rename as a removal and a creation.
                let _ = e2;
                let q = &mut self.peers[i].watch;
                q.push_back(WatcherEvent::Removed { file_path: full });
                q.push_back(WatcherEvent::Created { file_path: full2 });
                let base = self.peers[i].base.clone();
                self.peers[i].snapshot = read_dir_files(&base);
            }
            _ => {
                std::fs::create_dir_all(full.parent().unwrap()).unwrap();
                std::fs::write(&full, &new_text).unwrap();
                self.log(format!("p{i}: another program writes {path} (open: {open}, existed: {exists}): {new_text:?}"));
                if !exists && self.p.all_hosts {
                    self.conflict_copies.entry(path.clone()).or_default().push(new_text);
                }
                self.queue_ext(i, &path, exists, true);
            }
        }
        if self.p.sync_external {
            while !self.peers[i].watch.is_empty() {
                self.watch_step(i).await?;
            }
        }
        Ok(())
    }

    async fn watch_step(&mut self, i: usize) -> R<()> {
        let ev = self.peers[i].watch.pop_front().unwrap();
        self.st.watch_events += 1;
        let open = self.all_open(i);
        let path = {
            let p = match &ev {
                WatcherEvent::Created { file_path } | WatcherEvent::Removed { file_path } | WatcherEvent::Changed { file_path } => file_path,
            };
            p.strip_prefix(&self.peers[i].base).unwrap().to_string_lossy().into_owned()
        };
        self.log(format!("p{i}: watcher {ev:?}"));
        let before = self.peers[i].content.clone();
        self.act(i, DocMessage::FromWatcher(ev), &open, false).await?;
        if open.contains(&path) && before.get(&path) != self.peers[i].content.get(&path) {
            return viol("ownership", format!(
                "p{i}: a change of {path} on disk went into the shared content although an editor has it open: {:?} -> {:?}",
                before.get(&path), self.peers[i].content.get(&path)));
        }
        Ok(())
    }

    // ---------------------------------------------------------------- restart

    pub async fn stop(&mut self, i: usize, orderly: bool) -> R<()> {
        self.st.restarts += 1;
        self.sched.push(100 + 2 * i as u8 + orderly as u8);
        if orderly {
            // Editors are closed first (documented), then the state is saved.
            while !self.peers[i].editors.is_empty() {
                while !self.peers[i].editors[0].outbox.is_empty() {
                    self.editor_send(i, 0).await?;
                }
                self.editor_disconnect(i, 0).await?;
            }
            while !self.peers[i].watch.is_empty() {
                self.watch_step(i).await?;
            }
            self.raw(i, DocMessage::Persist).await?;
        } else {
            self.st.crash_restarts += 1;
        }
        for l in 0..self.links.len() {
            if self.links[l].a == i || self.links[l].b == i {
                self.link_down(l);
            }
        }
        let eds: Vec<usize> = self.peers[i].editors.iter().map(|e| e.uid).collect();
        for u in eds {
            self.userid_of.remove(&u);
        }
        self.peers[i].editors.clear();
        self.peers[i].watch.clear();
        self.peers[i].handle = None;
        for _ in 0..5 {
            tokio::task::yield_now().await;
        }
        if !orderly {
            // That these users left might not have been saved yet.
            self.removed_users.retain(|_, (_, peer)| *peer != i);
        }
        self.log(format!("p{i}: stopped (orderly: {orderly})"));
        Ok(())
    }

    pub async fn start(&mut self, i: usize) -> R<()> {
        self.log(format!("p{i}: starts again"));
        self.start_actor(i).await?;
        // The files are the truth now.
        let disk: BTreeMap<String, String> =
            self.peers[i].snapshot.iter().filter_map(|(k, v)| String::from_utf8(v.clone()).ok().map(|s| (k.clone(), s))).collect();
        if disk != self.peers[i].content {
            return viol("restart", format!("p{i}: after the restart the shared content is {:?}, the files are {disk:?}", self.peers[i].content));
        }
        Ok(())
    }

    // ---------------------------------------------------------------- line labels (restart workloads)

    fn new_line(&mut self) -> String {
        self.line_no += 1;
        let mut s = format!("L{:05}", self.line_no);
        for _ in 0..self.rng.gen_range(6..14) {
            s.push((b'a' + self.rng.gen_range(0..26)) as char);
        }
        s
    }

    /// Another program inserts one labelled line (or removes one) while the daemon is down.
    fn offline_change(&mut self, i: usize) {
        let k = self.rng.gen_range(0..self.p.files);
        let path = self.file_name(k);
        let full = self.peers[i].base.join(&path);
        let old = std::fs::read_to_string(&full).ok();
        match self.rng.gen_range(0..10) {
            0 if old.is_some() => {
                std::fs::remove_file(&full).unwrap();
                self.log(format!("p{i}: offline, {path} is deleted"));
                for (l, f) in &self.lines {
                    if *f == path {
                        self.lines_deleted.insert(l.clone());
                    }
                }
            }
            1 | 2 if old.as_ref().is_some_and(|o| o.lines().count() > 1) => {
                let o = old.unwrap();
                let ls: Vec<&str> = o.lines().collect();
                let k = self.rng.gen_range(0..ls.len());
                let gone = ls[k].to_string();
                let new: String = ls.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, l)| format!("{l}\n")).collect();
                std::fs::write(&full, new).unwrap();
                self.log(format!("p{i}: offline, line {gone} of {path} is removed"));
                self.lines_deleted.insert(gone);
            }
            _ => {
                let line = self.new_line();
                // Never create a name a second time: that would be a naming conflict.
                let (path, old) = match old {
                    Some(_) => (path, old),
                    None => (format!("new-{}", self.line_no), None),
                };
                let full = self.peers[i].base.join(&path);
                let o = old.unwrap_or_default();
                let mut ls: Vec<String> = o.lines().map(|s| s.to_string()).collect();
                let k = self.rng.gen_range(0..=ls.len());
                ls.insert(k, line.clone());
                std::fs::create_dir_all(full.parent().unwrap()).unwrap();
                std::fs::write(&full, ls.iter().map(|l| format!("{l}\n")).collect::<String>()).unwrap();
                self.log(format!("p{i}: offline, line {line} is inserted into {path}"));
                self.lines.insert(line, path);
                self.st.lines_tracked += 1;
            }
        }
    }

    /// An online peer inserts one labelled line through the watcher.
    async fn online_line(&mut self, i: usize) -> R<()> {
        let k = self.rng.gen_range(0..self.p.files);
        let path = self.file_name(k);
        let full = self.peers[i].base.join(&path);
        let exists = full.exists();
        if !exists || self.open_at(i, &path) {
            return Ok(());
        }
        let line = self.new_line();
        let o = std::fs::read_to_string(&full).unwrap_or_default();
        let mut ls: Vec<String> = o.lines().map(|s| s.to_string()).collect();
        let k = self.rng.gen_range(0..=ls.len());
        ls.insert(k, line.clone());
        std::fs::write(&full, ls.iter().map(|l| format!("{l}\n")).collect::<String>()).unwrap();
        self.log(format!("p{i}: line {line} is inserted into {path}"));
        self.lines.insert(line, path.clone());
        self.st.lines_tracked += 1;
        self.queue_ext(i, &path, exists, true);
        while !self.peers[i].watch.is_empty() {
            self.watch_step(i).await?;
        }
        Ok(())
    }

    pub async fn drain_links(&mut self) -> R<()> {
        for _ in 0..20000 {
            let mut any = false;
            self.collect_pings(false);
            for l in 0..self.links.len() {
                if !self.links[l].up {
                    continue;
                }
                for side in [true, false] {
                    let (want, has) = {
                        let s = if side { &self.links[l].sa } else { &self.links[l].sb };
                        (s.want_gen, !s.queue.is_empty())
                    };
                    if want {
                        any = true;
                        self.link_gen(l, side).await?;
                    }
                    if has {
                        any = true;
                        self.link_deliver(l, side).await?;
                    }
                }
            }
            let np = self.peers.len();
            for i in 0..np {
                while !self.peers[i].watch.is_empty() {
                    any = true;
                    self.watch_step(i).await?;
                }
            }
            if !any {
                return Ok(());
            }
        }
        viol("livelock", "sync messages keep flowing although nothing changes")
    }

    /// Restart histories: rounds of (stop some, change offline and online, restart, reconnect).
    pub async fn run_restarts(&mut self) -> R<()> {
        // Labelled base content.
        for f in 0..self.p.files {
            let path = self.file_name(f);
            let n = self.rng.gen_range(2..7);
            let mut s = String::new();
            for _ in 0..n {
                let l = self.new_line();
                s.push_str(&l);
                s.push('\n');
                self.lines.insert(l, path.clone());
            }
            let full = self.peers[0].base.join(&path);
            let existed = full.exists();
            std::fs::write(&full, s).unwrap();
            self.queue_ext(0, &path, existed, true);
        }
        self.drain_links().await?;
        self.quiescent_check(false).await?;
        let rounds = self.rng.gen_range(1..4);
        for _ in 0..rounds {
            self.step += 1;
            let n = self.peers.len();
            let stopped: Vec<usize> = (0..n).filter(|_| self.rng.gen_bool(0.6)).collect();
            for &i in &stopped {
                // Everything has been saved at this point; a kill is as good as an orderly stop.
                self.raw(i, DocMessage::Persist).await?;
                let orderly = self.rng.gen_bool(0.5);
                self.stop(i, orderly).await?;
            }
            // Online peers keep working.
            for i in 0..n {
                if !stopped.contains(&i) {
                    for _ in 0..self.rng.gen_range(0..3) {
                        self.sched.push(120 + i as u8);
                        if self.rng.gen_bool(0.5) {
                            self.online_line(i).await?;
                        } else {
                            self.editor_line(i).await?;
                        }
                    }
                }
            }
            // At most one offline change per file and peer, so that the diff is unambiguous.
            let mut touched: BTreeSet<(usize, String)> = BTreeSet::new();
            for &i in &stopped {
                for _ in 0..self.rng.gen_range(0..3) {
                    let before = read_dir_files(&self.peers[i].base);
                    let (lb, db) = (self.lines.clone(), self.lines_deleted.clone());
                    self.offline_change(i);
                    let after = read_dir_files(&self.peers[i].base);
                    let changed: Vec<String> = before.keys().chain(after.keys()).filter(|k| before.get(*k) != after.get(*k)).cloned().collect();
                    for c in &changed {
                        let len = |files: &BTreeMap<String, Vec<u8>>| files.get(c).map(|t| t.len()).unwrap_or(255) as u8;
                        self.sched.extend([140 + i as u8, c.len() as u8, len(&before), len(&after)]);
                    }
                    let repeated = changed.iter().any(|c| !touched.insert((i, c.clone())));
                    if repeated {
                        for c in &changed {
                            match before.get(c) {
                                Some(b) => std::fs::write(self.peers[i].base.join(c), b).unwrap(),
                                None => {
                                    let _ = std::fs::remove_file(self.peers[i].base.join(c));
                                }
                            }
                        }
                        self.log(format!("p{i}: (taken back)"));
                        self.lines = lb;
                        self.lines_deleted = db;
                    }
                }
            }
            let mut order = stopped.clone();
            if order.len() > 1 && self.rng.gen_bool(0.5) {
                order.reverse();
            }
            for i in order {
                self.sched.push(160 + i as u8);
                self.start(i).await?;
                if self.rng.gen_bool(0.5) {
                    for l in 0..self.links.len() {
                        if !self.links[l].up {
                            self.link_up(l);
                        }
                    }
                    self.drain_links().await?;
                }
            }
            for l in 0..self.links.len() {
                if !self.links[l].up {
                    self.link_up(l);
                }
            }
            self.drain_links().await?;
            self.quiescent_check(true).await?;
            self.line_check()?;
        }
        Ok(())
    }

    /// Somebody opens a file, adds a labelled line, and closes it again.
    async fn editor_line(&mut self, i: usize) -> R<()> {
        let k = self.rng.gen_range(0..self.p.files);
        let path = self.file_name(k);
        if !self.peers[i].base.join(&path).exists() {
            return Ok(());
        }
        self.editor_connect(i).await?;
        let e = self.peers[i].editors.len() - 1;
        if self.editor_open(i, e, &path).await? {
            let line = self.new_line();
            let old = self.peers[i].editors[e].bufs[&path].text.clone();
            let starts: Vec<usize> = std::iter::once(0).chain(old.iter().enumerate().filter(|(_, c)| **c == '\n').map(|(k, _)| k + 1)).collect();
            let a = starts[self.rng.gen_range(0..starts.len())];
            let rep = Rep { start: a, end: a, text: text::text_of(&format!("{line}\n")) };
            let delta = vec![text::rep_json(&old, &rep)];
            self.push_out(i, e, "edit", &path, json!({"delta": delta, "revision": 0}));
            self.lines.insert(line, path.clone());
            self.st.lines_tracked += 1;
            self.editor_send(i, e).await?;
            if self.rng.gen_bool(0.5) {
                self.peers[i].editors[e].bufs.remove(&path);
                self.push_out(i, e, "close", &path, json!({}));
                self.st.closes += 1;
                self.editor_send(i, e).await?;
            }
        }
        self.editor_disconnect(i, e).await?;
        while !self.peers[i].watch.is_empty() {
            self.watch_step(i).await?;
        }
        Ok(())
    }

    fn line_check(&mut self) -> R<()> {
        let content = &self.peers[0].content;
        for (line, path) in &self.lines {
            let copies: usize = content.get(path).map_or(0, |t| t.lines().filter(|l| *l == line).count());
            let file_deleted = !content.contains_key(path);
            if self.lines_deleted.contains(line) {
                if copies > 0 && !file_deleted {
                    // Deleted by one side while the other one re-created the file: not counted.
                    continue;
                }
            } else if copies != 1 && !(file_deleted && copies == 0) {
                return viol("lost-or-doubled", format!("line {line} of {path} appears {copies} times after the peers met again: {:?}", content.get(path)));
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- scheduler

    pub async fn run(&mut self) -> R<()> {
        let steps = self.rng.gen_range(self.p.steps.0..=self.p.steps.1);
        let phases = if self.p.second_phase && self.rng.gen_bool(0.5) { 2 } else { 1 };
        for _ in 0..phases {
            for _ in 0..steps / phases {
                self.one_step().await?;
            }
            self.drain().await?;
            self.quiescent_check(true).await?;
        }
        Ok(())
    }

    fn weight(&self, k: &'static str) -> u32 {
        self.p.w.get(k).copied().unwrap_or(0)
    }

    async fn one_step(&mut self) -> R<()> {
        self.step += 1;
        self.st.steps += 1;
        self.collect_pings(false);
        #[derive(Clone, Copy)]
        enum Ev {
            Edit(usize, usize),
            Cursor(usize, usize),
            Open(usize, usize),
            Close(usize, usize),
            Save(usize, usize),
            Conn(usize),
            Disc(usize, usize),
            Send(usize, usize),
            Recv(usize, usize),
            Gen(usize, bool),
            Deliver(usize, bool),
            Cut(usize),
            Up(usize),
            Watch(usize),
            Ext(usize),
            Restart(usize),
        }
        let mut c: Vec<(u32, Ev)> = vec![];
        for i in 0..self.peers.len() {
            if self.peers[i].editors.len() < self.p.max_editors {
                c.push((self.weight("conn"), Ev::Conn(i)));
            }
            for e in 0..self.peers[i].editors.len() {
                let ed = &self.peers[i].editors[e];
                if !ed.bufs.is_empty() {
                    c.push((self.weight("edit"), Ev::Edit(i, e)));
                    c.push((self.weight("close"), Ev::Close(i, e)));
                    c.push((self.weight("save"), Ev::Save(i, e)));
                }
                if ed.bufs.len() < 3 {
                    let w = if ed.bufs.is_empty() { 6 } else { 1 };
                    c.push((self.weight("open") * w, Ev::Open(i, e)));
                }
                c.push((self.weight("cursor"), Ev::Cursor(i, e)));
                c.push((self.weight("disc"), Ev::Disc(i, e)));
                if !ed.outbox.is_empty() {
                    c.push((self.weight("send"), Ev::Send(i, e)));
                }
                if !ed.inbox.is_empty() {
                    c.push((self.weight("recv"), Ev::Recv(i, e)));
                }
            }
            if !self.peers[i].watch.is_empty() {
                c.push((self.weight("watch"), Ev::Watch(i)));
            }
            c.push((self.weight("ext"), Ev::Ext(i)));
            c.push((self.weight("restart"), Ev::Restart(i)));
        }
        for (l, link) in self.links.iter().enumerate() {
            if link.up {
                c.push((self.weight("cut"), Ev::Cut(l)));
                for side in [true, false] {
                    let s = if side { &link.sa } else { &link.sb };
                    if s.want_gen {
                        c.push((self.weight("gen"), Ev::Gen(l, side)));
                    }
                    if !s.queue.is_empty() {
                        c.push((self.weight("deliver"), Ev::Deliver(l, side)));
                    }
                }
            } else {
                c.push((self.weight("up"), Ev::Up(l)));
            }
        }
        let total: u32 = c.iter().map(|x| x.0).sum();
        if total == 0 {
            return Ok(());
        }
        let mut k = self.rng.gen_range(0..total);
        let mut ev = c[0].1;
        for (w, e) in &c {
            if k < *w {
                ev = *e;
                break;
            }
            k -= *w;
        }
        let code: u8;
        match ev {
            Ev::Edit(i, e) => {
                code = 1;
                self.user_edit(i, e);
                if self.p.immediate_editors {
                    self.settle_editor(i, e).await?;
                }
            }
            Ev::Cursor(i, e) => {
                code = 2;
                self.next_token += 1;
                let t = self.next_token;
                let k = self.rng.gen_range(0..self.p.files);
                let path = self.file_name(k);
                let out = self.push_out(i, e, "cursor", &path, json!({"ranges": Self::cursor_ranges(t)}));
                out.cursor = Some(t);
            }
            Ev::Open(i, e) => {
                code = 3;
                let k = self.rng.gen_range(0..self.p.files);
                let path = self.file_name(k);
                self.editor_open(i, e, &path).await?;
            }
            Ev::Close(i, e) => {
                code = 4;
                let paths: Vec<String> = self.peers[i].editors[e].bufs.keys().cloned().collect();
                let path = paths[self.rng.gen_range(0..paths.len())].clone();
                self.peers[i].editors[e].bufs.remove(&path);
                self.push_out(i, e, "close", &path, json!({}));
                self.st.closes += 1;
                self.log(format!("p{i}: user closes {path}"));
            }
            Ev::Save(i, e) => {
                code = 5;
                let paths: Vec<String> = self.peers[i].editors[e].bufs.keys().cloned().collect();
                let path = paths[self.rng.gen_range(0..paths.len())].clone();
                let b = &self.peers[i].editors[e].bufs[&path];
                if !b.gone {
                    let full = self.peers[i].base.join(&path);
                    let existed = full.exists();
                    let s = text::string_of(&b.text);
                    if self.rng.gen_bool(0.3) && self.peers[i].editors.len() < self.p.max_editors {
                        // Bring the editor up to date, save, and let a second editor open the file.
                        self.settle_editor(i, e).await?;
                        if let Some(b) = self.peers[i].editors[e].bufs.get(&path) {
                            if !b.gone {
                                let s = text::string_of(&b.text);
                                std::fs::create_dir_all(full.parent().unwrap()).unwrap();
                                std::fs::write(&full, s).unwrap();
                                self.queue_ext(i, &path, existed, true);
                                self.editor_connect(i).await?;
                                let e2 = self.peers[i].editors.len() - 1;
                                self.editor_open(i, e2, &path).await?;
                            }
                        }
                    } else {
                        std::fs::create_dir_all(full.parent().unwrap()).unwrap();
                        std::fs::write(&full, s).unwrap();
                        self.log(format!("p{i}: user saves {path}"));
                        self.queue_ext(i, &path, existed, true);
                    }
                }
            }
            Ev::Conn(i) => {
                code = 6;
                self.editor_connect(i).await?;
            }
            Ev::Disc(i, e) => {
                code = 7;
                self.editor_disconnect(i, e).await?;
            }
            Ev::Send(i, e) => {
                code = 8;
                self.editor_send(i, e).await?;
            }
            Ev::Recv(i, e) => {
                code = 9;
                self.editor_recv(i, e)?;
            }
            Ev::Gen(l, s) => {
                code = 10;
                self.link_gen(l, s).await?;
            }
            Ev::Deliver(l, s) => {
                code = 11;
                self.link_deliver(l, s).await?;
            }
            Ev::Cut(l) => {
                code = 12;
                self.st.link_cuts += 1;
                self.log(format!("link {l} cut"));
                self.link_down(l);
            }
            Ev::Up(l) => {
                code = 13;
                self.link_up(l);
            }
            Ev::Watch(i) => {
                code = 14;
                self.watch_step(i).await?;
            }
            Ev::Ext(i) => {
                code = 15;
                self.external(i).await?;
            }
            Ev::Restart(i) => {
                code = 16;
                let orderly = self.rng.gen_bool(0.7);
                self.stop(i, orderly).await?;
                self.start(i).await?;
            }
        }
        self.sched.push(code);
        Ok(())
    }

    async fn settle_editor(&mut self, i: usize, e: usize) -> R<()> {
        loop {
            if !self.peers[i].editors[e].outbox.is_empty() {
                self.editor_send(i, e).await?;
            } else if !self.peers[i].editors[e].inbox.is_empty() {
                self.editor_recv(i, e)?;
            } else {
                return Ok(());
            }
        }
    }

    /// Lets everything that is on its way arrive, in random order, with all links up.
    pub async fn drain(&mut self) -> R<()> {
        for l in 0..self.links.len() {
            if !self.links[l].up {
                self.link_up(l);
            }
        }
        for _ in 0..200_000 {
            self.collect_pings(false);
            let mut c: Vec<(u8, usize, usize)> = vec![];
            for i in 0..self.peers.len() {
                for e in 0..self.peers[i].editors.len() {
                    if !self.peers[i].editors[e].outbox.is_empty() {
                        c.push((0, i, e));
                    }
                    if !self.peers[i].editors[e].inbox.is_empty() {
                        c.push((1, i, e));
                    }
                }
                if !self.peers[i].watch.is_empty() {
                    c.push((2, i, 0));
                }
            }
            for (l, link) in self.links.iter().enumerate() {
                for side in [true, false] {
                    let s = if side { &link.sa } else { &link.sb };
                    if s.want_gen {
                        c.push((3, l, side as usize));
                    }
                    if !s.queue.is_empty() {
                        c.push((4, l, side as usize));
                    }
                }
            }
            if c.is_empty() {
                return Ok(());
            }
            let (k, x, y) = c[self.rng.gen_range(0..c.len())];
            self.sched.push(20 + k);
            match k {
                0 => self.editor_send(x, y).await?,
                1 => self.editor_recv(x, y)?,
                2 => self.watch_step(x).await?,
                3 => self.link_gen(x, y == 1).await?,
                _ => self.link_deliver(x, y == 1).await?,
            }
        }
        viol("livelock", "messages keep flowing although nobody changes anything")
    }

    pub async fn quiescent_check(&mut self, editors: bool) -> R<()> {
        self.st.quiescent_checks += 1;
        let n = self.peers.len();
        for i in 0..n {
            self.probe(i).await?;
        }
        for i in 1..n {
            self.st.replicas_compared += 1;
            if self.peers[i].content != self.peers[0].content {
                let (a, b) = (&self.peers[0].content, &self.peers[i].content);
                let keys: BTreeSet<&String> = a.keys().chain(b.keys()).collect();
                let diff: Vec<String> = keys.into_iter().filter(|k| a.get(*k) != b.get(*k)).map(|k| format!("{k}: {:?} vs {:?}", a.get(k), b.get(k))).collect();
                return viol("convergence", format!("p0 and p{i} differ although everything was exchanged: {}", diff.join("; ")));
            }
        }
        for i in 0..n {
            let open = self.all_open(i);
            let joining = !self.peers[i].is_host && self.peers[i].starts <= 1;
            let disk = read_dir_files(&self.peers[i].base);
            let paths: BTreeSet<String> = disk.keys().chain(self.peers[i].content.keys()).cloned().collect();
            for path in paths {
                if open.contains(&path) {
                    continue;
                }
                let d = disk.get(&path).map(|b| String::from_utf8_lossy(b).into_owned());
                let c = self.peers[i].content.get(&path).cloned();
                if c.is_none() && joining {
                    continue;
                }
                if d != c {
                    return viol("disk", format!("p{i}: {path}: on disk {d:?}, shared content {c:?}"));
                }
            }
            if !editors {
                continue;
            }
            for e in &self.peers[i].editors {
                if !e.pending.is_empty() {
                    return viol("response", format!("p{i}: editor #{} never got a response to {:?}", e.id, e.pending));
                }
                for (path, b) in &e.bufs {
                    if b.gone {
                        continue;
                    }
                    let c = self.peers[i].content.get(path).cloned();
                    let t = text::string_of(&b.text);
                    if c.as_deref() != Some(&t) {
                        return viol("editor", format!("p{i}: editor #{} shows {t:?} for {path}, shared content is {c:?}", e.id));
                    }
                }
            }
        }
        if self.p.labels && editors {
            self.label_check()?;
        }
        if editors {
            self.cursor_check()?;
        }
        Ok(())
    }

    fn label_check(&mut self) -> R<()> {
        let mut seen: HashMap<char, (String, usize)> = HashMap::new();
        for (path, t) in &self.peers[0].content {
            for (k, c) in t.chars().filter(|c| Self::is_label(*c)).enumerate() {
                if let Some((p2, _)) = seen.insert(c, (path.clone(), k)) {
                    return viol("doubled", format!("character {c:?} (U+{:X}) appears twice: in {p2} and {path}", c as u32));
                }
            }
        }
        for (c, path) in &self.inserted {
            if self.void.contains(c) {
                continue;
            }
            let del = self.deleted.contains(c);
            match seen.get(c) {
                None if !del => return viol("lost", format!("character {c:?} (U+{:X}) of {path} was accepted, never deleted, and is missing: {:?}", *c as u32, self.peers[0].content.get(path))),
                Some((p2, _)) if del => return viol("undeleted", format!("character {c:?} (U+{:X}) was deleted but is still in {p2}", *c as u32)),
                Some((p2, _)) if p2 != path => return viol("misplaced", format!("character {c:?} belongs to {path} but is in {p2}")),
                _ => {}
            }
        }
        for (c, (p, _)) in &seen {
            if !self.inserted.contains_key(c) && !self.void.contains(c) {
                return viol("invented", format!("character {c:?} in {p} was never accepted from anybody"));
            }
        }
        for seq in &self.observed {
            let mut last: Option<(usize, char)> = None;
            for c in seq {
                if let Some((_, k)) = seen.get(c) {
                    if let Some((lk, lc)) = last {
                        self.st.order_pairs += 1;
                        if *k < lk {
                            return viol("reordered", format!("a user saw {lc:?} before {c:?}, the merged content has them the other way round"));
                        }
                    }
                    last = Some((*k, *c));
                }
            }
        }
        Ok(())
    }

    fn cursor_check(&mut self) -> R<()> {
        // Latest position of every live editor is what all others, who were there, see.
        let authors: Vec<(usize, u64, usize, String)> = self
            .peers
            .iter()
            .flat_map(|p| p.editors.iter())
            .filter_map(|e| e.last_cursor.as_ref().map(|(t, s, p)| (e.uid, *t, *s, p.clone())))
            .collect();
        for (uid, token, step, _path) in authors {
            for (i, p) in self.peers.iter().enumerate() {
                for e in &p.editors {
                    if e.uid == uid || e.connected_step >= step {
                        continue;
                    }
                    let view = self.userid_of.get(&uid).and_then(|u| e.views.get(u));
                    if view != Some(&Some(token)) {
                        return viol("cursor", format!("p{i}: editor u{} sees {view:?} as the cursor of u{uid}, which is {token}", e.uid));
                    }
                }
            }
        }
        for (uid, (step, _)) in &self.removed_users {
            let Some(userid) = self.userid_of.get(uid) else { continue };
            for (i, p) in self.peers.iter().enumerate() {
                for e in &p.editors {
                    if e.connected_step >= *step {
                        continue;
                    }
                    if let Some(Some(t)) = e.views.get(userid) {
                        return viol("cursor-stays", format!("p{i}: editor u{} still sees the cursor {t} of u{uid}, who left", e.uid));
                    }
                }
            }
        }
        Ok(())
    }

    /// Copies that were created independently for the same name (conflict workloads).
    pub fn copies(&self) -> &BTreeMap<String, Vec<String>> {
        &self.conflict_copies
    }

    pub fn sched_hash(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.sched.hash(&mut h);
        h.finish()
    }
    pub fn cleanup(&mut self) {
        for p in &mut self.peers {
            p.editors.clear();
            p.handle = None;
        }
    }
}

pub fn am_texts(doc: &AutoCommit, key: &str) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    if let Ok(Some((AmValue::Object(ObjType::Map), m))) = doc.get(ROOT, key) {
        for k in doc.keys(&m).collect::<Vec<_>>() {
            if let Ok(Some((AmValue::Object(ObjType::Text), t))) = doc.get(&m, k.as_str()) {
                out.insert(k, doc.text(&t).unwrap_or_default());
            }
        }
    }
    out
}
