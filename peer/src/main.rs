//! A stand-alone peer that speaks the sync protocol without using any of the daemon's code. It is
//! controlled with JSON lines on stdin and reports on stdout. It can be a passive replica, cut its
//! traffic into pieces, stop reading, stay silent, or share documents no daemon would produce.

use anyhow::{anyhow, bail, Context, Result};
use automerge::marks::{ExpandMark, Mark};
use automerge::sync::{Message, State, SyncDoc};
use automerge::transaction::Transactable;
use automerge::{AutoCommit, ObjId, ObjType, Prop, ReadDoc, ScalarValue, Value as AmValue, ROOT};
use futures::{AsyncReadExt, AsyncWriteExt, StreamExt};
use libp2p::core::transport::upgrade::Version;
use libp2p::multiaddr::Multiaddr;
use libp2p::swarm::SwarmEvent;
use libp2p::{identity::Keypair, noise, pnet, tcp, yamux, PeerId, Stream, StreamProtocol, Transport};
use libp2p_stream as stream;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use sha2::Sha256;
use std::time::Duration;
use tokio::io::AsyncBufReadExt;
use tokio::sync::{mpsc, watch};

const PROTOCOL: StreamProtocol = StreamProtocol::new("/ethersync");

// The initial change every daemon starts from, so that independent documents can be merged.
const INITIAL: &[u8] = &[
    133, 111, 74, 131, 61, 157, 231, 85, 0, 118, 1, 16, 120, 107, 104, 47, 215, 9, 76, 32, 132, 136, 60, 124, 152,
    120, 144, 182, 1, 143, 164, 31, 13, 102, 61, 139, 125, 246, 189, 135, 97, 16, 167, 63, 30, 215, 249, 60, 227, 113,
    111, 61, 55, 138, 234, 94, 30, 142, 166, 78, 250, 6, 1, 2, 3, 2, 19, 2, 35, 2, 64, 2, 86, 2, 7, 21, 14, 33, 2, 35,
    2, 52, 1, 66, 2, 86, 2, 128, 1, 2, 127, 0, 127, 1, 127, 2, 127, 0, 127, 0, 127, 7, 126, 5, 102, 105, 108, 101,
    115, 6, 115, 116, 97, 116, 101, 115, 2, 0, 2, 1, 2, 2, 0, 2, 0, 2, 0, 0,
];

fn say(value: Value) {
    println!("{value}");
}

enum Incoming {
    Frame(Vec<u8>),
    Closed(String),
}

struct Connection {
    write_tx: mpsc::UnboundedSender<Vec<u8>>,
    reading: watch::Sender<bool>,
}

struct Peer {
    doc: AutoCommit,
    state: State,
    auto: bool,
    frag: (usize, u64),
    connection: Option<Connection>,
    generation: u64,
    messages_in: u64,
    bytes_in: u64,
    messages_out: u64,
    decode_errors: u64,
    largest_in: u64,
}

impl Peer {
    fn new() -> Self {
        Self {
            doc: AutoCommit::load(INITIAL).expect("initial document"),
            state: State::new(),
            auto: true,
            frag: (0, 0),
            connection: None,
            generation: 0,
            messages_in: 0,
            bytes_in: 0,
            messages_out: 0,
            decode_errors: 0,
            largest_in: 0,
        }
    }

    fn write(&mut self, bytes: Vec<u8>) {
        if let Some(connection) = &self.connection {
            let _ = connection.write_tx.send(bytes);
        }
    }

    fn frame(&mut self, body: &[u8]) {
        let mut bytes = (body.len() as u32).to_be_bytes().to_vec();
        bytes.extend_from_slice(body);
        self.write(bytes);
    }

    fn sync(&mut self) -> bool {
        if self.connection.is_none() {
            return false;
        }
        let message = self.doc.sync().generate_sync_message(&mut self.state);
        match message {
            Some(message) => {
                self.messages_out += 1;
                let body = message.encode();
                self.frame(&body);
                true
            }
            None => false,
        }
    }

    fn received(&mut self, body: Vec<u8>) {
        self.messages_in += 1;
        self.bytes_in += body.len() as u64;
        self.largest_in = self.largest_in.max(body.len() as u64);
        let message = match Message::decode(&body) {
            Ok(message) => message,
            Err(error) => {
                self.decode_errors += 1;
                say(json!({"ev": "decode_error", "error": error.to_string(), "len": body.len()}));
                return;
            }
        };
        if let Err(error) = self.doc.sync().receive_sync_message(&mut self.state, message) {
            say(json!({"ev": "apply_error", "error": error.to_string()}));
        }
        if self.auto {
            self.sync();
        }
    }

    fn attach(&mut self, stream: Stream, incoming_tx: mpsc::UnboundedSender<(u64, Incoming)>) {
        self.state = State::new();
        self.generation += 1;
        let generation = self.generation;
        let (mut reader, mut writer) = stream.split();
        let (write_tx, mut write_rx) = mpsc::unbounded_channel::<Vec<u8>>();
        let (reading, mut reading_rx) = watch::channel(true);
        let (size, delay_us) = self.frag;
        // Both in the same task: the stream only remembers one task to wake up.
        let write = async move {
            let mut chunks = 0;
            while let Some(bytes) = write_rx.recv().await {
                let mut rest = &bytes[..];
                while !rest.is_empty() {
                    // Not forever, large messages would take minutes.
                    let chunk_size = if size == 0 || chunks > 3000 { rest.len() } else { size.min(rest.len()) };
                    let (chunk, others) = rest.split_at(chunk_size);
                    rest = others;
                    chunks += 1;
                    if writer.write_all(chunk).await.is_err() || writer.flush().await.is_err() {
                        return;
                    }
                    if delay_us > 0 && chunks < 3000 {
                        tokio::time::sleep(Duration::from_micros(delay_us)).await;
                    }
                }
            }
            let _ = writer.close().await;
        };
        let read = async move {
            loop {
                while !*reading_rx.borrow() {
                    if reading_rx.changed().await.is_err() {
                        return;
                    }
                }
                let mut len = [0u8; 4];
                let result = tokio::select! {
                    result = reader.read_exact(&mut len) => result,
                    changed = reading_rx.changed() => {
                        if changed.is_err() { return; }
                        // Only happens between frames in our uses.
                        continue;
                    }
                };
                if let Err(error) = result {
                    let _ = incoming_tx.send((generation, Incoming::Closed(error.to_string())));
                    return;
                }
                let mut body = vec![0; u32::from_be_bytes(len) as usize];
                if let Err(error) = reader.read_exact(&mut body).await {
                    let _ = incoming_tx.send((generation, Incoming::Closed(error.to_string())));
                    return;
                }
                if incoming_tx.send((generation, Incoming::Frame(body))).is_err() {
                    return;
                }
            }
        };
        tokio::spawn(async move { tokio::join!(write, read) });
        self.connection = Some(Connection { write_tx, reading });
    }

    fn resolve(&self, path: &[Value]) -> Result<ObjId> {
        let mut obj = ROOT;
        for step in path {
            let prop = to_prop(step)?;
            match self.doc.get(&obj, prop)? {
                Some((AmValue::Object(_), id)) => obj = id,
                _ => bail!("no object at {step}"),
            }
        }
        Ok(obj)
    }

    fn dump(&mut self) -> Value {
        let mut files = serde_json::Map::new();
        let mut states = serde_json::Map::new();
        let mut odd = vec![];
        for (name, map) in [("files", &mut files), ("states", &mut states)] {
            let Ok(Some((AmValue::Object(ObjType::Map), top))) = self.doc.get(ROOT, name) else {
                odd.push(name.to_string());
                continue;
            };
            let keys: Vec<String> = self.doc.keys(&top).collect();
            for key in keys {
                match self.doc.get(&top, key.as_str()) {
                    Ok(Some((AmValue::Object(ObjType::Text), id))) => {
                        map.insert(key, json!(self.doc.text(id).unwrap_or_default()));
                    }
                    _ => odd.push(format!("{name}/{key}")),
                }
            }
        }
        let mut heads: Vec<String> = self.doc.get_heads().iter().map(|h| h.to_string()).collect();
        heads.sort();
        json!({"ev": "dump", "files": files, "states": states, "odd": odd, "heads": heads,
            "messages_in": self.messages_in, "bytes_in": self.bytes_in, "largest_in": self.largest_in,
            "messages_out": self.messages_out, "decode_errors": self.decode_errors,
            "connected": self.connection.is_some()})
    }

    /// Everything that was ever part of the document, including deleted text.
    fn history_text(&mut self) -> Vec<u8> {
        self.doc.save_nocompress()
    }

    fn text(&self, path: &str) -> Result<ObjId> {
        let files = self.resolve(&[json!("files")])?;
        match self.doc.get(files, path)? {
            Some((AmValue::Object(ObjType::Text), id)) => Ok(id),
            _ => Err(anyhow!("no text {path}")),
        }
    }

    fn am(&mut self, cmd: &Value) -> Result<()> {
        let path = cmd["path"].as_array().context("path")?.clone();
        let obj = self.resolve(&path)?;
        let key = &cmd["key"];
        match cmd["act"].as_str().context("act")? {
            "put" => self.doc.put(obj, to_prop(key)?, to_scalar(&cmd["value"])?)?,
            "put_object" => {
                self.doc.put_object(obj, to_prop(key)?, to_type(&cmd["value"])?)?;
            }
            "insert" => self.doc.insert(obj, to_index(key)?, to_scalar(&cmd["value"])?)?,
            "insert_object" => {
                self.doc.insert_object(obj, to_index(key)?, to_type(&cmd["value"])?)?;
            }
            "delete" => self.doc.delete(obj, to_prop(key)?)?,
            "increment" => self.doc.increment(obj, to_prop(key)?, cmd["value"].as_i64().unwrap_or(1))?,
            "splice" => self.doc.splice_text(
                obj,
                to_index(key)?,
                cmd["del"].as_i64().unwrap_or(0) as isize,
                cmd["value"].as_str().unwrap_or(""),
            )?,
            "mark" => self.doc.mark(
                obj,
                Mark::new("bold".to_string(), true, to_index(key)?, to_index(&cmd["end"])?),
                ExpandMark::Both,
            )?,
            other => bail!("unknown act {other}"),
        }
        Ok(())
    }

    fn command(&mut self, cmd: &Value) -> Result<Value> {
        let path = cmd["path"].as_str().unwrap_or("");
        let text = cmd["text"].as_str().unwrap_or("");
        match cmd["op"].as_str().context("op")? {
            "dump" => return Ok(self.dump()),
            "find" => {
                let history = self.history_text();
                let needle = cmd["needle"].as_str().context("needle")?.as_bytes().to_vec();
                let found = history.windows(needle.len()).any(|window| window == needle);
                return Ok(json!({"ev": "find", "found": found, "size": history.len()}));
            }
            "heads_of" => {
                let heads: Vec<String> = self.doc.get_heads().iter().map(|h| h.to_string()).collect();
                return Ok(json!({"ev": "heads_of", "heads": heads}));
            }
            "new" => {
                let files = self.resolve(&[json!("files")])?;
                let id = self.doc.put_object(files, path, ObjType::Text)?;
                self.doc.splice_text(id, 0, 0, text)?;
            }
            "splice" => {
                let id = self.text(path)?;
                self.doc.splice_text(
                    id,
                    cmd["pos"].as_u64().unwrap_or(0) as usize,
                    cmd["del"].as_i64().unwrap_or(0) as isize,
                    text,
                )?;
            }
            "remove" => {
                let files = self.resolve(&[json!("files")])?;
                self.doc.delete(files, path)?;
            }
            "state" => {
                let states = self.resolve(&[json!("states")])?;
                let id = self.doc.put_object(states, cmd["key"].as_str().context("key")?, ObjType::Text)?;
                self.doc.splice_text(id, 0, 0, text)?;
            }
            "am" => self.am(cmd)?,
            "conflict" => {
                // The same key set by two authors who did not know of each other.
                let mut other = self.doc.fork();
                let files = self.resolve(&[json!("files")])?;
                let id = self.doc.put_object(files.clone(), path, ObjType::Text)?;
                self.doc.splice_text(id, 0, 0, text)?;
                let id = other.put_object(files, path, ObjType::Text)?;
                other.splice_text(id, 0, 0, cmd["other"].as_str().unwrap_or(""))?;
                self.doc.merge(&mut other)?;
            }
            "fresh" => {
                // Forget everything and start a document of our own.
                self.doc = if cmd["empty"].as_bool().unwrap_or(false) {
                    AutoCommit::new()
                } else {
                    AutoCommit::load(INITIAL)?
                };
                self.state = State::new();
            }
            "sync" => {
                let sent = self.sync();
                return Ok(json!({"ev": "ok", "sent": sent}));
            }
            "auto" => self.auto = cmd["on"].as_bool().unwrap_or(true),
            "frag" => {
                self.frag = (
                    cmd["size"].as_u64().unwrap_or(0) as usize,
                    cmd["delay_us"].as_u64().unwrap_or(0),
                );
            }
            "read" => {
                if let Some(connection) = &self.connection {
                    let _ = connection.reading.send(cmd["on"].as_bool().unwrap_or(true));
                }
            }
            "raw" => {
                let bytes = unhex(cmd["hex"].as_str().context("hex")?)?;
                self.write(bytes);
            }
            "frame" => {
                let bytes = unhex(cmd["hex"].as_str().context("hex")?)?;
                self.frame(&bytes);
            }
            "mutate" => {
                // A sync message that would be sent now, damaged.
                let mut state = State::new();
                let mut rng = rand::rngs::StdRng::seed_from_u64(cmd["seed"].as_u64().unwrap_or(0));
                // A message with our changes needs to know what the other side has.
                state.their_heads = Some(vec![]);
                state.their_need = Some(vec![]);
                state.their_have = Some(vec![]);
                let message = self.doc.sync().generate_sync_message(&mut state);
                let mut bytes = message.map(|m| m.encode()).unwrap_or_else(|| vec![0x42, 0, 0, 0, 0]);
                for _ in 0..rng.gen_range(1..4) {
                    match rng.gen_range(0..4) {
                        0 if !bytes.is_empty() => {
                            let i = rng.gen_range(0..bytes.len());
                            bytes[i] ^= 1 << rng.gen_range(0..8);
                        }
                        1 if !bytes.is_empty() => {
                            let i = rng.gen_range(0..bytes.len());
                            bytes[i] = rng.gen();
                        }
                        2 => bytes.truncate(rng.gen_range(0..=bytes.len())),
                        _ => {
                            let i = rng.gen_range(0..=bytes.len());
                            bytes.insert(i, rng.gen());
                        }
                    }
                }
                self.frame(&bytes);
                return Ok(json!({"ev": "ok", "len": bytes.len()}));
            }
            "close" => {
                self.connection = None;
                self.generation += 1;
            }
            other => bail!("unknown op {other}"),
        }
        let changing = ["new", "splice", "remove", "state", "am", "conflict", "fresh"];
        if self.auto && changing.contains(&cmd["op"].as_str().unwrap_or("")) {
            self.sync();
        }
        Ok(json!({"ev": "ok"}))
    }
}

fn to_prop(value: &Value) -> Result<Prop> {
    match value {
        Value::String(key) => Ok(Prop::Map(key.clone())),
        Value::Number(n) => Ok(Prop::Seq(n.as_u64().context("index")? as usize)),
        _ => bail!("bad key"),
    }
}

fn to_index(value: &Value) -> Result<usize> {
    Ok(value.as_u64().context("index")? as usize)
}

fn to_type(value: &Value) -> Result<ObjType> {
    Ok(match value.as_str().context("type")? {
        "map" => ObjType::Map,
        "list" => ObjType::List,
        "text" => ObjType::Text,
        "table" => ObjType::Table,
        other => bail!("unknown type {other}"),
    })
}

fn to_scalar(value: &Value) -> Result<ScalarValue> {
    Ok(match value {
        Value::Null => ScalarValue::Null,
        Value::Bool(b) => ScalarValue::Boolean(*b),
        Value::Number(n) if n.is_i64() => ScalarValue::Int(n.as_i64().unwrap_or(0)),
        Value::Number(n) => ScalarValue::F64(n.as_f64().unwrap_or(0.0)),
        Value::String(s) if s == "@counter" => ScalarValue::counter(1),
        Value::String(s) if s == "@timestamp" => ScalarValue::Timestamp(1),
        Value::String(s) if s == "@bytes" => ScalarValue::Bytes(vec![0, 255, 1]),
        Value::String(s) => ScalarValue::Str(s.as_str().into()),
        _ => bail!("bad scalar"),
    })
}

fn unhex(text: &str) -> Result<Vec<u8>> {
    (0..text.len() / 2)
        .map(|i| u8::from_str_radix(&text[2 * i..2 * i + 2], 16).map_err(Into::into))
        .collect()
}

#[tokio::main(flavor = "current_thread")]
async fn main() -> Result<()> {
    let secret = std::env::var("VPEER_SECRET").unwrap_or_else(|_| "default-passphrase".into());
    let mut psk = [0u8; 32];
    pbkdf2::pbkdf2_hmac::<Sha256>(secret.as_bytes(), b"ethersync", 1000, &mut psk);
    let with_psk = std::env::var("VPEER_NO_PSK").is_err();

    let builder = libp2p::SwarmBuilder::with_existing_identity(Keypair::generate_ed25519()).with_tokio();
    let mut swarm = if with_psk {
        builder
            .with_other_transport(|keypair| {
                let psk = pnet::PreSharedKey::new(psk);
                let transport = tcp::tokio::Transport::new(tcp::Config::new().nodelay(true))
                    .and_then(move |socket, _| pnet::PnetConfig::new(psk).handshake(socket));
                Ok(transport
                    .upgrade(Version::V1Lazy)
                    .authenticate(noise::Config::new(keypair)?)
                    .multiplex(yamux::Config::default()))
            })?
            .with_behaviour(|_| stream::Behaviour::new())?
            .with_swarm_config(|c| c.with_idle_connection_timeout(Duration::from_secs(3600)))
            .build()
    } else {
        builder
            .with_other_transport(|keypair| {
                Ok(tcp::tokio::Transport::new(tcp::Config::new().nodelay(true))
                    .upgrade(Version::V1Lazy)
                    .authenticate(noise::Config::new(keypair)?)
                    .multiplex(yamux::Config::default()))
            })?
            .with_behaviour(|_| stream::Behaviour::new())?
            .with_swarm_config(|c| c.with_idle_connection_timeout(Duration::from_secs(3600)))
            .build()
    };

    let mut control = swarm.behaviour().new_control();
    let mut incoming_streams = control.accept(PROTOCOL).map_err(|e| anyhow!("{e}"))?;
    let (incoming_tx, mut incoming_rx) = mpsc::unbounded_channel::<(u64, Incoming)>();
    let (stream_tx, mut stream_rx) = mpsc::unbounded_channel::<Result<Stream, String>>();
    let mut lines = tokio::io::BufReader::new(tokio::io::stdin()).lines();
    let mut peer = Peer::new();
    let mut remote: Option<PeerId> = None;
    let mut fresh_stream = false;
    let mut reopened = 0;

    loop {
        tokio::select! {
            event = swarm.select_next_some() => match event {
                SwarmEvent::NewListenAddr { address, .. } => say(json!({"ev": "listening", "addr": address.to_string()})),
                SwarmEvent::ConnectionEstablished { peer_id, .. } => {
                    remote = Some(peer_id);
                    say(json!({"ev": "connected", "peer": peer_id.to_string()}));
                }
                SwarmEvent::ConnectionClosed { .. } => say(json!({"ev": "disconnected"})),
                SwarmEvent::OutgoingConnectionError { error, .. } => say(json!({"ev": "dial_error", "error": error.to_string()})),
                SwarmEvent::IncomingConnectionError { error, .. } => say(json!({"ev": "incoming_error", "error": error.to_string()})),
                _ => {}
            },
            Some((_, stream)) = incoming_streams.next() => {
                peer.attach(stream, incoming_tx.clone());
                say(json!({"ev": "stream", "direction": "in"}));
                if peer.auto { peer.sync(); }
            }
            Some(result) = stream_rx.recv() => match result {
                Ok(stream) => {
                    fresh_stream = true;
                    peer.attach(stream, incoming_tx.clone());
                    say(json!({"ev": "stream", "direction": "out"}));
                    if peer.auto { peer.sync(); }
                }
                Err(error) => say(json!({"ev": "stream_error", "error": error})),
            },
            Some((generation, incoming)) = incoming_rx.recv() => {
                if generation == peer.generation {
                    match incoming {
                        Incoming::Frame(body) => { fresh_stream = false; peer.received(body) }
                        Incoming::Closed(error) => {
                            peer.connection = None;
                            // libp2p drops streams when several peers connect at the same instant.
                            if fresh_stream && peer.auto && remote.is_some() && reopened < 10 {
                                reopened += 1;
                                let mut control = swarm.behaviour().new_control();
                                let stream_tx = stream_tx.clone();
                                let remote = remote.unwrap();
                                tokio::spawn(async move {
                                    tokio::time::sleep(Duration::from_millis(200)).await;
                                    let result = control.open_stream(remote, PROTOCOL).await.map_err(|e| e.to_string());
                                    let _ = stream_tx.send(result);
                                });
                                say(json!({"ev": "reopen"}));
                            } else {
                                say(json!({"ev": "closed", "error": error}));
                            }
                        }
                    }
                }
            }
            line = lines.next_line() => {
                let Some(line) = line? else { return Ok(()) };
                let cmd: Value = match serde_json::from_str(&line) {
                    Ok(cmd) => cmd,
                    Err(error) => { say(json!({"ev": "error", "error": error.to_string()})); continue }
                };
                match cmd["op"].as_str() {
                    Some("dial") => {
                        let result = cmd["addr"].as_str().unwrap_or("").parse::<Multiaddr>()
                            .map_err(|e| e.to_string())
                            .and_then(|addr| swarm.dial(addr).map_err(|e| e.to_string()));
                        match result {
                            Ok(()) => say(json!({"ev": "ok"})),
                            Err(error) => say(json!({"ev": "dial_error", "error": error})),
                        }
                    }
                    Some("listen") => {
                        let addr = format!("/ip4/127.0.0.1/tcp/{}", cmd["port"].as_u64().unwrap_or(0));
                        match swarm.listen_on(addr.parse()?) {
                            Ok(_) => say(json!({"ev": "ok"})),
                            Err(error) => say(json!({"ev": "error", "error": error.to_string()})),
                        }
                    }
                    Some("open") => {
                        let Some(remote) = remote else { say(json!({"ev": "error", "error": "not connected"})); continue };
                        let mut control = swarm.behaviour().new_control();
                        let stream_tx = stream_tx.clone();
                        tokio::spawn(async move {
                            let result = control.open_stream(remote, PROTOCOL).await.map_err(|e| e.to_string());
                            let _ = stream_tx.send(result);
                        });
                        say(json!({"ev": "ok"}));
                    }
                    Some("disconnect") => {
                        peer.connection = None;
                        peer.generation += 1;
                        if let Some(remote) = remote { let _ = swarm.disconnect_peer_id(remote); }
                        say(json!({"ev": "ok"}));
                    }
                    _ => match peer.command(&cmd) {
                        Ok(value) => say(value),
                        Err(error) => say(json!({"ev": "error", "error": error.to_string()})),
                    }
                }
            }
        }
    }
}
