//! C08-C11, C13, C14, C18-C21: the document actor with real files, editors behind real sockets and a
//! peer, against a plain model of texts, open files and messages.
//!
//! Every check names the properties it belongs to; a test reports only what concerns its own.
//! Runs unprivileged, see `scratch`.

use automerge::sync::{State as SyncState, SyncDoc};
use automerge::transaction::Transactable;
use automerge::{AutoCommit, ObjId, ObjType, ReadDoc, ROOT};
use contract_replay::scratch::*;
use contract_replay::text::*;
use contract_replay::*;
use ethersync::daemon::{DocMessage, DocumentActorHandle};
use ethersync::editor::EditorProtocolCodec;
use ethersync::types::{EditorTextDelta, Position, Range};
use ethersync::watcher::WatcherEvent;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::net::UnixStream as StdStream;
use std::path::{Path, PathBuf};
use std::time::Duration;
use tokio::net::UnixStream;
use tokio::sync::oneshot;
use tokio_util::codec::FramedWrite;

/// Shareable names.
const FILES: &[&str] = &["a", "b", "d/a", "d/n", "ü x ", "text", "new/deep/f", "c.txt", "c.md", "q/w/e/r/t/y"];
/// Names that ignore rules or the fixed list exclude.
const IGNORED: &[&str] = &["x.ign", "d/y.ign", "secret/f", ".git/config", ".ethersync/z", "d/.git/k", "sub/.ethersync/k", "x.above", "x.excl", "x.gitign", "x.global"];

type Texts = BTreeMap<String, Vec<char>>;

/// What went wrong and which properties that concerns.
struct Fail(Vec<&'static str>, String);
type Res<T = ()> = Result<T, Fail>;

fn fail<T>(props: &[&'static str], what: impl Into<String>) -> Res<T> {
    Err(Fail(props.to_vec(), what.into()))
}

#[derive(Clone)]
struct Buf {
    text: Vec<char>,
    made: usize,
    applied: usize,
    /// Revision of the last edit sent.
    confirmed: usize,
}

struct Editor {
    stream: StdStream,
    partial: Vec<u8>,
    inbox: VecDeque<Value>,
    open: BTreeMap<String, Buf>,
    /// What it sent and has not been handled.
    next_id: usize,
    userid: Option<String>,
}

impl Editor {
    fn take(&mut self) {
        let mut b = [0u8; 65536];
        loop {
            match self.stream.read(&mut b) {
                Ok(0) | Err(_) => break,
                Ok(n) => self.partial.extend_from_slice(&b[..n]),
            }
        }
    }
}

/// Messages one editor got during a step.
#[derive(Default)]
struct Got {
    responses: Vec<Value>,
    edits: Vec<Value>,
    cursors: Vec<Value>,
}

struct World {
    rt: tokio::runtime::Runtime,
    scratch: Scratch,
    base: PathBuf,
    handle: DocumentActorHandle,
    editors: BTreeMap<usize, Editor>,
    peer: AutoCommit,
    peer_state: SyncState,
    daemon_state: SyncState,
    /// Expected shared texts.
    shared: Texts,
    /// Files whose editor disappeared: nobody promised what is on disk.
    loose: BTreeSet<String>,
    persisted: bool,
    next_editor: usize,
    /// How many editors come and go between two of those seen here.
    stride: usize,
    cursor_serial: usize,
    /// Editors come through the daemon's own socket.
    socket: Option<PathBuf>,
}

/// Requests with this id only tell when everything before them has been handled.
const MARKER: u64 = 999_999_999;

fn gen_ranges(rng: &mut Rng) -> Vec<Range> {
    let n = if rng.chance(4) { 15 + rng.below(60) } else { rng.below(3) };
    (0..n)
        .map(|_| Range {
            start: Position { line: rng.below(4), character: rng.below(9) },
            end: Position { line: rng.below(4), character: rng.below(9) },
        })
        .collect()
}

fn ranges_json(r: &[Range]) -> Value {
    json!(r
        .iter()
        .map(|r| json!({"start": {"line": r.start.line, "character": r.start.character},
                        "end": {"line": r.end.line, "character": r.end.character}}))
        .collect::<Vec<_>>())
}

fn files_on_disk(base: &Path) -> BTreeMap<String, Vec<u8>> {
    fn go(base: &Path, dir: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        let Ok(rd) = fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let Ok(m) = fs::symlink_metadata(&p) else { continue };
            if m.is_dir() {
                go(base, &p, out);
            } else if m.is_file() {
                out.insert(p.strip_prefix(base).unwrap().to_str().unwrap().into(), fs::read(&p).unwrap_or_default());
            }
        }
    }
    let mut out = BTreeMap::new();
    go(base, base, &mut out);
    out
}

fn put(base: &Path, f: &str, bytes: &[u8]) {
    let p = base.join(f);
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    fs::write(p, bytes).unwrap();
}

fn is_ignored(f: &str) -> bool {
    [".ign", ".above", ".excl", ".gitign", ".global"].iter().any(|e| f.ends_with(e)) || f.split('/').any(|c| c == ".git" || c == ".ethersync") || f.starts_with("secret/")
}

/// What the scan at start has to share.
fn shareable(base: &Path) -> Texts {
    files_on_disk(base)
        .into_iter()
        .filter(|(f, _)| !is_ignored(f))
        .filter_map(|(f, b)| String::from_utf8(b).ok().map(|t| (f, chars(&t))))
        .collect()
}

fn obj(doc: &AutoCommit, at: &ObjId, key: &str) -> Option<ObjId> {
    doc.get(at, key).ok().flatten().map(|(_, o)| o)
}

fn texts_at(doc: &AutoCommit, map: &str) -> BTreeMap<String, String> {
    let Some(m) = obj(doc, &ROOT, map) else { return BTreeMap::new() };
    let keys: Vec<String> = doc.keys(&m).collect();
    keys.into_iter().filter_map(|k| obj(doc, &m, &k).and_then(|o| doc.text(&o).ok()).map(|t| (k, t))).collect()
}

fn show(t: &Texts) -> String {
    format!("{:?}", t.iter().map(|(k, v)| (k.as_str(), string(v))).collect::<Vec<_>>())
}

/// Ignore rules from everywhere they can come from.
fn put_rules(scratch: &Path, base: &Path) {
    put(base, ".ignore", b"*.ign\nsecret/\n");
    put(base, ".gitignore", b"*.gitign\n");
    put(base, ".git/info/exclude", b"*.excl\n");
    put(base.parent().unwrap(), ".ignore", b"*.above\n");
    put(scratch, "home/.config/git/ignore", b"*.global\n");
    std::env::set_var("HOME", scratch.join("home"));
    std::env::set_var("XDG_CONFIG_HOME", scratch.join("home/.config"));
}

fn gen_disk(rng: &mut Rng, size: usize, base: &Path) {
    for f in FILES {
        if rng.chance(45) {
            put(base, f, gen_text(rng, size).as_bytes());
        }
    }
    for f in IGNORED {
        if rng.chance(40) {
            put(base, f, b"private");
        }
    }
    if rng.chance(30) {
        put(base, "bin", &[0xff, 0xfe, b'a', 0x80]);
    }
}

impl World {
    fn new(rng: &mut Rng, size: usize, mix: &Mix) -> Res<Self> {
        let scratch = Scratch::new();
        let base = scratch.path().join("p/proj");
        fs::create_dir_all(base.join(".ethersync")).unwrap();
        put_rules(scratch.path(), &base);
        gen_disk(rng, size, &base);
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let is_host = rng.chance(85);
        let init = rng.chance(30);
        let shared = if is_host { shareable(&base) } else { Texts::new() };
        note(format!("start, host {is_host}, init {init}, disk {:?}", files_on_disk(&base).keys().collect::<Vec<_>>()));
        let handle = start(&rt, &base, init, is_host)?;
        let mut w = World {
            rt,
            scratch,
            base,
            handle,
            editors: BTreeMap::new(),
            peer: AutoCommit::new(),
            peer_state: SyncState::new(),
            daemon_state: SyncState::new(),
            shared,
            loose: BTreeSet::new(),
            persisted: false,
            next_editor: 0,
            stride: *rng.pick(&[1, 1, 1, 1, 5, 10, 100, 256, 1 << 16, 1 << 32]),
            cursor_serial: 0,
            socket: None,
        };
        if rng.chance(mix.socket) {
            let dir = w.scratch.path().join("run");
            fs::create_dir(&dir).unwrap();
            fs::set_permissions(&dir, fs::Permissions::from_mode(0o700)).unwrap();
            w.socket = Some(dir.join("ethersync"));
            w.listen()?;
        }
        w.sync(&["C14"])?;
        w.compare(&["C14", "C13"], &["C14", "C13"])?;
        Ok(w)
    }

    fn uri(&self, f: &str) -> String {
        format!("file://{}/{f}", self.base.display())
    }

    fn send(&mut self, props: &[&'static str], m: DocMessage) -> Res {
        let h = self.handle.clone();
        let rt = &self.rt;
        let r = guarded(|| {
            rt.block_on(async {
                tokio::time::timeout(Duration::from_secs(20), async {
                    h.send_message(m).await;
                    let _ = h.content().await;
                })
                .await
            })
        });
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(_)) => fail(props, "the daemon does not finish handling the message"),
            Err(p) => fail(props, format!("the daemon does not survive the message: {p}")),
        }
    }

    /// Runs the daemon's tasks until something is true.
    fn until(&mut self, props: &[&'static str], what: &str, mut done: impl FnMut(&mut Self) -> bool) -> Res {
        let before = std::time::Instant::now();
        clear_panic();
        loop {
            let h = self.handle.clone();
            let r = guarded(|| {
                self.rt.block_on(async {
                    let _ = tokio::time::timeout(Duration::from_secs(20), h.content()).await;
                    tokio::time::sleep(Duration::from_micros(200)).await;
                })
            });
            // The daemon ends when any of its tasks panics.
            if let Err(p) = r {
                return fail(props, format!("the daemon does not survive: {p}"));
            }
            if let Some(p) = seen_panic() {
                return fail(props, format!("the daemon ends: a task panicked {p}"));
            }
            if done(self) {
                return Ok(());
            }
            if before.elapsed() > Duration::from_secs(10) {
                return fail(props, what);
            }
        }
    }

    fn listen(&mut self) -> Res {
        let path = self.socket.clone().unwrap();
        let _ = fs::remove_file(&path);
        let h = self.handle.clone();
        {
            let _g = self.rt.enter();
            let path = path.clone();
            tokio::spawn(async move { ethersync::editor::make_editor_connection(path, h).await });
        }
        self.until(&["C15", "C19"], "the daemon does not offer its socket", |_| path.exists())
    }

    fn put_line(&mut self, id: usize, line: &[u8]) {
        // Editors write as much as the socket takes; these lines are short.
        let _ = self.editors.get_mut(&id).unwrap().stream.write_all(line);
    }

    /// What an editor writes, handled.
    fn post(&mut self, props: &[&'static str], id: usize, line: String) -> Res {
        if self.socket.is_none() {
            return self.send(props, DocMessage::FromEditor(id, line));
        }
        self.put_line(id, format!("{line}\n").as_bytes());
        self.settle(props, id)
    }

    fn settle(&mut self, props: &[&'static str], id: usize) -> Res {
        let m = json!({"jsonrpc": "2.0", "id": MARKER, "method": "close", "params": {"uri": "nowhere"}});
        self.put_line(id, format!("{m}\n").as_bytes());
        let mut props = props.to_vec();
        props.extend(["C11", "C19", "C21"]);
        let mark = MARKER.to_string();
        self.until(&props, "a request is not answered", |w| {
            let e = w.editors.get_mut(&id).unwrap();
            e.take();
            String::from_utf8_lossy(&e.partial).contains(&mark)
        })
    }

    /// Exchanges messages with the peer until neither has anything to say.
    fn sync(&mut self, props: &[&'static str]) -> Res {
        for _ in 0..100 {
            let (tx, rx) = oneshot::channel();
            let state = std::mem::take(&mut self.daemon_state);
            self.send(props, DocMessage::GenerateSyncMessage { state, response_tx: tx })?;
            let (state, message) = match self.rt.block_on(rx) {
                Ok(x) => x,
                Err(_) => return fail(props, "no answer to GenerateSyncMessage"),
            };
            self.daemon_state = state;
            let mut quiet = message.is_none();
            if let Some(m) = message {
                self.peer.sync().receive_sync_message(&mut self.peer_state, m).expect("sync");
            }
            let reply = self.peer.sync().generate_sync_message(&mut self.peer_state);
            if let Some(m) = reply {
                quiet = false;
                let (tx, rx) = oneshot::channel();
                let state = std::mem::take(&mut self.daemon_state);
                self.send(props, DocMessage::ReceiveSyncMessage { message: m, state, response_tx: tx })?;
                self.daemon_state = match self.rt.block_on(rx) {
                    Ok(s) => s,
                    Err(_) => return fail(props, "no answer to ReceiveSyncMessage"),
                };
            }
            if quiet {
                return Ok(());
            }
        }
        fail(props, "daemon and peer do not come to rest")
    }

    fn actual(&self) -> Texts {
        texts_at(&self.peer, "files").into_iter().map(|(k, t)| (k, chars(&t))).collect()
    }

    /// The shared files are exactly those expected.
    fn compare(&self, existence: &[&'static str], texts: &[&'static str]) -> Res {
        let got = self.actual();
        let (a, b): (BTreeSet<_>, BTreeSet<_>) = (got.keys().collect(), self.shared.keys().collect());
        if let Some(f) = a.difference(&b).find(|f| is_ignored(f)) {
            return fail(&["C13"], format!("ignored file {f} is shared"));
        }
        if a != b {
            return fail(existence, format!("shared files {a:?}, expected {b:?}"));
        }
        if got != self.shared {
            return fail(texts, format!("shared texts {}, expected {}", show(&got), show(&self.shared)));
        }
        Ok(())
    }

    fn compare_disk(&self, props: &[&'static str], want: &BTreeMap<String, Vec<u8>>, except: &[String]) -> Res {
        let got = files_on_disk(&self.base);
        let names: BTreeSet<&String> = got.keys().chain(want.keys()).collect();
        for f in names {
            if except.contains(f) {
                continue;
            }
            if got.get(f) != want.get(f) {
                let s = |b: Option<&Vec<u8>>| b.map(|b| String::from_utf8_lossy(b).into_owned());
                return fail(props, format!("on disk {f} is {:?}, expected {:?}", s(got.get(f)), s(want.get(f))));
            }
        }
        Ok(())
    }

    fn owned(&self, f: &str) -> bool {
        self.editors.values().any(|e| e.open.contains_key(f))
    }

    /// Takes what the editors' sockets hold.
    fn drain(&mut self) -> BTreeMap<usize, Got> {
        let mut all = BTreeMap::new();
        for (id, e) in &mut self.editors {
            let mut got = Got::default();
            e.take();
            while let Some(i) = e.partial.iter().position(|c| *c == b'\n') {
                let line: Vec<u8> = e.partial.drain(..=i).collect();
                let v: Value = serde_json::from_slice(&line).unwrap_or(Value::Null);
                if v["id"] == json!(MARKER) {
                    continue;
                }
                note(format!("  editor {id} gets {v}"));
                match v["method"].as_str() {
                    Some("edit") => {
                        got.edits.push(v.clone());
                        e.inbox.push_back(v);
                    }
                    Some("cursor") => got.cursors.push(v),
                    _ => got.responses.push(v),
                }
            }
            all.insert(*id, got);
        }
        all
    }

    fn connect(&mut self) -> Res<usize> {
        let id = self.next_editor;
        self.next_editor += self.stride;
        note(format!("editor {id} connects"));
        if let Some(path) = &self.socket {
            let Ok(stream) = StdStream::connect(path) else {
                return fail(&["C19"], "the daemon does not accept another editor");
            };
            stream.set_nonblocking(true).unwrap();
            self.editors.insert(
                id,
                Editor { stream, partial: vec![], inbox: VecDeque::new(), open: BTreeMap::new(), next_id: 1 + id * 1000, userid: None },
            );
            self.settle(&["C19"], id)?;
            return Ok(id);
        }
        let (ours, theirs) = StdStream::pair().unwrap();
        ours.set_nonblocking(true).unwrap();
        theirs.set_nonblocking(true).unwrap();
        let writer = {
            let _g = self.rt.enter();
            let (_read, write) = tokio::io::split(UnixStream::from_std(theirs).unwrap());
            FramedWrite::new(write, EditorProtocolCodec)
        };
        self.send(&["C19"], DocMessage::NewEditorConnection(id, writer))?;
        self.editors.insert(
            id,
            Editor { stream: ours, partial: vec![], inbox: VecDeque::new(), open: BTreeMap::new(), next_id: 1 + id * 1000, userid: None },
        );
        Ok(id)
    }

    /// Sends a request or a notification and checks the response; returns what everybody got.
    fn request(&mut self, rng: &mut Rng, id: usize, method: &str, params: Value, ok: bool, also: &[&'static str]) -> Res<BTreeMap<usize, Got>> {
        let n = match (self.editors[&id].next_id, rng.below(8)) {
            (_, 0) => 0,
            (n, 1) => n + (1 << 32),
            (n, 2) => usize::MAX - n,
            (n, _) => n,
        };
        let notification = rng.chance(12);
        let mut m = json!({"jsonrpc": "2.0", "method": method, "params": params});
        if !notification {
            m["id"] = json!(n);
            self.editors.get_mut(&id).unwrap().next_id += 1 + rng.below(3);
        }
        note(format!("editor {id} sends {m}"));
        let mut props = vec!["C11", "C19"];
        props.extend_from_slice(also);
        self.post(&props, id, m.to_string())?;
        let got = self.drain();
        let mine = &got[&id].responses;
        if notification {
            if !mine.is_empty() {
                return fail(&["C11"], format!("a notification is answered: {mine:?}"));
            }
        } else {
            if mine.is_empty() {
                return fail(&["C11", "C18", "C19"], format!("request {n} gets no response"));
            }
            if mine.len() != 1 || mine[0]["id"] != json!(n) {
                return fail(&["C11"], format!("request {n} gets {} responses: {mine:?}", mine.len()));
            }
            let success = mine[0].get("result").is_some() && mine[0].get("error").is_none();
            if success != ok {
                let mut props = vec!["C11"];
                props.extend_from_slice(also);
                return fail(&props, format!("request is answered by {}, expected {}", mine[0], if ok { "success" } else { "an error" }));
            }
        }
        for (other, g) in &got {
            if *other != id && !g.responses.is_empty() {
                return fail(&["C11"], format!("editor {other} gets a response it did not ask for: {:?}", g.responses));
            }
        }
        Ok(got)
    }

    fn no_messages(&self, got: &BTreeMap<usize, Got>, why: &str) -> Res {
        for (id, g) in got {
            if !g.edits.is_empty() || !g.cursors.is_empty() {
                return fail(&["C10"], format!("{why}, but editor {id} gets {:?} {:?}", g.edits, g.cursors));
            }
        }
        Ok(())
    }

    /// Opening is possible: the file or the directory it goes to exists.
    fn openable(&self, f: &str) -> bool {
        let p = self.base.join(f);
        p.is_file() || p.parent().unwrap().is_dir()
    }

    fn step_open(&mut self, rng: &mut Rng, id: usize) -> Res {
        let f = (*rng.pick(FILES)).to_string();
        if !self.openable(&f) || (self.editors[&id].open.contains_key(&f) && !rng.chance(20)) {
            return Ok(());
        }
        let mut disk = files_on_disk(&self.base);
        let text = String::from_utf8(disk.entry(f.clone()).or_default().clone());
        let got = self.request(rng, id, "open", json!({"uri": self.uri(&f)}), text.is_ok(), &["C18"])?;
        let uri = json!(self.uri(&f));
        for (other, g) in &got {
            // The editor itself may have to catch up.
            if !g.cursors.is_empty() || g.edits.iter().any(|m| *other != id || m["params"]["uri"] != uri) {
                return fail(&["C10", "C18"], format!("editor {other} gets {:?} {:?} after editor {id} opens {f}", g.edits, g.cursors));
            }
        }
        if let Ok(t) = text {
            let t = chars(&t);
            self.shared.entry(f.clone()).or_insert(t.clone());
            let e = self.editors.get_mut(&id).unwrap();
            if e.open.contains_key(&f) {
                // Opened again: whatever was under way before does not count.
                let keep = got[&id].edits.len();
                let drop = e.inbox.len() - keep;
                let mut i = 0;
                e.inbox.retain(|m| {
                    i += 1;
                    i > drop || m["params"]["uri"] != uri
                });
            }
            e.open.insert(f.clone(), Buf { text: t, made: 0, applied: 0, confirmed: 0 });
            self.loose.remove(&f);
        }
        self.sync(&["C18"])?;
        self.compare(&["C18"], &["C18"])?;
        self.compare_disk(&["C08"], &disk, &[])
    }

    /// Opening what must not be opened.
    fn step_open_bad(&mut self, rng: &mut Rng, id: usize) -> Res {
        let outside = self.scratch.path().join("p/outside");
        fs::write(&outside, "outside").unwrap();
        let (uri, ignored) = match rng.below(7) {
            0 => ("file:///".to_string(), None),
            1 => (format!("file://{}", self.base.display()), None),
            2 => (format!("file://{}", outside.display()), None),
            3 => (self.uri("a").replace("file://", "http://"), None),
            4 => (self.uri("no/such/dir/f"), None),
            _ => {
                let f = *rng.pick(IGNORED);
                if !self.base.join(f).parent().unwrap().is_dir() {
                    return Ok(());
                }
                (self.uri(f), Some(f.to_string()))
            }
        };
        let disk = files_on_disk(&self.base);
        let props: &[&'static str] = if ignored.is_some() { &["C13"] } else { &["C07"] };
        let got = self.request(rng, id, "open", json!({"uri": uri}), false, props)?;
        self.no_messages(&got, "a request is refused")?;
        self.sync(&["C11"])?;
        self.compare(&["C11", "C13"], &["C11"])?;
        self.compare_disk(&["C08"], &disk, &ignored.clone().into_iter().collect::<Vec<_>>())?;
        if let Some(f) = ignored {
            // It is not open: an edit for it is refused.
            let delta = json!([{"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "replacement": "x"}]);
            let got = self.request(rng, id, "edit", json!({"uri": self.uri(&f), "revision": 0, "delta": delta}), false, &["C13", "C18"])?;
            self.no_messages(&got, "a request is refused")?;
            self.sync(&["C13"])?;
            self.compare(&["C13"], &["C13"])?;
        }
        Ok(())
    }

    fn pick_open(&self, rng: &mut Rng, id: usize) -> Option<String> {
        let v: Vec<String> = self.editors[&id].open.keys().cloned().collect();
        if v.is_empty() {
            None
        } else {
            Some(rng.pick(&v).clone())
        }
    }

    fn step_close(&mut self, rng: &mut Rng, id: usize) -> Res {
        let f = match self.pick_open(rng, id) {
            Some(f) if rng.chance(80) => f,
            // Something that is not open, or not even a file.
            _ => (*rng.pick(&["d", "new", "new/deep", "a", "b", "c.txt", "nothing", "d/n"])).to_string(),
        };
        let mut disk = files_on_disk(&self.base);
        let got = self.request(rng, id, "close", json!({"uri": self.uri(&f)}), true, &["C08"])?;
        self.no_messages(&got, "a file is closed")?;
        let e = self.editors.get_mut(&id).unwrap();
        e.open.remove(&f);
        let uri = format!("file://{}/{f}", self.base.display());
        e.inbox.retain(|m| m["params"]["uri"] != json!(uri));
        self.sync(&["C08"])?;
        self.compare(&["C08", "C05"], &["C08", "C05"])?;
        if !self.owned(&f) {
            if let Some(t) = self.shared.get(&f) {
                disk.insert(f.clone(), string(t).into_bytes());
            }
        }
        self.compare_disk(&["C08"], &disk, &[])
    }

    fn step_edit(&mut self, rng: &mut Rng, id: usize, size: usize) -> Res {
        let Some(f) = self.pick_open(rng, id) else { return Ok(()) };
        let disk = files_on_disk(&self.base);
        let uri = self.uri(&f);
        let e = self.editors.get_mut(&id).unwrap();
        let buf = e.open.get_mut(&f).unwrap();
        let (delta, after) = gen_edit(rng, &buf.text, size);
        let revision = buf.applied;
        let lagging = e.inbox.iter().any(|m| m["params"]["uri"] == json!(uri));
        let waiting = e.inbox.iter().filter(|m| m["params"]["uri"] == json!(uri) && m["params"]["revision"] == json!(buf.made)).count();
        buf.text = after.clone();
        buf.made += 1;
        buf.confirmed = revision;
        let got = self.request(rng, id, "edit", json!({"uri": uri, "revision": revision, "delta": serde_json::to_value(&delta).unwrap()}), true, &["C18", "C01"])?;
        for (other, g) in &got {
            let has = self.editors[other].open.contains_key(&f);
            let want = if *other == id { waiting } else { has as usize };
            if g.edits.len() != want || g.edits.iter().any(|m| m["params"]["uri"] != json!(uri)) {
                let tag: &[&'static str] = if *other == id { &["C10", "C01"] } else { &["C10"] };
                return fail(tag, format!("editor {other} gets {} edits after editor {id}'s edit of {f}, expected {want}: {:?}", g.edits.len(), g.edits));
            }
            if !g.cursors.is_empty() {
                return fail(&["C10"], format!("editor {other} gets a cursor after an edit"));
            }
        }
        self.sync(&["C01"])?;
        if lagging {
            if let Some(t) = self.actual().get(&f) {
                self.shared.insert(f.clone(), t.clone());
            }
        } else {
            self.shared.insert(f.clone(), after);
        }
        self.compare(&["C18", "C05"], &["C18", "C05", "C01"])?;
        self.compare_disk(&["C08"], &disk, &[])
    }

    /// An edit that makes no sense for the file.
    fn step_edit_invalid(&mut self, rng: &mut Rng, id: usize) -> Res {
        let Some(f) = self.pick_open(rng, id) else { return Ok(()) };
        let disk = files_on_disk(&self.base);
        let e = &self.editors[&id];
        let buf = &e.open[&f];
        let end = gen_pos(rng, &buf.text, buf.text.len());
        let lines = line_starts(&buf.text).len() - 1;
        let mut revision = buf.applied;
        let at = |l: usize, c: usize| json!({"line": l, "character": c});
        let last = line_starts(&buf.text)[lines - 1];
        let op = |a: Value, b: Value| json!({"range": {"start": a, "end": b}, "replacement": "x"});
        let mut ops = json!([op(at(0, 0), at(0, 0))]);
        match rng.below(6) {
            0 => ops = json!([op(at(0, 0), at(lines, 0))]),
            1 => ops = json!([op(at(lines - 1, buf.text.len() - last + 1), at(lines - 1, buf.text.len() - last + 1))]),
            2 => ops = json!([op(at(usize::MAX, 0), at(end.line, end.character))]),
            3 => ops = json!([op(at(0, 0), at(0, 0)), op(at(0, 0), at(0, 0))]),
            4 if buf.confirmed > 0 => revision = buf.confirmed - 1,
            _ => revision += e.inbox.len() + 1,
        }
        let got = self.request(rng, id, "edit", json!({"uri": self.uri(&f), "revision": revision, "delta": ops}), false, &[])?;
        self.no_messages(&got, "a request is refused")?;
        self.sync(&["C11"])?;
        self.compare(&["C11"], &["C11"])?;
        self.compare_disk(&["C08"], &disk, &[])
    }

    /// An edit of a file the editor does not have open.
    fn step_edit_unopened(&mut self, rng: &mut Rng, id: usize) -> Res {
        let f = (*rng.pick(FILES)).to_string();
        if self.editors[&id].open.contains_key(&f) {
            return Ok(());
        }
        let disk = files_on_disk(&self.base);
        let delta = json!([{"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "replacement": "x"}]);
        let got = self.request(rng, id, "edit", json!({"uri": self.uri(&f), "revision": 0, "delta": delta}), false, &["C18"])?;
        self.no_messages(&got, "a request is refused")?;
        self.sync(&["C18"])?;
        self.compare(&["C18", "C11"], &["C18", "C11"])?;
        self.compare_disk(&["C08"], &disk, &[])
    }

    fn step_cursor(&mut self, rng: &mut Rng, id: usize) -> Res {
        let f = (*rng.pick(FILES)).to_string();
        let disk = files_on_disk(&self.base);
        let ranges = gen_ranges(rng);
        let uri = self.uri(&f);
        let before = texts_at(&self.peer, "states");
        let got = self.request(rng, id, "cursor", json!({"uri": uri, "ranges": ranges_json(&ranges)}), true, &[])?;
        let mut ids = BTreeSet::new();
        for (other, g) in &got {
            let want = (*other != id) as usize;
            if g.cursors.len() != want || !g.edits.is_empty() {
                return fail(&["C10"], format!("editor {other} gets {} cursors after editor {id}'s move, expected {want}", g.cursors.len()));
            }
            for c in &g.cursors {
                if c["params"]["uri"] != json!(uri) || c["params"]["ranges"] != ranges_json(&ranges) {
                    return fail(&["C10", "C21", "C07"], format!("cursor of editor {id} in {f} is announced as {c}"));
                }
                ids.insert(c["params"]["userid"].as_str().unwrap_or_default().to_string());
            }
        }
        self.sync(&["C21"])?;
        self.compare(&["C21"], &["C21"])?;
        self.compare_disk(&["C08"], &disk, &[])?;
        let now = texts_at(&self.peer, "states");
        let known = self.editors[&id].userid.clone();
        let changed: Vec<String> = now.iter().filter(|(k, v)| before.get(*k) != Some(*v)).map(|(k, _)| k.clone()).collect();
        if before.keys().any(|k| !now.contains_key(k)) || changed.len() > 1 {
            return fail(&["C21"], format!("storing one cursor changes {changed:?}"));
        }
        ids.extend(changed.iter().cloned());
        ids.extend(known);
        if ids.len() > 1 {
            return fail(&["C21"], format!("editor {id}'s cursor goes under different identities {ids:?}"));
        }
        let Some(me) = ids.into_iter().next() else { return Ok(()) };
        let v: Value = now.get(&me).and_then(|t| serde_json::from_str(t).ok()).unwrap_or_default();
        if v["cursor_id"] != json!(me) || v["file_path"] != json!(f) || v["ranges"] != ranges_json(&ranges) {
            return fail(&["C21"], format!("cursor of editor {id} in {f} at {} is stored as {v}", ranges_json(&ranges)));
        }
        if self.editors.iter().any(|(o, e)| *o != id && e.userid.as_ref() == Some(&me)) || me.starts_with("peer-") {
            return fail(&["C21"], format!("two editors share the cursor identity {me}"));
        }
        self.editors.get_mut(&id).unwrap().userid = Some(me);
        Ok(())
    }

    fn step_garbage(&mut self, rng: &mut Rng, id: usize) -> Res {
        let texts = [
            "", "{", "null", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"close\",\"params\":{\"uri\":\"nowhere\"}};",
            "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"close\",\"params\":{\"uri\":\"nowhere\"}},", "x{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"close\",\"params\":{\"uri\":\"nowhere\"}}",
            "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"close\",\"params\":{\"uri\":\"nowhere\"}}{}", "\u{feff}{}",
            "[]", "{\"id\":3}", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"nope\",\"params\":{}}",
            "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"open\",\"params\":{}}", "hello", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"edit\",\"params\":{\"uri\":\"file:///a\"}}",
        ];
        let t = *rng.pick(&texts);
        note(format!("editor {id} sends {t:?}"));
        self.post(&["C11", "C19"], id, t.into())?;
        let got = self.drain();
        self.no_messages(&got, "the message is invalid")?;
        for (other, g) in &got {
            let want = (*other == id) as usize;
            if g.responses.len() != want {
                return fail(&["C11"], format!("editor {other} gets {} responses to invalid text, expected {want}", g.responses.len()));
            }
            for r in &g.responses {
                if r.get("id") != Some(&Value::Null) || r.get("error").is_none() {
                    return fail(&["C11"], format!("invalid text is answered by {r}"));
                }
            }
        }
        self.sync(&["C11"])?;
        self.compare(&["C11"], &["C11"])
    }

    fn apply_inbox(&mut self, id: usize, all: bool, rng: &mut Rng) -> Res {
        let base = self.base.display().to_string();
        let e = self.editors.get_mut(&id).unwrap();
        let n = if all { e.inbox.len() } else { rng.below(e.inbox.len() + 1) };
        for _ in 0..n {
            let m = e.inbox.pop_front().unwrap();
            let uri = m["params"]["uri"].as_str().unwrap_or_default();
            let f = uri.strip_prefix(&format!("file://{base}/")).unwrap_or_default().to_string();
            let Some(buf) = e.open.get_mut(&f) else { continue };
            if m["params"]["revision"] == json!(buf.made) {
                let d: EditorTextDelta = serde_json::from_value(m["params"]["delta"].clone()).unwrap_or(EditorTextDelta(vec![]));
                note(format!("editor {id} applies to {f}: {}", m["params"]));
                buf.text = match editor_apply(&d, &buf.text) {
                    Ok(t) => t,
                    Err(e) => return fail(&["C01", "C09", "C10", "C03"], format!("edit for {f} does not fit {:?}: {e}", string(&buf.text))),
                };
                buf.applied += 1;
            }
        }
        Ok(())
    }

    /// Once everybody has seen everything, editors and daemon agree.
    fn converged(&mut self, rng: &mut Rng) -> Res {
        let ids: Vec<usize> = self.editors.keys().copied().collect();
        for id in ids {
            self.apply_inbox(id, true, rng)?;
            for (f, b) in &self.editors[&id].open {
                if self.shared.get(f) != Some(&b.text) {
                    return fail(
                        &["C01", "C09", "C10", "C18"],
                        format!("editor {id} has {f} as {:?}, the shared text is {:?}", string(&b.text), self.shared.get(f).map(|t| string(t))),
                    );
                }
            }
        }
        Ok(())
    }

    /// A peer makes some changes and sends them in one go.
    fn step_peer(&mut self, rng: &mut Rng, size: usize) -> Res {
        let mut disk = files_on_disk(&self.base);
        let Some(files) = obj(&self.peer, &ROOT, "files") else { return Ok(()) };
        let Some(states) = obj(&self.peer, &ROOT, "states") else { return Ok(()) };
        let mut touched: BTreeSet<String> = BTreeSet::new();
        let mut changed: BTreeSet<String> = BTreeSet::new();
        let mut removed: BTreeSet<String> = BTreeSet::new();
        let mut cursors: BTreeMap<String, Value> = BTreeMap::new();
        for _ in 0..1 + rng.below(4) {
            let f = (*rng.pick(FILES)).to_string();
            match rng.below(12) {
                0 | 1 if !self.shared.contains_key(&f) && !touched.contains(&f) => {
                    let t = gen_text(rng, size);
                    note(format!("peer creates {f} {t:?}"));
                    let o = self.peer.put_object(&files, f.as_str(), ObjType::Text).unwrap();
                    self.peer.splice_text(&o, 0, 0, &t).unwrap();
                    self.shared.insert(f.clone(), chars(&t));
                    touched.insert(f.clone());
                    changed.insert(f);
                }
                2 if self.shared.contains_key(&f) && !touched.contains(&f) => {
                    note(format!("peer removes {f}"));
                    self.peer.delete(&files, f.as_str()).unwrap();
                    self.shared.remove(&f);
                    touched.insert(f.clone());
                    let uri = json!(self.uri(&f));
                    for e in self.editors.values_mut() {
                        e.open.remove(&f);
                        e.inbox.retain(|m| m["params"]["uri"] != uri);
                    }
                    removed.insert(f);
                }
                6 if self.shared.contains_key(&f) && !touched.contains(&f) => {
                    let t = gen_text(rng, size);
                    note(format!("peer replaces {f} by {t:?}"));
                    let o = self.peer.put_object(&files, f.as_str(), ObjType::Text).unwrap();
                    self.peer.splice_text(&o, 0, 0, &t).unwrap();
                    self.shared.insert(f.clone(), chars(&t));
                    touched.insert(f.clone());
                    changed.insert(f);
                }
                3 | 4 => {
                    self.cursor_serial += 1;
                    let id = format!("peer-{}", rng.below(3));
                    if cursors.contains_key(&id) {
                        continue;
                    }
                    let ranges = ranges_json(&gen_ranges(rng));
                    let name = rng.chance(50).then(|| format!("n{}", self.cursor_serial));
                    let v = json!({"cursor_id": id, "name": name, "file_path": f, "ranges": ranges});
                    note(format!("peer moves cursor {v}"));
                    let o = self.peer.put_object(&states, id.as_str(), ObjType::Text).unwrap();
                    self.peer.splice_text(&o, 0, 0, &v.to_string()).unwrap();
                    cursors.insert(id, v);
                }
                5 => {
                    let t = *rng.pick(&["", "{", "{}", "[1]", "{\"cursor_id\":3}", "null", "{\"cursor_id\":\"q\",\"name\":null,\"file_path\":\"a\",\"ranges\":7}"]);
                    note(format!("peer stores cursor data {t:?}"));
                    let o = self.peer.put_object(&states, "peer-bad", ObjType::Text).unwrap();
                    self.peer.splice_text(&o, 0, 0, t).unwrap();
                }
                _ => {
                    let Some(t) = self.shared.get(&f).cloned() else { continue };
                    if removed.contains(&f) {
                        continue;
                    }
                    let o = obj(&self.peer, &files, &f).unwrap();
                    let a = rng.below(t.len() + 1);
                    let b = (a + rng.below(4)).min(t.len());
                    let s = if rng.chance(30) { String::new() } else { gen_insert(rng, size) };
                    if a == b && s.is_empty() {
                        continue;
                    }
                    note(format!("peer replaces {a}..{b} of {f} by {s:?}"));
                    self.peer.splice_text(&o, a, (b - a) as isize, &s).unwrap();
                    self.shared.insert(f.clone(), replaced(&t, a, b, &s));
                    touched.insert(f.clone());
                    changed.insert(f);
                }
            }
        }
        self.peer.commit();
        self.sync(&["C09", "C19"])?;
        let got = self.drain();
        self.compare(&["C09"], &["C09"])?;
        for f in &changed {
            if !self.owned(f) {
                disk.insert(f.clone(), string(&self.shared[f]).into_bytes());
            }
        }
        for f in &removed {
            disk.remove(f);
        }
        self.compare_disk(&["C09", "C08"], &disk, &[])?;
        for (id, g) in &got {
            for m in &g.edits {
                let uri = m["params"]["uri"].as_str().unwrap_or_default();
                if !changed.iter().any(|f| uri == self.uri(f) && self.editors[id].open.contains_key(f)) {
                    return fail(&["C09", "C10", "C07"], format!("editor {id} gets an edit for {uri}"));
                }
            }
            let mut seen = BTreeSet::new();
            for m in &g.cursors {
                let p = &m["params"];
                let who = p["userid"].as_str().unwrap_or_default().to_string();
                let Some(v) = cursors.get(&who) else {
                    return fail(&["C09"], format!("editor {id} gets a cursor nobody moved: {m}"));
                };
                let f = v["file_path"].as_str().unwrap();
                if p["uri"] != json!(self.uri(f)) || p["ranges"] != v["ranges"] || p["name"] != v["name"] {
                    return fail(&["C09"], format!("peer's cursor {v} is announced as {m}"));
                }
                if !seen.insert(who) {
                    return fail(&["C10"], format!("editor {id} gets the same cursor twice"));
                }
            }
            if seen.len() != cursors.len() {
                return fail(&["C09", "C10"], format!("editor {id} gets cursors {seen:?}, the peer moved {:?}", cursors.keys()));
            }
        }
        Ok(())
    }

    /// A peer and somebody here change the same file before they hear of each other.
    fn step_race(&mut self, rng: &mut Rng, id: usize, size: usize) -> Res {
        let Some(files) = obj(&self.peer, &ROOT, "files") else { return Ok(()) };
        let f = match self.pick_open(rng, id) {
            Some(f) if rng.chance(60) => f,
            _ => (*rng.pick(FILES)).to_string(),
        };
        let uri = self.uri(&f);
        // The peer's side.
        let known = self.shared.get(&f).cloned();
        match &known {
            None => {
                let t = gen_text(rng, size);
                note(format!("meanwhile the peer creates {f} {t:?}"));
                let o = self.peer.put_object(&files, f.as_str(), ObjType::Text).unwrap();
                self.peer.splice_text(&o, 0, 0, &t).unwrap();
            }
            Some(_) if rng.chance(15) => {
                note(format!("meanwhile the peer removes {f}"));
                self.peer.delete(&files, f.as_str()).unwrap();
            }
            Some(t) => {
                let o = obj(&self.peer, &files, &f).unwrap();
                let a = rng.below(t.len() + 1);
                let b = (a + rng.below(4)).min(t.len());
                let s = gen_insert(rng, size);
                note(format!("meanwhile the peer replaces {a}..{b} of {f} by {s:?}"));
                self.peer.splice_text(&o, a, (b - a) as isize, &s).unwrap();
            }
        }
        self.peer.commit();
        // This side.
        if self.editors[&id].open.contains_key(&f) {
            let e = self.editors.get_mut(&id).unwrap();
            let buf = e.open.get_mut(&f).unwrap();
            let (delta, after) = gen_edit(rng, &buf.text, size);
            let revision = buf.applied;
            buf.text = after;
            buf.made += 1;
            buf.confirmed = revision;
            let _ = self.request(rng, id, "edit", json!({"uri": uri, "revision": revision, "delta": serde_json::to_value(&delta).unwrap()}), true, &["C18", "C01"])?;
        } else if known.is_none() && self.openable(&f) && rng.chance(60) {
            let text = String::from_utf8(fs::read(self.base.join(&f)).unwrap_or_default());
            let _ = self.request(rng, id, "open", json!({"uri": uri}), text.is_ok(), &["C18"])?;
            if let Ok(t) = text {
                self.editors.get_mut(&id).unwrap().open.insert(f.clone(), Buf { text: chars(&t), made: 0, applied: 0, confirmed: 0 });
            }
        } else if known.is_none() && !self.base.join(&f).exists() {
            let t = gen_text(rng, size);
            note(format!("{f} is created with {t:?}"));
            put(&self.base, &f, t.as_bytes());
            self.send(&["C08", "C19"], DocMessage::FromWatcher(WatcherEvent::Created { file_path: self.base.join(&f) }))?;
        }
        let mut disk = files_on_disk(&self.base);
        self.sync(&["C09", "C19"])?;
        let got = self.drain();
        // The peer's library decides how the two go together.
        let now = self.actual().get(&f).cloned();
        match &now {
            Some(t) => {
                self.shared.insert(f.clone(), t.clone());
                if !self.owned(&f) {
                    disk.insert(f.clone(), string(t).into_bytes());
                }
                self.loose.remove(&f);
            }
            None => {
                self.shared.remove(&f);
                disk.remove(&f);
                for e in self.editors.values_mut() {
                    e.open.remove(&f);
                    e.inbox.retain(|m| m["params"]["uri"] != json!(uri));
                }
            }
        }
        self.compare(&["C09"], &["C09"])?;
        self.compare_disk(&["C09", "C08"], &disk, &[])?;
        for (other, g) in &got {
            if g.edits.iter().any(|m| m["params"]["uri"] != json!(uri)) || !g.cursors.is_empty() {
                return fail(&["C09", "C10"], format!("editor {other} gets {:?} {:?} for changes of {f}", g.edits, g.cursors));
            }
        }
        Ok(())
    }

    /// More files than usual are open at once.
    fn step_many(&mut self, rng: &mut Rng, id: usize) -> Res {
        let n = *rng.pick(&[20, 70, 140]);
        note(format!("editor {id} opens {n} files"));
        for i in 0..n {
            let f = format!("m{i}");
            if self.editors[&id].open.contains_key(&f) {
                continue;
            }
            let t = chars(&String::from_utf8(fs::read(self.base.join(&f)).unwrap_or_default()).unwrap());
            let _ = self.request(rng, id, "open", json!({"uri": self.uri(&f)}), true, &["C18"])?;
            self.shared.entry(f.clone()).or_insert(t.clone());
            self.editors.get_mut(&id).unwrap().open.insert(f, Buf { text: t, made: 0, applied: 0, confirmed: 0 });
        }
        self.sync(&["C18"])?;
        self.compare(&["C18"], &["C18"])
    }

    fn step_watcher(&mut self, rng: &mut Rng, size: usize) -> Res {
        let f = (*rng.pick(FILES)).to_string();
        let file_path = self.base.join(&f);
        let exists = self.base.join(&f).is_file();
        let owned = self.owned(&f);
        let before = self.shared.clone();
        let mut bytes = match rng.below(8) {
            0 => vec![0xff, b'a'],
            _ => gen_text(rng, size).into_bytes(),
        };
        let event = match rng.below(6) {
            0 | 1 if exists => {
                note(format!("{f} is removed, open {owned}"));
                fs::remove_file(self.base.join(&f)).unwrap();
                if !owned {
                    self.shared.remove(&f);
                }
                WatcherEvent::Removed { file_path }
            }
            2 if !exists => {
                note(format!("{f} was created and is gone again"));
                WatcherEvent::Created { file_path }
            }
            _ => {
                if exists && rng.chance(20) {
                    bytes = fs::read(self.base.join(&f)).unwrap();
                }
                note(format!("{f} is {} with {:?}, open {owned}", if exists { "changed" } else { "created" }, String::from_utf8_lossy(&bytes)));
                put(&self.base, &f, &bytes);
                let text = String::from_utf8(bytes).ok();
                if exists {
                    if let (Some(t), false) = (text, owned) {
                        self.shared.insert(f.clone(), chars(&t));
                    }
                    WatcherEvent::Changed { file_path }
                } else {
                    if let (Some(t), false) = (text, owned) {
                        self.shared.entry(f.clone()).or_insert(chars(&t));
                    }
                    WatcherEvent::Created { file_path }
                }
            }
        };
        if !owned {
            self.loose.remove(&f);
        }
        let disk = files_on_disk(&self.base);
        self.send(&["C08", "C19"], DocMessage::FromWatcher(event))?;
        let got = self.drain();
        self.no_messages(&got, "a file changed on disk that no editor has open or an editor owns")?;
        self.sync(&["C08"])?;
        let (now, want) = (self.actual(), self.shared.clone());
        if owned && now.get(&f) != before.get(&f) {
            return fail(&["C08"], format!("{f} is open, yet its shared text becomes what is on disk"));
        }
        if now != want {
            return fail(&["C08"], format!("shared texts {}, expected {}", show(&now), show(&want)));
        }
        self.compare_disk(&["C08"], &disk, &[])?;
        if owned {
            // Keep the file in step for the steps to come.
            if let Some(t) = self.shared.get(&f) {
                let _ = t;
            }
            self.loose.insert(f);
        }
        Ok(())
    }

    fn step_persist(&mut self, _rng: &mut Rng) -> Res {
        note("save");
        let mut disk = files_on_disk(&self.base);
        self.send(&["C20"], DocMessage::Persist)?;
        self.persisted = true;
        let now = files_on_disk(&self.base);
        let Some(bytes) = now.get(".ethersync/doc").cloned() else {
            return fail(&["C20"], "nothing was saved");
        };
        disk.insert(".ethersync/doc".into(), bytes.clone());
        self.compare_disk(&["C20"], &disk, &[])?;
        let doc = match AutoCommit::load(&bytes) {
            Ok(d) => d,
            Err(e) => return fail(&["C20"], format!("the saved state cannot be loaded: {e}")),
        };
        let texts: Texts = texts_at(&doc, "files").into_iter().map(|(k, t)| (k, chars(&t))).collect();
        if texts != self.shared {
            return fail(&["C20"], format!("the saved state holds {}, expected {}", show(&texts), show(&self.shared)));
        }
        if texts_at(&doc, "states") != texts_at(&self.peer, "states") {
            return fail(&["C20"], "the saved state holds other cursors");
        }
        Ok(())
    }

    fn expect_withdrawn(&self, got: &BTreeMap<usize, Got>, who: &Option<String>) -> Res {
        for (id, g) in got {
            let gone: Vec<&Value> = g.cursors.iter().filter(|c| c["params"]["ranges"] == json!([])).collect();
            if gone.len() != 1 || g.cursors.len() != 1 {
                return fail(&["C21"], format!("editor {id} is told {} times that a cursor is gone", g.cursors.len()));
            }
            if let Some(who) = who {
                if gone[0]["params"]["userid"] != json!(who) {
                    return fail(&["C21"], format!("editor {id} is told that {} is gone instead of {who}", gone[0]["params"]["userid"]));
                }
            }
            if self.editors.values().any(|e| e.userid.as_deref() == gone[0]["params"]["userid"].as_str()) {
                return fail(&["C21"], format!("the cursor of an editor still there is withdrawn: {}", gone[0]));
            }
        }
        Ok(())
    }

    /// The peer no longer sees a cursor of an editor that is gone.
    fn withdrawn_for_peers(&self, who: &Option<String>) -> Res {
        let Some(who) = who else { return Ok(()) };
        let states = texts_at(&self.peer, "states");
        let v: Value = states.get(who).and_then(|t| serde_json::from_str(t).ok()).unwrap_or_default();
        // Without any shared file there is nothing a cursor could be in.
        if v["ranges"] != json!([]) && !self.shared.is_empty() {
            return fail(&["C21"], format!("the cursor of an editor that is gone stays: {v}"));
        }
        Ok(())
    }

    /// An editor at the daemon's socket leaves, in one way or another.
    fn step_vanish(&mut self, rng: &mut Rng, id: usize) -> Res {
        let disk = files_on_disk(&self.base);
        let others: Vec<usize> = self.editors.keys().copied().filter(|o| *o != id).collect();
        let props = &["C19", "C21"];
        let userid = self.editors[&id].userid.clone();
        let opened: Vec<String> = self.editors[&id].open.keys().cloned().collect();
        let unread = !others.is_empty() && rng.chance(50);
        if unread {
            // It has not read everything.
            let o = *rng.pick(&others);
            let m = json!({"jsonrpc": "2.0", "method": "cursor", "params": {"uri": self.uri("a"), "ranges": []}});
            note(format!("editor {o} sends {m}"));
            let gone = self.editors.remove(&id).unwrap();
            self.post(props, o, m.to_string())?;
            self.drain();
            self.editors.insert(id, gone);
        }
        if rng.chance(30) {
            self.put_line(id, b"{\"jsonrpc");
        }
        note(format!("editor {id} leaves, {}", if unread { "without having read everything" } else { "having read everything" }));
        let gone = self.editors.remove(&id).unwrap();
        if rng.chance(30) {
            let _ = gone.stream.shutdown(std::net::Shutdown::Write);
        }
        drop(gone);
        if let Some(o) = others.first().copied() {
            self.until(props, "the editors are not told that an editor is gone", |w| {
                let e = w.editors.get_mut(&o).unwrap();
                e.take();
                e.partial.contains(&b'\n')
            })?;
        } else {
            let mut n = 0;
            self.until(props, "", |_| {
                n += 1;
                n > 30
            })?;
        }
        let got = self.drain();
        self.expect_withdrawn(&got, &userid)?;
        for f in opened {
            if !self.owned(&f) {
                self.loose.insert(f);
            }
        }
        self.sync(props)?;
        self.withdrawn_for_peers(&userid)?;
        self.compare(props, props)?;
        self.compare_disk(&["C19", "C08"], &disk, &self.loose.iter().cloned().collect::<Vec<_>>())
    }

    fn step_disconnect(&mut self, rng: &mut Rng, id: usize) -> Res {
        let r = self.leave(rng, id);
        if r.is_err() {
            // Are the others still served?
            for o in self.editors.keys().copied().collect::<Vec<_>>() {
                let m = json!({"jsonrpc": "2.0", "id": 1, "method": "close", "params": {"uri": self.uri("nothing")}});
                note(format!("editor {o} sends {m}"));
                match self.post(&["C18"], o, m.to_string()) {
                    Err(f) if f.1.contains("not answered") => return Err(f),
                    Ok(()) if self.drain()[&o].responses.is_empty() => {
                        return fail(&["C11", "C18", "C19"], format!("editor {o} gets no response after editor {id} has gone"));
                    }
                    _ => {}
                }
            }
        }
        r
    }

    fn leave(&mut self, rng: &mut Rng, id: usize) -> Res {
        if self.socket.is_some() {
            return self.step_vanish(rng, id);
        }
        let disk = files_on_disk(&self.base);
        let gone = self.editors.remove(&id).unwrap();
        note(format!("editor {id} disappears"));
        let others: Vec<usize> = self.editors.keys().copied().collect();
        let userid = gone.userid.clone();
        let opened: Vec<String> = gone.open.keys().cloned().collect();
        drop(gone);
        let props = &["C19"];
        let mut told = false;
        let mut cut = false;
        match rng.below(4) {
            0 if !others.is_empty() => {
                // The daemon notices when it has something to send.
                let o = *rng.pick(&others);
                let m = json!({"jsonrpc": "2.0", "method": "cursor", "params": {"uri": self.uri("a"), "ranges": []}});
                note(format!("editor {o} sends {m}"));
                self.send(props, DocMessage::FromEditor(o, m.to_string()))?;
                let got = self.drain();
                for (x, g) in &got {
                    if g.cursors.len() != (*x != o) as usize {
                        return fail(&["C19", "C10"], format!("editor {x} gets {} cursors", g.cursors.len()));
                    }
                }
                cut = true;
            }
            1 => {
                // It asked something before it left.
                let m = json!({"jsonrpc": "2.0", "id": 7, "method": "cursor", "params": {"uri": self.uri("a"), "ranges": []}});
                note(format!("editor {id} had sent {m}"));
                self.send(props, DocMessage::FromEditor(id, m.to_string()))?;
                self.drain();
                cut = true;
            }
            2 => {
                self.send(props, DocMessage::CloseEditorConnection(id))?;
                told = true;
                let got = self.drain();
                self.expect_withdrawn(&got, &userid)?;
            }
            _ => {}
        }
        if (told || cut) && rng.chance(60) {
            // Messages still queued are dropped.
            let f = *rng.pick(FILES);
            let method = *rng.pick(&["open", "close", "cursor", "edit"]);
            let delta = json!([{"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "replacement": "x"}]);
            let m = json!({"jsonrpc": "2.0", "id": 8, "method": method, "params": {"uri": self.uri(f), "ranges": [], "revision": 0, "delta": delta}});
            note(format!("still queued from editor {id}: {m}"));
            self.send(props, DocMessage::FromEditor(id, m.to_string()))?;
            let got = self.drain();
            for (x, g) in &got {
                if !g.cursors.is_empty() || !g.edits.is_empty() || !g.responses.is_empty() {
                    return fail(&["C19"], format!("editor {x} gets something from an editor that is gone"));
                }
            }
        }
        if !told {
            self.send(props, DocMessage::CloseEditorConnection(id))?;
            let got = self.drain();
            self.expect_withdrawn(&got, &userid)?;
        }
        for f in opened {
            if !self.owned(&f) {
                self.loose.insert(f);
            }
        }
        self.sync(props)?;
        self.withdrawn_for_peers(&userid)?;
        self.compare(props, props)?;
        self.compare_disk(&["C19", "C08"], &disk, &self.loose.iter().cloned().collect::<Vec<_>>())
    }

    /// Ends this daemon and starts another one in the same directory.
    fn step_restart(&mut self, rng: &mut Rng, size: usize) -> Res {
        let keep = rng.chance(60);
        if keep {
            self.step_persist(rng)?;
        }
        self.editors.clear();
        self.loose.clear();
        let (init, is_host) = (rng.chance(25), rng.chance(70));
        // Things happen while the daemon is off.
        for f in FILES {
            match rng.below(5) {
                0 => put(&self.base, f, gen_text(rng, size).as_bytes()),
                1 => {
                    let _ = fs::remove_file(self.base.join(f));
                }
                _ => {}
            }
        }
        for f in IGNORED {
            if rng.chance(15) {
                put(&self.base, f, b"private");
            }
        }
        if rng.chance(20) {
            put(&self.base, "bin", &[0xc3, b'(']);
        }
        if rng.chance(10) {
            if let Some(f) = self.shared.keys().find(|f| !f.starts_with('.')) {
                put(&self.base, f, &[0xff, 0xff]);
            }
        }
        let earlier: Texts = if self.persisted { self.saved_texts() } else { Texts::new() };
        let disk = files_on_disk(&self.base);
        note(format!(
            "restart, host {is_host}, init {init}, earlier state {}, disk {:?}",
            self.persisted,
            disk.iter().map(|(k, v)| (k, String::from_utf8_lossy(v))).filter(|(k, _)| *k != ".ethersync/doc").collect::<Vec<_>>()
        ));
        let heads = self.peer.get_heads();
        self.handle = start(&self.rt, &self.base, init, is_host)?;
        if self.socket.is_some() {
            self.listen()?;
        }
        let there = shareable(&self.base);
        self.shared = if self.persisted {
            let mut s = there.clone();
            if !init {
                for (f, t) in earlier {
                    // Shared earlier and unreadable or ignored now: kept.
                    if disk.contains_key(&f) {
                        s.entry(f).or_insert(t);
                    }
                }
            }
            s
        } else if is_host {
            there
        } else {
            Texts::new()
        };
        let old = std::mem::replace(&mut self.peer, AutoCommit::new());
        self.peer_state = SyncState::new();
        self.daemon_state = SyncState::new();
        self.sync(&["C14"])?;
        self.compare(&["C14"], &["C14"])?;
        self.compare_disk(&["C14"], &disk, &[])?;
        if keep && !init {
            if heads.iter().any(|h| self.peer.get_change_by_hash(h).is_none()) {
                return fail(&["C14"], "the shared history is not continued");
            }
            for f in self.shared.keys() {
                let at = |d: &AutoCommit| obj(d, &ROOT, "files").and_then(|m| obj(d, &m, f)).map(|o| o.to_string());
                if let (Some(a), b) = (at(&old), at(&self.peer)) {
                    if b.as_ref() != Some(&a) {
                        return fail(&["C14"], format!("{f} is started anew instead of having the differences applied"));
                    }
                }
            }
            self.peer = old;
            self.peer_state = SyncState::new();
            self.daemon_state = SyncState::new();
            self.sync(&["C14"])?;
            self.compare(&["C14"], &["C14"])?;
        }
        if init && self.persisted && heads.iter().any(|h| self.peer.get_change_by_hash(h).is_some() && self.peer.get_change_by_hash(h).unwrap().deps() != []) {
            return fail(&["C14"], "the shared history is not started anew");
        }
        Ok(())
    }

    fn saved_texts(&self) -> Texts {
        fs::read(self.base.join(".ethersync/doc"))
            .ok()
            .and_then(|b| AutoCommit::load(&b).ok())
            .map(|d| texts_at(&d, "files").into_iter().map(|(k, t)| (k, chars(&t))).collect())
            .unwrap_or_default()
    }
}

fn start(rt: &tokio::runtime::Runtime, base: &Path, init: bool, is_host: bool) -> Res<DocumentActorHandle> {
    let _g = rt.enter();
    guarded(|| DocumentActorHandle::new(base, init, is_host)).map_err(|p| Fail(vec!["C14", "C13"], format!("the daemon does not start: {p}")))
}

/// How often each kind of step is taken.
struct Mix {
    open: usize,
    bad: usize,
    close: usize,
    edit: usize,
    unopened: usize,
    cursor: usize,
    garbage: usize,
    peer: usize,
    watcher: usize,
    persist: usize,
    leave: usize,
    connect: usize,
    restart: usize,
    /// How often editors come through the socket, in percent.
    socket: usize,
}

const MIX: Mix =
    Mix { open: 10, bad: 2, close: 4, edit: 10, unopened: 3, cursor: 3, garbage: 1, peer: 6, watcher: 4, persist: 2, leave: 2, connect: 2, restart: 1, socket: 15 };

fn scenario(rng: &mut Rng, size: usize, mix: &Mix) -> Res {
    let mut w = World::new(rng, size, mix)?;
    for _ in 0..1 + rng.below(3) {
        w.connect()?;
    }
    let weights = [
        mix.open, mix.bad, mix.close, mix.edit, mix.unopened, mix.cursor, mix.garbage, mix.peer, mix.watcher, mix.persist, mix.leave, mix.connect,
        mix.restart,
    ];
    for _ in 0..3 + rng.below(6 + 2 * size) {
        let mut x = rng.below(weights.iter().sum());
        let mut k = 0;
        while x >= weights[k] {
            x -= weights[k];
            k += 1;
        }
        let ids: Vec<usize> = w.editors.keys().copied().collect();
        if ids.is_empty() && ![7, 8, 9, 12].contains(&k) {
            w.connect()?;
            continue;
        }
        let id = if ids.is_empty() { 0 } else { *rng.pick(&ids) };
        match k {
            0 if size > 5 && rng.below(400) == 0 => w.step_many(rng, id)?,
            0 => w.step_open(rng, id)?,
            1 => w.step_open_bad(rng, id)?,
            2 => w.step_close(rng, id)?,
            3 => w.step_edit(rng, id, size)?,
            4 if rng.chance(50) => w.step_edit_invalid(rng, id)?,
            4 => w.step_edit_unopened(rng, id)?,
            5 => w.step_cursor(rng, id)?,
            6 => w.step_garbage(rng, id)?,
            7 if !ids.is_empty() && rng.chance(25) => w.step_race(rng, id, size)?,
            7 => w.step_peer(rng, size)?,
            8 => w.step_watcher(rng, size)?,
            9 => w.step_persist(rng)?,
            10 => w.step_disconnect(rng, id)?,
            11 => {
                if ids.len() < 4 {
                    w.connect()?;
                }
            }
            _ => w.step_restart(rng, size)?,
        }
        for id in ids {
            if w.editors.contains_key(&id) && rng.chance(70) {
                w.apply_inbox(id, false, rng)?;
            }
        }
        if rng.chance(15) {
            w.converged(rng)?;
        }
    }
    w.converged(rng)
}

fn only(prop: &'static str, rng: &mut Rng, size: usize, mix: &Mix) -> Outcome {
    match scenario(rng, size, mix) {
        Ok(()) => Ok(()),
        Err(Fail(props, what)) => {
            if std::env::var("HARNESS_ALL").is_ok() || props.contains(&prop) {
                Err(format!("{what} {props:?}"))
            } else {
                Ok(())
            }
        }
    }
}

macro_rules! tests {
    ($($p:literal $name:literal $mix:expr;)*) => {
        &[$(Test { property: $p, name: $name, max_size: 8, run: |rng, size| only($p, rng, size, &$mix) }),*]
    };
}

fn main() {
    unprivileged();
    harness_main(
        tests! {
            "C01" "actor-converge" Mix { edit: 20, peer: 12, watcher: 0, restart: 0, ..MIX };
            "C05" "actor-texts" Mix { edit: 16, watcher: 10, peer: 10, ..MIX };
            "C07" "actor-uris" Mix { bad: 12, cursor: 8, ..MIX };
            "C08" "actor-ownership" Mix { watcher: 10, close: 8, ..MIX };
            "C09" "actor-peer" Mix { peer: 20, ..MIX };
            "C10" "actor-broadcast" Mix { edit: 16, cursor: 8, connect: 4, ..MIX };
            "C11" "actor-responses" Mix { bad: 8, unopened: 6, garbage: 6, ..MIX };
            "C13" "actor-ignored" Mix { bad: 14, restart: 4, ..MIX };
            "C14" "actor-start" Mix { restart: 12, persist: 4, ..MIX };
            "C18" "actor-buffers" Mix { open: 14, close: 8, edit: 14, unopened: 6, ..MIX };
            "C19" "actor-vanish" Mix { leave: 8, connect: 8, socket: 50, ..MIX };
            "C20" "actor-persist" Mix { persist: 12, ..MIX };
            "C21" "actor-cursors" Mix { cursor: 12, leave: 5, connect: 5, socket: 40, ..MIX };
        },
        &[],
    )
}
