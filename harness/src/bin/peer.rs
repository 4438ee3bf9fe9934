//! C15 and C16: key files, socket directories and connection settings.
//!
//! Runs unprivileged, see `scratch`.

use automerge::{AutoCommit, ReadDoc, ROOT};
use contract_replay::scratch::*;
use contract_replay::*;
use ethersync::daemon::DocumentActorHandle;
use ethersync::editor::{get_socket_path, make_editor_connection};
use ethersync::peer::{P2PActor, PeerConnectionInfo};
use std::fs;
use std::net::TcpListener;
use std::os::unix::fs::{symlink, PermissionsExt};
use std::os::unix::net::UnixStream;
use std::path::{Component, Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

static PROGRAM: OnceLock<PathBuf> = OnceLock::new();

fn chmod(p: &Path, mode: u32) {
    fs::set_permissions(p, fs::Permissions::from_mode(mode)).unwrap();
}

fn mode(p: &Path) -> u32 {
    fs::metadata(p).unwrap().permissions().mode() & 0o7777
}

fn umask(m: u32) {
    unsafe { libc::umask(m as libc::mode_t) };
}

fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

fn nothing() -> PeerConnectionInfo {
    PeerConnectionInfo { port: None, peer: None, passphrase: None }
}

fn project(s: &Scratch) -> PathBuf {
    let base = s.path().join("proj");
    fs::create_dir_all(base.join(".ethersync")).unwrap();
    base
}

/// Runs the peer-to-peer actor for a moment. Ok(true): it is still running.
fn run_actor(base: &Path) -> Result<bool, String> {
    let rt = runtime();
    guarded(|| {
        rt.block_on(async {
            let handle = DocumentActorHandle::new(base, false, true);
            let actor = P2PActor::new(nothing(), handle, base);
            tokio::time::timeout(Duration::from_millis(30), actor.run()).await.is_err()
        })
    })
}

/// The bytes of a key the program accepts.
fn key_bytes() -> &'static Vec<u8> {
    static KEY: OnceLock<Vec<u8>> = OnceLock::new();
    KEY.get_or_init(|| {
        let s = Scratch::new();
        let base = project(&s);
        umask(0o022);
        let _ = run_actor(&base);
        fs::read(base.join(".ethersync/key")).unwrap_or_default()
    })
}

fn existing_key(rng: &mut Rng, _: usize) -> Outcome {
    let s = Scratch::new();
    let base = project(&s);
    let key = base.join(".ethersync/key");
    let bytes = key_bytes();
    let m = match rng.below(4) {
        0 => 0o600,
        // One bit more or less.
        1 => 0o600 ^ (1 << rng.below(12)),
        2 => *rng.pick(&[0o644, 0o640, 0o604, 0o660, 0o666, 0o400, 0o700, 0o777, 0o000, 0o200, 0o4600, 0o1600, 0o2600, 0o1644, 0o444]),
        _ => rng.below(0o10000) as u32,
    };
    let linked = rng.chance(25);
    if linked {
        fs::write(s.path().join("k"), bytes).unwrap();
        symlink(s.path().join("k"), &key).unwrap();
    } else {
        fs::write(&key, bytes).unwrap();
    }
    chmod(&key, m);
    if mode(&key) != m {
        return Ok(());
    }
    note(format!("key file with mode {m:o}{}", if linked { " behind a link" } else { "" }));
    umask(*rng.pick(&[0o022, 0o077, 0]));
    let r = run_actor(&base);
    note(format!("actor: {r:?}"));
    match (m == 0o600, r) {
        (true, Ok(true)) => {
            if fs::read(&key).ok().as_ref() != Some(bytes) {
                return Err("the key file has been replaced".into());
            }
        }
        (true, _) => return Err("the key file is refused".into()),
        (false, Ok(true)) => return Err("the key file is used".into()),
        (false, _) => {}
    }
    if mode(&key) != m {
        return Err(format!("the key file's mode has become {:o}", mode(&key)));
    }
    Ok(())
}

fn new_key(rng: &mut Rng, _: usize) -> Outcome {
    let s = Scratch::new();
    let base = project(&s);
    let key = base.join(".ethersync/key");
    let u = *rng.pick(&[0o022, 0o077, 0, 0o002, 0o027]);
    note(format!("no key file, umask {u:o}"));
    umask(u);
    let r = run_actor(&base);
    umask(0o022);
    if r != Ok(true) {
        return Err(format!("the actor does not run: {r:?}"));
    }
    if !key.is_file() || fs::read(&key).map(|b| b.is_empty()).unwrap_or(true) {
        return Err("there is no key file afterwards".into());
    }
    if mode(&key) != 0o600 {
        return Err(format!("the new key file has mode {:o}", mode(&key)));
    }
    let before = fs::read(&key).unwrap();
    if run_actor(&base) != Ok(true) || fs::read(&key).unwrap() != before {
        return Err("the new key file is not used at the next start".into());
    }
    Ok(())
}

fn socket_name(rng: &mut Rng, size: usize) -> Outcome {
    let s = Scratch::new();
    std::env::set_var("XDG_RUNTIME_DIR", s.path());
    let parts = ["a", "..", ".", "/", "b", "ü", " ", "...", ".x", "//", "../", "./"];
    let name: String = if rng.chance(30) {
        (*rng.pick(&["ethersync", "a/b", "..", ".", "/", "/a", "../a", "a/..", "./a", "", "sub/sock", "/tmp/x", "...", "a b"])).into()
    } else {
        (0..rng.below(size + 2)).map(|_| *rng.pick(&parts)).collect()
    };
    note(format!("socket name {name:?}"));
    let r = guarded(|| get_socket_path(Path::new(&name)));
    std::env::remove_var("XDG_RUNTIME_DIR");
    let plain = {
        let c: Vec<Component> = Path::new(&name).components().collect();
        matches!(c[..], [Component::Normal(_)])
    };
    match (plain, r) {
        (true, Ok(p)) if p == s.path().join(&name) => Ok(()),
        (true, r) => Err(format!("expected the socket in the run-time directory, got {r:?}")),
        (false, Ok(p)) => Err(format!("accepted as {}", p.display())),
        (false, Err(_)) => Ok(()),
    }
}

struct Removed(PathBuf);

impl Drop for Removed {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// Without a run-time directory, one of the user's own is made in /tmp.
fn fallback_dir(rng: &mut Rng, _: usize) -> Outcome {
    let user = format!("contract-replay-{}-{}", std::process::id(), rng.below(1000));
    let dir = Removed(PathBuf::from(format!("/tmp/ethersync-{user}")));
    std::env::remove_var("XDG_RUNTIME_DIR");
    std::env::set_var("USER", &user);
    let u = *rng.pick(&[0o022, 0o077, 0, 0o002]);
    note(format!("no run-time directory, umask {u:o}"));
    umask(u);
    let r = guarded(|| get_socket_path(Path::new("sock")));
    umask(0o022);
    let Ok(p) = r else { return Err(format!("no socket path: {r:?}")) };
    let Some(parent) = p.parent() else { return Err(format!("socket at {}", p.display())) };
    if p.file_name() != Some("sock".as_ref()) {
        return Err(format!("socket at {}", p.display()));
    }
    if mode(parent) & 0o077 != 0 {
        return Err(format!("{} is made with mode {:o}", parent.display(), mode(parent)));
    }
    if parent != dir.0 {
        return Err(format!("socket at {}", p.display()));
    }
    Ok(())
}

fn socket_dir(rng: &mut Rng, _: usize) -> Outcome {
    let s = Scratch::new();
    let base = project(&s);
    let dir = s.path().join("run");
    fs::create_dir(&dir).unwrap();
    let m = match rng.below(4) {
        0 => 0o700,
        1 => 0o700 | (1 << rng.below(6)),
        2 => *rng.pick(&[0o755, 0o750, 0o705, 0o777, 0o1777, 0o711, 0o701, 0o710, 0o740, 0o704, 0o770, 0o1700]),
        _ => 0o700 | rng.below(0o100) as u32 | if rng.chance(20) { 0o1000 } else { 0 },
    };
    let linked = rng.chance(25);
    let via = if linked {
        symlink(&dir, s.path().join("link")).unwrap();
        s.path().join("link")
    } else {
        dir.clone()
    };
    let stale = rng.chance(30);
    if stale {
        fs::write(dir.join("sock"), b"old").unwrap();
    }
    chmod(&dir, m);
    note(format!("socket in a directory with mode {m:o}, behind a link {linked}, left over from before {stale}"));
    let rt = runtime();
    let socket = via.join("sock");
    if rng.chance(50) {
        note("this is the run-time directory");
        std::env::set_var("XDG_RUNTIME_DIR", &via);
    }
    let r = guarded(|| {
        rt.block_on(async {
            let handle = DocumentActorHandle::new(&base, false, true);
            let _ = tokio::time::timeout(Duration::from_millis(20), make_editor_connection(socket.clone(), handle)).await;
        })
    });
    std::env::remove_var("XDG_RUNTIME_DIR");
    use std::os::unix::fs::FileTypeExt;
    let there = fs::symlink_metadata(&socket).map(|m| m.file_type().is_socket()).unwrap_or(false);
    let loose = mode(&dir);
    chmod(&dir, 0o700);
    drop(rt);
    if loose != m {
        return Err(format!("the directory's mode has become {loose:o}"));
    }
    match (m & 0o077 != 0, there) {
        (true, true) => Err("the socket is set up".into()),
        (true, false) if r.is_ok() => Err("no refusal".into()),
        (false, false) if m == 0o700 && !linked => Err(format!("the socket is not set up: {r:?}")),
        _ => Ok(()),
    }
}

// ---- C16

const PEERS: &[&str] = &["", "/ip4/1.2.3.4/tcp/1", "p", "/ip4/1.2.3.4/tcp/1/p2p/12D3KooWEXWmmvk8YZoFTzZcdGpWBDPvLzLwpJrRSpwfnkNTrq4j", "/dns4/example.org/tcp/4242/"];
const SECRETS: &[&str] = &["", "geheim", "s2", "two  words", "GEHEIM", "a-long-secret-that-needs-more-than-sixty-four-bytes-to-be-written-down-1", "default-passphrase", "0"];

fn gen_info(rng: &mut Rng) -> PeerConnectionInfo {
    PeerConnectionInfo {
        port: rng.chance(50).then(|| *rng.pick(&[0, 1, 4242, 65535, 8080])),
        peer: rng.chance(50).then(|| rng.pick(PEERS).to_string()),
        passphrase: rng.chance(50).then(|| rng.pick(SECRETS).to_string()),
    }
}

fn show(i: &PeerConnectionInfo) -> String {
    format!("port {:?} peer {:?} secret {:?}", i.port, i.peer, i.passphrase)
}

fn merging(rng: &mut Rng, _: usize) -> Outcome {
    let (a, b) = (gen_info(rng), gen_info(rng));
    note(format!("command line: {}\nconfig file: {}", show(&a), show(&b)));
    let want = PeerConnectionInfo {
        port: if a.port.is_some() { a.port } else { b.port },
        peer: if a.peer.is_some() { a.peer.clone() } else { b.peer.clone() },
        passphrase: if a.passphrase.is_some() { a.passphrase.clone() } else { b.passphrase.clone() },
    };
    let got = a.takes_precedence_over(b);
    if show(&got) != show(&want) {
        return Err(format!("result: {}\nexpected: {}", show(&got), show(&want)));
    }
    if got.is_host() != want.peer.is_none() {
        return Err(format!("is_host is {}", got.is_host()));
    }
    Ok(())
}

fn gen_config(rng: &mut Rng, i: &PeerConnectionInfo) -> String {
    let mut lines = vec![];
    let mut line = |rng: &mut Rng, k: &str, v: &str| {
        let l = match rng.below(3) {
            0 => format!("{k}={v}"),
            1 => format!("{k} = {v}"),
            _ => format!("  {k} =  {v} "),
        };
        lines.push(l);
    };
    if let Some(p) = i.port {
        line(rng, "port", &p.to_string());
    }
    if let Some(p) = &i.peer {
        line(rng, "peer", p);
    }
    if let Some(p) = &i.passphrase {
        line(rng, "secret", p);
    }
    if rng.chance(30) {
        lines.push("# comment".into());
    }
    if rng.chance(30) {
        line_other(rng, &mut lines);
    }
    let n = lines.len();
    if n > 1 {
        let k = rng.below(n);
        lines.rotate_left(k);
    }
    lines.join("\n") + if rng.chance(70) { "\n" } else { "" }
}

fn line_other(rng: &mut Rng, lines: &mut Vec<String>) {
    lines.push((*rng.pick(&["ports = 7", "other = x", "username = me"])).into());
}

fn config_file(rng: &mut Rng, _: usize) -> Outcome {
    let s = Scratch::new();
    let f = s.path().join("config");
    if rng.chance(10) {
        note("no config file");
        return match guarded(|| PeerConnectionInfo::from_config_file(&f).map(|i| show(&i))) {
            Ok(None) => Ok(()),
            r => Err(format!("result: {r:?}")),
        };
    }
    let want = gen_info(rng);
    let text = gen_config(rng, &want);
    note(format!("config file {text:?}"));
    fs::write(&f, &text).unwrap();
    match guarded(|| PeerConnectionInfo::from_config_file(&f).map(|i| show(&i))) {
        Ok(Some(got)) if got == show(&want) => Ok(()),
        r => Err(format!("result: {r:?}\nexpected: {}", show(&want))),
    }
}

struct Killed(Child);

impl Drop for Killed {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

/// TCP ports the process listens on.
fn listening(pid: u32) -> Vec<u16> {
    let mut inodes = vec![];
    for e in fs::read_dir(format!("/proc/{pid}/fd")).into_iter().flatten().flatten() {
        if let Ok(t) = fs::read_link(e.path()) {
            if let Some(i) = t.to_string_lossy().strip_prefix("socket:[").and_then(|t| t.strip_suffix(']').map(String::from)) {
                inodes.push(i);
            }
        }
    }
    let table = fs::read_to_string(format!("/proc/{pid}/net/tcp")).unwrap_or_default();
    table
        .lines()
        .skip(1)
        .filter_map(|l| {
            let c: Vec<&str> = l.split_whitespace().collect();
            (c.len() > 9 && c[3] == "0A" && inodes.iter().any(|i| i == c[9]))
                .then(|| u16::from_str_radix(c[1].rsplit(':').next().unwrap(), 16).ok())
                .flatten()
        })
        .collect()
}

fn wait<T>(seconds: u64, mut f: impl FnMut() -> Option<T>) -> Option<T> {
    let start = Instant::now();
    loop {
        if let Some(x) = f() {
            return Some(x);
        }
        if start.elapsed() > Duration::from_secs(seconds) {
            return None;
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}

fn whole_program(rng: &mut Rng, _: usize) -> Outcome {
    let s = Scratch::new();
    let base = project(&s);
    fs::write(base.join("f"), "text").unwrap();
    let run = s.path().join("run");
    fs::create_dir(&run).unwrap();
    chmod(&run, 0o700);
    let peers = [TcpListener::bind("127.0.0.1:0").unwrap(), TcpListener::bind("127.0.0.1:0").unwrap()];
    let address = |l: &TcpListener| format!("/ip4/127.0.0.1/tcp/{}", l.local_addr().unwrap().port());
    let free: Vec<u16> = {
        let ls: Vec<TcpListener> = (0..2).map(|_| TcpListener::bind("127.0.0.1:0").unwrap()).collect();
        ls.iter().map(|l| l.local_addr().unwrap().port()).collect()
    };
    let given = |rng: &mut Rng, i: usize| PeerConnectionInfo {
        port: rng.chance(60).then(|| free[i]),
        peer: rng.chance(45).then(|| address(&peers[i])),
        passphrase: None,
    };
    let (cli, conf) = (given(rng, 0), given(rng, 1));
    let mut c = Command::new(PROGRAM.get().unwrap());
    c.arg("daemon").arg(&base).args(["--socket-name", "sock"]);
    if let Some(p) = cli.port {
        c.args(["--port", &p.to_string()]);
    }
    if let Some(p) = &cli.peer {
        c.args(["--peer", p]);
    }
    if rng.chance(85) || conf.port.is_some() || conf.peer.is_some() {
        fs::write(base.join(".ethersync/config"), gen_config(rng, &conf)).unwrap();
    }
    note(format!("command line: {}\nconfig file: {}", show(&cli), show(&conf)));
    c.env("XDG_RUNTIME_DIR", &run).env_remove("ETHERSYNC_SOCKET");
    let child = Killed(c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("start"));
    let pid = child.0.id();
    let Some(ports) = wait(30, || Some(listening(pid)).filter(|p| !p.is_empty())) else {
        return Err("the daemon does not listen on any port".into());
    };
    if let Some(p) = cli.port.or(conf.port) {
        if ports != [p] {
            return Err(format!("listens on {ports:?}, expected {p}"));
        }
    }
    let want = cli.peer.clone().or(conf.peer.clone());
    for l in &peers {
        l.set_nonblocking(true).unwrap();
    }
    if let Some(w) = &want {
        let Some(got) = wait(30, || peers.iter().find(|l| l.accept().is_ok()).map(address)) else {
            return Err(format!("no connection to any peer, expected {w}"));
        };
        if got != *w {
            return Err(format!("connects to {got}, expected {w}"));
        }
    }
    // A host shares what is in the directory, others do not.
    let doc = base.join(".ethersync/doc");
    let loaded = wait(30, || fs::read(&doc).ok().and_then(|b| AutoCommit::load(&b).ok()).filter(|d| d.get(ROOT, "files").ok().flatten().is_some() || want.is_some()));
    let Some(d) = loaded else { return Err("no state is saved, or a host's without files".into()) };
    let files: Vec<String> = d.get(ROOT, "files").ok().flatten().map(|(_, o)| d.keys(&o).collect()).unwrap_or_default();
    if files.iter().any(|f| f == "f") != want.is_none() {
        return Err(format!("shared files are {files:?} with peer {want:?}"));
    }
    if wait(10, || UnixStream::connect(run.join("sock")).ok()).is_none() {
        return Err("the editors' socket does not accept connections".into());
    }
    Ok(())
}

/// Two daemons synchronise exactly if their secrets are the same.
fn secrets(rng: &mut Rng, _: usize) -> Outcome {
    const MORE: &[&str] = &["geheim ", "geheim2", "a-long-secret-that-needs-more-than-sixty-four-bytes-to-be-written-down-2", "a-long-secret-that-needs-more-than-s"];
    let gen = |rng: &mut Rng| rng.chance(80).then(|| if rng.chance(70) { rng.pick(SECRETS) } else { rng.pick(MORE) }.to_string());
    let a = gen(rng);
    // The same one, one that is nearly the same, or any.
    let b = match (rng.below(5), &a) {
        (0 | 1, _) => a.clone(),
        (2 | 3, Some(a)) => Some(match rng.below(6) {
            0 => a.to_uppercase(),
            1 => format!("{a} "),
            2 => format!(" {a}"),
            3 => a.chars().take(a.chars().count() / 2).collect(),
            4 => format!("{a}{}", rng.pick(&["1", "\n", "ä", "\0"])),
            _ => a.chars().rev().collect(),
        }),
        _ => gen(rng),
    };
    // What is used without a secret is not promised.
    if a.is_some() != b.is_some() {
        return Ok(());
    }
    note(format!("secrets {a:?} and {b:?}"));
    let s = Scratch::new();
    let bases = [s.path().join("host"), s.path().join("guest")];
    for b in &bases {
        fs::create_dir_all(b.join(".ethersync")).unwrap();
    }
    fs::write(bases[0].join("f"), "text").unwrap();
    let port = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    let rt = runtime();
    let synced = guarded(|| {
        rt.block_on(async {
            let host = PeerConnectionInfo { port: Some(port), peer: None, passphrase: a.clone() };
            let actor = P2PActor::new(host, DocumentActorHandle::new(&bases[0], false, true), &bases[0]);
            tokio::spawn(actor.run());
            // It listens.
            let address = format!("127.0.0.1:{port}");
            let start = Instant::now();
            while tokio::net::TcpStream::connect(&address).await.is_err() && start.elapsed() < Duration::from_secs(10) {
                tokio::time::sleep(Duration::from_millis(2)).await;
            }
            let guest = PeerConnectionInfo { port: None, peer: Some(format!("/ip4/127.0.0.1/tcp/{port}")), passphrase: b.clone() };
            let actor = P2PActor::new(guest, DocumentActorHandle::new(&bases[1], false, false), &bases[1]);
            tokio::spawn(actor.run());
            let start = Instant::now();
            let patience = if a == b { 20_000 } else { 400 };
            while start.elapsed() < Duration::from_millis(patience) {
                if fs::read_to_string(bases[1].join("f")).is_ok_and(|t| t == "text") {
                    return true;
                }
                tokio::time::sleep(Duration::from_millis(2)).await;
            }
            false
        })
    });
    drop(rt);
    match synced {
        Ok(s) if s == (a == b) => Ok(()),
        Ok(true) => Err("the daemons synchronise".into()),
        Ok(false) => Err("the daemons do not synchronise".into()),
        Err(p) => Err(format!("a daemon ends: {p}")),
    }
}

fn main() {
    PROGRAM.set(program("ethersync")).unwrap();
    unprivileged();
    harness_main(
        &[
            Test { property: "C15", name: "existing_key", max_size: 3, run: existing_key },
            Test { property: "C15", name: "new_key", max_size: 3, run: new_key },
            Test { property: "C15", name: "socket_name", max_size: 4, run: socket_name },
            Test { property: "C15", name: "fallback_dir", max_size: 3, run: fallback_dir },
            Test { property: "C15", name: "socket_dir", max_size: 3, run: socket_dir },
            Test { property: "C16", name: "merging", max_size: 3, run: merging },
            Test { property: "C16", name: "config_file", max_size: 3, run: config_file },
            Test { property: "C16", name: "whole_program", max_size: 3, run: whole_program },
            Test { property: "C16", name: "secrets", max_size: 3, run: secrets },
        ],
        &[],
    )
}
