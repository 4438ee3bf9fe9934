//! C12: the real program's `client` command between a pipe and a socket.
//!
//! Runs unprivileged, see `scratch`.

use contract_replay::scratch::*;
use contract_replay::text::*;
use contract_replay::*;
use std::io::{Read, Write};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::net::UnixListener;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::sync::OnceLock;
use std::time::Duration;

static PROGRAM: OnceLock<PathBuf> = OnceLock::new();
const PATIENCE: Duration = Duration::from_secs(30);

/// The daemon's side has one message per line.
fn gen_line(rng: &mut Rng, size: usize) -> String {
    let t = match rng.below(6) {
        0 => "Content-Length: 3\\r\\n\\r\\nabc".to_string(),
        1 => "äöü€😀".chars().cycle().take(1 + rng.below(size * 3 + 1)).collect(),
        2 => "x".repeat(*rng.pick(&[1, 9, 10, 99, 100, 1000, 8192, 9000])),
        3 => format!("{{\"jsonrpc\":\"2.0\",\"method\":\"{}\"}}", gen_text(rng, size).escape_default()),
        4 => "Content-Length: 12".to_string(),
        _ => gen_text(rng, size),
    };
    let t: String = t.chars().filter(|c| !matches!(c, '\n' | '\r')).collect();
    if t.is_empty() {
        "y".into()
    } else {
        t
    }
}

fn wanted(m: &str) -> Vec<u8> {
    let mut v = format!("Content-Length: {}\r\n\r\n", m.len()).into_bytes();
    v.extend_from_slice(m.as_bytes());
    v
}

fn collect(mut from: impl Read + Send + 'static, n: usize) -> mpsc::Receiver<Vec<u8>> {
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut all = vec![];
        let mut b = [0u8; 65536];
        while all.len() < n {
            match from.read(&mut b) {
                Ok(0) | Err(_) => break,
                Ok(k) => all.extend_from_slice(&b[..k]),
            }
        }
        let _ = tx.send(all);
    });
    rx
}

fn pieces(rng: &mut Rng, to: &mut impl Write, bytes: &[u8]) {
    let mut at = 0;
    let style = rng.below(3);
    let mut pauses = 12;
    while at < bytes.len() {
        let left = bytes.len() - at;
        let n = match style {
            0 => left,
            1 => 1 + rng.below(30),
            _ => 1 + rng.below(left),
        }
        .min(left);
        let n = if pauses == 0 { left } else { n };
        if to.write_all(&bytes[at..at + n]).is_err() {
            return;
        }
        let _ = to.flush();
        at += n;
        if pauses > 0 && at < bytes.len() {
            pauses -= 1;
            std::thread::sleep(Duration::from_micros(300));
        }
    }
}

fn forwarding(rng: &mut Rng, size: usize) -> Outcome {
    let s = Scratch::new();
    let run = s.path().join("run");
    std::fs::create_dir(&run).unwrap();
    std::fs::set_permissions(&run, std::fs::Permissions::from_mode(0o700)).unwrap();
    let listener = UnixListener::bind(run.join("sock")).unwrap();
    let up: Vec<String> = (0..1 + rng.below(size + 2)).map(|_| gen_line(rng, size)).collect();
    let down: Vec<String> = (0..1 + rng.below(size + 2)).map(|_| gen_line(rng, size)).collect();
    note(format!("from the editor {up:?}\nfrom the daemon {down:?}"));
    let mut child = Command::new(PROGRAM.get().unwrap())
        .args(["client", "--socket-name", "sock"])
        .env("XDG_RUNTIME_DIR", &run)
        .env_remove("ETHERSYNC_SOCKET")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("start client");
    listener.set_nonblocking(true).unwrap();
    let start = std::time::Instant::now();
    let socket = loop {
        match listener.accept() {
            Ok((c, _)) => break Some(c),
            Err(_) if start.elapsed() > PATIENCE => break None,
            Err(_) => std::thread::sleep(Duration::from_micros(200)),
        }
    };
    let Some(mut socket) = socket else {
        let _ = child.kill();
        let _ = child.wait();
        return Err("the client does not connect to the socket".into());
    };
    socket.set_nonblocking(false).unwrap();
    let stream: Vec<u8> = up.iter().flat_map(|m| wanted(m)).collect();
    let lines: Vec<u8> = up.iter().flat_map(|m| format!("{m}\n").into_bytes()).collect();
    let replies: Vec<u8> = down.iter().flat_map(|m| format!("{m}\n").into_bytes()).collect();
    let framed: Vec<u8> = down.iter().flat_map(|m| wanted(m)).collect();
    let got_up = collect(socket.try_clone().unwrap(), lines.len());
    let got_down = collect(child.stdout.take().unwrap(), framed.len());
    let mut stdin = child.stdin.take().unwrap();
    pieces(rng, &mut stdin, &stream);
    pieces(rng, &mut socket, &replies);
    let a = got_up.recv_timeout(PATIENCE);
    let b = got_down.recv_timeout(PATIENCE);
    let _ = child.kill();
    let _ = child.wait();
    let show = |v: &[u8]| String::from_utf8_lossy(&v[..v.len().min(800)]).into_owned();
    match a {
        Ok(v) if v == lines => {}
        Ok(v) => return Err(format!("the daemon gets {:?}, expected {:?}", show(&v), show(&lines))),
        Err(_) => return Err("the daemon does not get the editor's messages".into()),
    }
    match b {
        Ok(v) if v == framed => Ok(()),
        Ok(v) => Err(format!("the editor gets {:?}, expected {:?}", show(&v), show(&framed))),
        Err(_) => Err("the editor does not get the daemon's messages".into()),
    }
}

fn main() {
    PROGRAM.set(program("ethersync")).unwrap();
    unprivileged();
    harness_main(&[Test { property: "C12", name: "forwarding", max_size: 6, run: forwarding }], &[])
}
