//! C17: the watcher on real files.
//!
//! Runs unprivileged, see `scratch`.

use contract_replay::scratch::*;
use contract_replay::*;
use ethersync::watcher::{Watcher, WatcherEvent};
use std::collections::BTreeSet;
use std::fs;
use std::io::Write;
use std::os::unix::fs::PermissionsExt;
use std::path::Path;
use std::time::Duration;

const FILES: &[&str] = &["a", "b", "d/a", "d/deep/n", "ü x", "~t", "c.txt"];
const IGNORED: &[&str] = &["x.ign", "d/y.ign", "secret/f", ".git/config", ".ethersync/z", "d/.git/k"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Created,
    Changed,
    Removed,
}

fn plain(base: &Path, e: WatcherEvent) -> (Kind, String) {
    let (k, p) = match e {
        WatcherEvent::Created { file_path } => (Kind::Created, file_path),
        WatcherEvent::Changed { file_path } => (Kind::Changed, file_path),
        WatcherEvent::Removed { file_path } => (Kind::Removed, file_path),
    };
    (k, p.strip_prefix(base).map(|p| p.display().to_string()).unwrap_or(format!("outside: {}", p.display())))
}

fn write(p: &Path, b: &[u8]) {
    let mut f = fs::OpenOptions::new().append(true).open(p).unwrap();
    f.write_all(b).unwrap();
}

fn watching(rng: &mut Rng, size: usize) -> Outcome {
    let s = Scratch::new();
    let base = s.path().join("proj");
    let ignored = |f: &str| IGNORED.contains(&f);
    let all: Vec<&str> = FILES.iter().chain(IGNORED).copied().collect();
    for f in &all {
        fs::create_dir_all(base.join(f).parent().unwrap()).unwrap();
    }
    fs::create_dir_all(s.path().join("outside")).unwrap();
    fs::write(base.join(".ignore"), "*.ign\nsecret/\n").unwrap();
    let mut there: BTreeSet<&str> = BTreeSet::new();
    for f in &all {
        if rng.chance(50) {
            fs::write(base.join(f), "x").unwrap();
            there.insert(f);
        }
    }
    note(format!("files {there:?}"));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut w = Watcher::new(&base);
    let mut serial = 0;
    for _ in 0..1 + size {
        // A few things happen before anything is asked.
        let mut want: Vec<(Kind, String)> = vec![];
        let mut touched: BTreeSet<&str> = BTreeSet::new();
        let mut gone: BTreeSet<&str> = BTreeSet::new();
        for _ in 0..1 + rng.below(4) {
            let f = *rng.pick(&all);
            let p = base.join(f);
            // What the ignore check finds must not depend on when it looks.
            let fresh = !touched.contains(f);
            match rng.below(8) {
                0 | 1 if !there.contains(f) && (fresh || gone.contains(f)) => {
                    note(format!("create {f}"));
                    fs::File::create(&p).unwrap();
                    there.insert(f);
                    if !ignored(f) {
                        want.push((Kind::Created, f.into()));
                    }
                }
                2 | 3 if there.contains(f) && want.last() != Some(&(Kind::Changed, f.to_string())) => {
                    note(format!("write {f}"));
                    write(&p, b"more");
                    if !ignored(f) {
                        want.push((Kind::Changed, f.into()));
                    }
                }
                4 if there.contains(f) && fresh => {
                    note(format!("remove {f}"));
                    fs::remove_file(&p).unwrap();
                    there.remove(f);
                    gone.insert(f);
                    want.push((Kind::Removed, f.into()));
                }
                5 | 6 if there.contains(f) && fresh => {
                    let g = *rng.pick(&all);
                    if g == f || touched.contains(g) {
                        continue;
                    }
                    note(format!("rename {f} to {g}"));
                    fs::rename(&p, base.join(g)).unwrap();
                    there.remove(f);
                    gone.insert(f);
                    there.insert(g);
                    touched.insert(g);
                    want.push((Kind::Removed, f.into()));
                    if !ignored(g) {
                        want.push((Kind::Created, g.into()));
                    }
                }
                7 if there.contains(f) => {
                    note(format!("read {f}, change its mode"));
                    let _ = fs::read(&p);
                    let _ = fs::set_permissions(&p, fs::Permissions::from_mode(if rng.chance(50) { 0o600 } else { 0o644 }));
                    let _ = fs::read_dir(base.join("d")).map(|d| d.count());
                    let _ = fs::write(s.path().join("outside/f"), "y");
                }
                _ => continue,
            }
            touched.insert(f);
        }
        serial += 1;
        let mark = format!("mark{serial}");
        fs::File::create(base.join(&mark)).unwrap();
        let mut got = vec![];
        loop {
            let e = rt.block_on(async { tokio::time::timeout(Duration::from_secs(10), w.next()).await });
            match e {
                Err(_) => return Err(format!("events {got:?} and no more; expected {want:?} and the creation of {mark}")),
                Ok(None) => return Err(format!("events end after {got:?}")),
                Ok(Some(e)) => {
                    let e = plain(&base, e);
                    if e == (Kind::Created, mark.clone()) {
                        break;
                    }
                    got.push(e);
                }
            }
        }
        note(format!("  events {got:?}"));
        // Whether the removal of an ignored file is reported is left open.
        let relevant = |v: &Vec<(Kind, String)>| v.iter().filter(|(k, f)| !(*k == Kind::Removed && ignored(f))).cloned().collect::<Vec<_>>();
        let (g, x) = (relevant(&got), relevant(&want));
        if g != x {
            return Err(format!("events {g:?}, expected {x:?}"));
        }
    }
    // Nothing is left over.
    match rt.block_on(async { tokio::time::timeout(Duration::from_millis(15), w.next()).await }) {
        Ok(e) => Err(format!("one more event: {e:?}")),
        Err(_) => Ok(()),
    }
}

fn main() {
    unprivileged();
    harness_main(&[Test { property: "C17", name: "watching", max_size: 10, run: watching }], &[])
}
