//! Scratch directories for code that touches files.
//!
//! `unprivileged` gives up root for good before any such code runs: the process then owns nothing
//! but its own scratch directory, so a call that escapes its bounds reaches nothing real.

use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;

static TOP: OnceLock<PathBuf> = OnceLock::new();
static NEXT: AtomicUsize = AtomicUsize::new(0);

const NOBODY: u32 = 65534;

fn chown(p: &Path, id: u32) {
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    unsafe { libc::chown(c.as_ptr(), id, id) };
}

fn top() -> &'static Path {
    TOP.get_or_init(|| {
        let t = std::env::temp_dir().canonicalize().expect("temporary directory");
        let p = t.join(format!("contract-replay-{}", std::process::id()));
        let _ = fs::remove_dir_all(&p);
        fs::create_dir(&p).expect("scratch directory");
        p
    })
}

/// Creates the scratch directory and becomes an unprivileged user owning nothing else.
pub fn unprivileged() {
    let t = top();
    unsafe {
        if libc::geteuid() == 0 {
            chown(t, NOBODY);
            libc::setgroups(0, std::ptr::null());
            if libc::setgid(NOBODY) != 0 || libc::setuid(NOBODY) != 0 || libc::geteuid() == 0 {
                eprintln!("cannot give up privileges");
                cleanup();
                std::process::exit(3);
            }
        }
    }
    std::env::set_var("HOME", t);
    std::env::set_var("USER", "contract-replay");
    std::env::remove_var("XDG_CONFIG_HOME");
    std::env::remove_var("XDG_RUNTIME_DIR");
    let _ = std::env::set_current_dir(t);
}

pub fn cleanup() {
    if let Some(t) = TOP.get() {
        let _ = fs::remove_dir_all(t);
    }
}

/// A fresh directory, removed when dropped.
pub struct Scratch(PathBuf);

impl Scratch {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        let p = top().join(format!("s{}", NEXT.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir(&p).expect("scratch directory");
        Self(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// Everything below `root` without following links: relative path, kind, content or target.
pub fn snapshot(root: &Path) -> Vec<(PathBuf, String)> {
    fn go(root: &Path, dir: &Path, out: &mut Vec<(PathBuf, String)>) {
        let Ok(rd) = fs::read_dir(dir) else { return };
        let mut names: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        names.sort();
        for p in names {
            let rel = p.strip_prefix(root).unwrap().to_path_buf();
            let Ok(m) = fs::symlink_metadata(&p) else { continue };
            if m.is_symlink() {
                out.push((rel, format!("link {}", fs::read_link(&p).unwrap().display())));
            } else if m.is_dir() {
                out.push((rel, "dir".into()));
                go(root, &p, out);
            } else {
                out.push((rel, format!("file {:?}", fs::read(&p).unwrap_or_default())));
            }
        }
    }
    let mut out = vec![];
    go(root, root, &mut out);
    out
}

/// Makes a copy of a program built next to this one which an unprivileged user can run.
/// To be called before `unprivileged`.
pub fn program(name: &str) -> PathBuf {
    let from = std::env::current_exe().expect("own path").with_file_name(name);
    let to = top().join(format!("bin-{name}"));
    if fs::copy(&from, &to).is_err() {
        eprintln!("no program {}", from.display());
        cleanup();
        std::process::exit(3);
    }
    to
}
