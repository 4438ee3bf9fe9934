//! C06, C07, C13: the sandbox functions and the path types, on real directory trees.
//!
//! Runs unprivileged, see `scratch`.

use contract_replay::scratch::*;
use contract_replay::*;
use ethersync::path::{AbsolutePath, FileUri, RelativePath};
use ethersync::sandbox;
use std::fs;
use std::os::unix::fs::symlink;
use std::path::{Component, Path, PathBuf};

const NAMES: &[&str] = &["a", "b", "d", "e", "proj", "ü", ".h"];
const MISSING: &[&str] = &["n1", "n2", "a", "x y"];

/// Everything lives three levels below the scratch directory, so that parent references stay inside.
fn home(root: &Path) -> PathBuf {
    root.join("p/q/r")
}

fn build(rng: &mut Rng, root: &Path, size: usize) -> PathBuf {
    let home = home(root);
    let base = home.join("proj");
    fs::create_dir_all(base.join("d")).unwrap();
    fs::create_dir_all(home.join("out/sub")).unwrap();
    fs::create_dir_all(home.join("proj2")).unwrap();
    fs::write(home.join("secret"), "secret").unwrap();
    fs::write(home.join("proj2/a"), "neighbour").unwrap();
    fs::write(home.join("out/a"), "outside").unwrap();
    fs::write(base.join("a"), "inside").unwrap();
    let mut dirs = vec![base.clone(), base.join("d")];
    for i in 0..2 + rng.below(size + 2) {
        let dir = rng.pick(&dirs).clone();
        let p = dir.join(rng.pick(NAMES));
        if fs::symlink_metadata(&p).is_ok() {
            continue;
        }
        match rng.below(6) {
            0 | 1 => {
                fs::create_dir(&p).unwrap();
                dirs.push(p);
            }
            2 => fs::write(&p, format!("content {i}")).unwrap(),
            _ => {
                let target: PathBuf = match rng.below(12) {
                    0 => base.join("a"),
                    1 => base.join("d"),
                    2 => home.join("out"),
                    3 => home.join("out/a"),
                    4 => home.join("out/new"),
                    5 => base.join("d/new"),
                    6 => "../secret".into(),
                    7 => "d/../a".into(),
                    8 => home.join("proj2"),
                    9 => home.join("out/missing/new"),
                    10 => p.clone(),
                    _ => "b".into(),
                };
                symlink(target, &p).unwrap();
            }
        }
    }
    base
}

fn gen_path(rng: &mut Rng, base: &Path, size: usize) -> String {
    let mut s = match rng.below(12) {
        0 => home_of(base).join("out").display().to_string(),
        1 => format!("{}2", base.display()),
        2 => home_of(base).display().to_string(),
        3 => "proj".into(),
        _ => base.display().to_string(),
    };
    let mut up = 0;
    for _ in 0..rng.below(2 + size.min(5)) {
        s.push('/');
        if rng.chance(8) {
            s.push('/');
        }
        match rng.below(10) {
            0 | 1 if up < 3 => {
                s.push_str("..");
                up += 1;
            }
            2 => s.push('.'),
            3 | 4 => s.push_str(rng.pick(MISSING)),
            5 => s.push_str("new"),
            6 => s.push_str("secret"),
            _ => s.push_str(rng.pick(NAMES)),
        }
    }
    if rng.chance(5) {
        s.push('/');
    }
    s
}

fn home_of(base: &Path) -> PathBuf {
    base.parent().unwrap().to_path_buf()
}

/// Removes "." and "..", by name.
fn clean(p: &Path) -> PathBuf {
    let mut v: Vec<std::ffi::OsString> = vec![];
    for c in p.components() {
        match c {
            Component::Normal(n) => v.push(n.to_owned()),
            Component::ParentDir => {
                v.pop();
            }
            _ => {}
        }
    }
    let mut out = PathBuf::from("/");
    out.extend(v);
    out
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum Kind {
    Exists,
    Missing,
    Dangling,
    Loop,
}

/// Where the operating system ends up for `p`, following every link.
fn resolve(p: &Path, depth: usize) -> (PathBuf, Kind) {
    if depth > 20 {
        return (p.to_path_buf(), Kind::Loop);
    }
    let mut at = PathBuf::from("/");
    let comps: Vec<Component> = p.components().collect();
    for (i, c) in comps.iter().enumerate() {
        match c {
            Component::ParentDir => {
                at.pop();
            }
            Component::Normal(n) => {
                let next = at.join(n);
                match fs::symlink_metadata(&next) {
                    Err(_) => {
                        let mut rest = next;
                        for c in &comps[i + 1..] {
                            rest.push(c);
                        }
                        return (rest, Kind::Missing);
                    }
                    Ok(m) if m.is_symlink() => {
                        let t = fs::read_link(&next).unwrap();
                        let (r, k) = resolve(&at.join(t), depth + 1);
                        if k == Kind::Exists {
                            at = r;
                        } else {
                            let mut rest = r;
                            for c in &comps[i + 1..] {
                                rest.push(c);
                            }
                            return (rest, if k == Kind::Loop { k } else { Kind::Dangling });
                        }
                    }
                    Ok(_) => at = next,
                }
            }
            _ => {}
        }
    }
    (at, Kind::Exists)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Read,
    Write,
    Append,
    Rename,
    Remove,
    CreateDir,
    CreateDirAll,
    Exists,
}

fn real(op: Op, p: &Path, q: &Path) -> Result<String, String> {
    let e = |e: std::io::Error| e.to_string();
    match op {
        Op::Read => fs::read(p).map(|b| format!("{b:?}")).map_err(e),
        Op::Write => fs::write(p, "new text").map(|()| String::new()).map_err(e),
        Op::Append => fs::OpenOptions::new()
            .append(true)
            .open(p)
            .and_then(|mut f| std::io::Write::write_all(&mut f, b"more"))
            .map(|()| String::new())
            .map_err(e),
        Op::Rename => fs::rename(p, q).map(|()| String::new()).map_err(e),
        Op::Remove => fs::remove_file(p).map(|()| String::new()).map_err(e),
        Op::CreateDir => fs::create_dir(p).map(|()| String::new()).map_err(e),
        Op::CreateDirAll => fs::create_dir_all(p).map(|()| String::new()).map_err(e),
        Op::Exists => Ok(format!("{}", p.exists())),
    }
}

fn sandboxed(op: Op, base: &Path, p: &Path, q: &Path) -> Result<String, String> {
    let e = |e: anyhow::Error| e.to_string();
    match op {
        Op::Read => sandbox::read_file(base, p).map(|b| format!("{b:?}")).map_err(e),
        Op::Write => sandbox::write_file(base, p, b"new text").map(|()| String::new()).map_err(e),
        Op::Append => sandbox::append_file(base, p, b"more").map(|()| String::new()).map_err(e),
        Op::Rename => sandbox::rename_file(base, p, q).map(|()| String::new()).map_err(e),
        Op::Remove => sandbox::remove_file(base, p).map(|()| String::new()).map_err(e),
        Op::CreateDir => sandbox::create_dir(base, p).map(|()| String::new()).map_err(e),
        Op::CreateDirAll => sandbox::create_dir_all(base, p).map(|()| String::new()).map_err(e),
        Op::Exists => sandbox::exists(base, p).map(|b| format!("{b}")).map_err(e),
    }
}

/// Link targets are absolute: make the snapshots of the two trees comparable.
fn normal(s: Vec<(PathBuf, String)>, root: &Path) -> Vec<(PathBuf, String)> {
    let r = root.display().to_string();
    s.into_iter().map(|(p, c)| (p, c.replace(&r, "ROOT"))).collect()
}

fn seed_of(rng: &mut Rng) -> u64 {
    rng.next()
}

fn containment(rng: &mut Rng, size: usize) -> Outcome {
    let (s1, s2) = (Scratch::new(), Scratch::new());
    let seed = seed_of(rng);
    let (r1, r2) = (s1.path(), s2.path());
    let base1 = build(&mut Rng::new(seed), r1, size);
    let base2 = build(&mut Rng::new(seed), r2, size);
    // The base directory may itself be given through a link.
    let via_link = rng.chance(15);
    let name = |b: &Path| if via_link { home_of(b).join("ln_project") } else { b.to_path_buf() };
    for b in [&base1, &base2] {
        symlink(b, home_of(b).join("ln_project")).unwrap();
    }
    let (given1, given2) = (name(&base1), name(&base2));
    let pseed = seed_of(rng);
    let gen = |b: &Path| {
        let mut r = Rng::new(pseed);
        (PathBuf::from(gen_path(&mut r, b, size)), PathBuf::from(gen_path(&mut r, b, size)))
    };
    let ((p1, q1), (p2, q2)) = (gen(&given1), gen(&given2));
    let op = *rng.pick(&[Op::Read, Op::Write, Op::Append, Op::Rename, Op::Remove, Op::CreateDir, Op::CreateDirAll, Op::Exists, Op::Write]);
    let before = normal(snapshot(r1), r1);
    note(format!("tree {:#?}", before));
    note(format!("{op:?} {} {}", p1.display(), if op == Op::Rename { q1.display().to_string() } else { String::new() }));

    // What may happen, decided on the second copy.
    let mut allowed = true;
    let mut either = false;
    let mut places = vec![];
    for p in [&p2, &q2].into_iter().take(if op == Op::Rename { 2 } else { 1 }) {
        if !p.is_absolute() {
            allowed = false;
            places.push(p.clone());
            continue;
        }
        let (loc, kind) = resolve(&clean(p), 0);
        let inside = clean(&loc).starts_with(&base2);
        match kind {
            Kind::Exists | Kind::Missing => allowed &= inside,
            Kind::Dangling => {
                either = true;
                allowed &= inside;
            }
            Kind::Loop => allowed = false,
        }
        places.push(loc);
    }
    let got = sandboxed(op, &given1, &p1, &q1);
    let after = normal(snapshot(r1), r1);
    note(format!("  -> {got:?}"));

    let inside = |p: &Path| p.starts_with("p/q/r/proj") && p != Path::new("p/q/r/proj");
    for e in before.iter().filter(|e| !after.contains(e)).chain(after.iter().filter(|e| !before.contains(e))) {
        if !inside(&e.0) {
            return Err(format!("changed outside the project directory: {e:?}"));
        }
    }
    if !allowed {
        if got.is_ok() {
            return Err("a location outside the project directory was accepted".into());
        }
        if after != before {
            return Err("an operation that failed had an effect".into());
        }
        return Ok(());
    }
    if either && got.is_err() {
        return if after == before { Ok(()) } else { Err("an operation that failed had an effect".into()) };
    }
    let want = real(op, &places[0], places.get(1).unwrap_or(&places[0]));
    let expected = normal(snapshot(r2), r2);
    if want.is_ok() != got.is_ok() || (want.is_ok() && want != got) {
        return Err(format!("the operating system gives {want:?} for the same file"));
    }
    if after != expected {
        let d: Vec<_> = expected.iter().filter(|e| !after.contains(e)).chain(after.iter().filter(|e| !expected.contains(e))).collect();
        return Err(format!("not the effect the operating system has on the same file: {d:?}"));
    }
    Ok(())
}

/// A base directory that is not absolute is refused.
fn relative_base(rng: &mut Rng, size: usize) -> Outcome {
    let s = Scratch::new();
    let base = build(rng, s.path(), size);
    let before = snapshot(s.path());
    for op in [Op::Read, Op::Write, Op::Append, Op::Rename, Op::Remove, Op::CreateDir, Op::CreateDirAll, Op::Exists] {
        note(format!("{op:?} with base directory 'proj'"));
        if sandboxed(op, Path::new("proj"), &base.join("a"), &base.join("new")).is_ok() {
            return Err("a relative base directory was accepted".into());
        }
        if snapshot(s.path()) != before {
            return Err("an operation that failed had an effect".into());
        }
    }
    Ok(())
}

/// Which files `ignored` reports, against the rules written out here.
fn ignored(rng: &mut Rng, size: usize) -> Outcome {
    const DIRS: &[&str] = &["d", "d/e", ".git", ".ethersync", "d/.git", "d/.ethersync", "ign", "d/e/.git", ".git/d", "x.git", ".gitx", "ethersync", ".ethersync2", "d/ign"];
    const FILES: &[&str] = &["a", "b.log", "keep.txt", "ign", "c~", ".git", ".ethersync", ".hidden", "git", "x.git", "~", "~a", ".gitignore2", ".gitignore", ".ignore"];
    let s = Scratch::new();
    let base = s.path().join("proj");
    fs::create_dir(&base).unwrap();
    let mut rules: Vec<&str> = vec![];
    if rng.chance(60) {
        rules.push("ign");
    }
    if rng.chance(50) {
        rules.push("*.log");
    }
    // Where the rules are, and whether they are git's.
    let (place, by_git) = *rng.pick(&[
        ("proj/.ignore", false),
        ("proj/d/.ignore", false),
        (".ignore", false),
        ("proj/.gitignore", true),
        ("proj/.git/info/exclude", true),
        (".gitignore", true),
        ("home/.config/git/ignore", true),
    ]);
    if by_git || rng.chance(40) {
        fs::create_dir(if place == ".gitignore" { s.path().join(".git") } else { base.join(".git") }).unwrap();
    }
    std::env::set_var("HOME", s.path().join("home"));
    std::env::set_var("XDG_CONFIG_HOME", s.path().join("home/.config"));
    fs::create_dir_all(s.path().join(place).parent().unwrap()).unwrap();
    fs::write(s.path().join(place), rules.join("\n")).unwrap();
    let mut files = vec![];
    for _ in 0..1 + rng.below(size.min(8) + 1) {
        let dir = if rng.chance(30) { base.clone() } else { base.join(rng.pick(DIRS)) };
        let f = dir.join(rng.pick(FILES));
        // A nested .git starts another repository, to which .gitignore files above do not apply.
        let rel = f.strip_prefix(&base).unwrap();
        let outermost = if place == ".gitignore" { 0 } else { 1 };
        if by_git && rel.components().skip(outermost).any(|c| c.as_os_str() == ".git") {
            continue;
        }
        if fs::create_dir_all(&dir).is_err() {
            continue;
        }
        if fs::symlink_metadata(&f).is_err() && fs::write(&f, "text").is_ok() {
            files.push(f);
        }
    }
    let names: Vec<_> = files.iter().map(|f| f.strip_prefix(&base).unwrap().display().to_string()).collect();
    note(format!("files {names:?}, rules {rules:?} in {place}"));
    for f in &files {
        let rel = f.strip_prefix(&base).unwrap();
        let comps: Vec<String> = rel.components().map(|c| c.as_os_str().to_str().unwrap().to_string()).collect();
        let ruled = if place != "proj/d/.ignore" { &comps[..] } else if comps[0] == "d" { &comps[1..] } else { &[] };
        let want = comps.iter().any(|c| c == ".git" || c == ".ethersync" || c.ends_with('~'))
            || ruled.iter().any(|c| (rules.contains(&"ign") && c == "ign") || (rules.contains(&"*.log") && c.ends_with(".log")));
        let got = sandbox::ignored(&base, f).map_err(|e| format!("{}: {e}", rel.display()))?;
        if got != want {
            return Err(format!("{} is reported as {}", rel.display(), if got { "ignored" } else { "not ignored" }));
        }
    }
    Ok(())
}

fn comps(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for c in s.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c.to_string()),
        }
    }
    v
}

fn gen_abs(rng: &mut Rng, size: usize) -> String {
    const C: &[&str] = &["home", "proj", "proj2", "a", "b c", "ü", "..", ".", "", "file:", "%20", "x.txt", "b ", " b", "a;", "A", "Home", "#x", "?q", "\\", "e\u{301}", "*", "a%2Fb", "~", "a.", "...", "c:", "\u{85}"];
    let n = rng.below(3 + size.min(5));
    (0..n).fold(String::new(), |s, _| s + "/" + rng.pick(C))
}

/// Paths and URIs, against the component semantics written out here.
fn paths(rng: &mut Rng, size: usize) -> Outcome {
    let mut base = format!("/home{}", gen_abs(rng, size.min(2)));
    if rng.chance(60) {
        base = "/home/proj".into();
    }
    let abs = match rng.below(4) {
        0 => format!("/{}", gen_abs(rng, size)),
        1 => base.clone() + &["", "/", "2", "2/a", "/.", "/..", "/../proj/a"][rng.below(7)],
        _ => base.clone() + "/" + rng.pick(&["a", "sub", "ü"]) + &gen_abs(rng, size),
    };
    note(format!("base directory {base:?}, path {abs:?}"));
    let a = AbsolutePath::try_from(abs.as_str()).map_err(|e| format!("absolute path refused: {e}"))?;
    let (b, p) = (comps(&base), comps(&abs));
    let below = p.len() > b.len() && p[..b.len()] == b[..];
    let uri = format!("file://{abs}");
    let u = FileUri::try_from(uri.clone()).map_err(|e| format!("file URI refused: {e}"))?;
    if comps(&u.to_absolute_path().display().to_string()) != p {
        return Err(format!("{uri} became {}", u.to_absolute_path()));
    }
    for (what, r) in [
        ("try_from_absolute", RelativePath::try_from_absolute(Path::new(&base), &a)),
        ("try_from_path", RelativePath::try_from_path(Path::new(&base), Path::new(&abs))),
    ] {
        match r {
            Ok(r) => {
                if !below {
                    return Err(format!("{what} accepts a path that is not below the base directory, as {r}"));
                }
                let key = match automerge::Prop::from(&r) {
                    automerge::Prop::Map(k) => k,
                    o => return Err(format!("{what}: not a map key: {o:?}")),
                };
                let got: Vec<String> = key.split('/').filter(|c| !c.is_empty()).map(String::from).collect();
                if got != p[b.len()..] || key.starts_with('/') {
                    return Err(format!("{what} gives {r}, shared under {key:?}"));
                }
                let back = AbsolutePath::from_parts(Path::new(&base), &r).map_err(|e| e.to_string())?;
                let uri2 = back.to_file_uri().to_string();
                if !uri2.starts_with("file:///") || comps(&uri2[7..]) != p {
                    return Err(format!("{what} gives {r}, which becomes {uri2}"));
                }
            }
            Err(e) => {
                if below {
                    return Err(format!("{what} refuses a path below the base directory: {e}"));
                }
            }
        }
    }
    Ok(())
}

/// What is accepted as URI and as absolute path at all.
fn accepted(rng: &mut Rng, size: usize) -> Outcome {
    const PIECES: &[&str] = &["file:", "/", "//", "///", "file:///", "File:///", "http://", "a", "home/x", " ", "", "file://", "ü", "FILE:///", "%2F", "\n", "\\", "localhost", "#", "?", ";"];
    let s: String = (0..rng.below(3 + size.min(3))).map(|_| *rng.pick(PIECES)).collect();
    note(format!("{s:?}"));
    let r = FileUri::try_from(s.clone());
    if r.is_ok() != s.starts_with("file:///") {
        return Err(format!("as file URI: {}", if r.is_ok() { "accepted" } else { "refused" }));
    }
    if let Ok(u) = r {
        let p = u.to_absolute_path();
        if !p.is_absolute() || p.as_os_str() != Path::new(&s[7..]).as_os_str() {
            return Err(format!("denotes {p}"));
        }
    }
    let abs = s.starts_with('/');
    if AbsolutePath::try_from(s.as_str()).is_ok() != abs || AbsolutePath::try_from(PathBuf::from(&s)).is_ok() != abs {
        return Err(format!("as absolute path: {}", if abs { "refused" } else { "accepted" }));
    }
    if RelativePath::try_from_path(Path::new("/home"), Path::new(&s)).is_ok() && !abs {
        return Err("a relative path is accepted as path in the project".into());
    }
    Ok(())
}

fn main() {
    unprivileged();
    harness_main(
        &[
            Test { property: "C06", name: "containment", max_size: 10, run: containment },
            Test { property: "C06", name: "relative-base", max_size: 2, run: relative_base },
            Test { property: "C13", name: "ignored", max_size: 10, run: ignored },
            Test { property: "C07", name: "paths", max_size: 8, run: paths },
            Test { property: "C07", name: "accepted", max_size: 5, run: accepted },
        ],
        &[],
    )
}
