//! Parser for contract files (`*.vc`).

use std::collections::BTreeMap;

#[derive(Debug, Clone, Default)]
pub struct LoopSpec {
    pub inv: String,
    pub start: String,
    pub end: String,
    pub before: String,
    pub after: String,
}

#[derive(Debug, Clone, Default)]
pub struct FnSpec {
    pub source: String,
    pub path: String,
    pub flags: Vec<String>,
    pub props: Vec<String>,
    pub ret: String,
    pub spec: String,
    pub entry: String,
    pub exit: String,
    /// Ghost code after the first statement calling this function.
    pub after: Vec<(String, String)>,
    pub loops: BTreeMap<usize, LoopSpec>,
    pub closures: BTreeMap<usize, String>,
    pub traitspec: String,
    pub attrs: String,
    pub params: Vec<(String, String)>,
    /// The parameters' names the contract uses, in order.
    pub args: Option<Vec<String>>,
}

impl FnSpec {
    pub fn flag(&self, f: &str) -> bool {
        self.flags.iter().any(|x| x == f)
    }
    pub fn flag_value(&self, f: &str) -> Option<String> {
        self.flags
            .iter()
            .find_map(|x| x.strip_prefix(f).and_then(|r| r.strip_prefix('=')).map(String::from))
    }
}

pub struct VcFile {
    pub fns: Vec<FnSpec>,
}

/// Normalises a function path: no whitespace, no lifetimes.
pub fn norm(s: &str) -> String {
    let mut out = String::new();
    let mut chars = s.chars().peekable();
    while let Some(c) = chars.next() {
        if c == '\'' {
            while let Some(d) = chars.peek() {
                if d.is_alphanumeric() || *d == '_' {
                    chars.next();
                } else {
                    break;
                }
            }
            continue;
        }
        if c.is_whitespace() {
            continue;
        }
        out.push(c);
    }
    out.replace("<>", "").replace("<,", "<")
}

pub fn parse(text: &str, name: &str) -> VcFile {
    let mut fns: Vec<FnSpec> = vec![];
    let mut source = String::new();
    #[derive(Clone)]
    enum Sec {
        None,
        Spec,
        Entry,
        Exit,
        After,
        Trait,
        Attrs,
        Loop(usize, String),
        Closure(usize),
    }
    let mut sec = Sec::None;
    for (n, line) in text.lines().enumerate() {
        let t = line.trim();
        if let Some(rest) = t.strip_prefix('@') {
            let mut w = rest.split_whitespace();
            let kw = w.next().unwrap_or("");
            let rest = rest[kw.len()..].trim();
            match kw {
                "source" => {
                    source = rest.to_string();
                    sec = Sec::None;
                }
                "fn" => {
                    // @fn PATH [| flags]
                    let (path, flags) = match rest.split_once('|') {
                        Some((p, f)) => (p.trim(), f.split_whitespace().map(String::from).collect()),
                        None => (rest, vec![]),
                    };
                    fns.push(FnSpec {
                        source: source.clone(),
                        path: norm(&path.replace(" for ", " @")),
                        flags,
                        ret: "r".into(),
                        ..Default::default()
                    });
                    sec = Sec::None;
                }
                "props" => {
                    fns.last_mut().unwrap().props = rest.split_whitespace().map(String::from).collect();
                }
                "args" => fns.last_mut().unwrap().args = Some(rest.split_whitespace().map(String::from).collect()),
                "ret" => fns.last_mut().unwrap().ret = rest.to_string(),
                "param" => {
                    let (a, b) = rest.split_once(' ').unwrap();
                    fns.last_mut().unwrap().params.push((a.trim().into(), b.trim().into()));
                }
                "spec" => sec = Sec::Spec,
                "entry" => sec = Sec::Entry,
                "exit" => sec = Sec::Exit,
                "after" => {
                    fns.last_mut().unwrap().after.push((rest.to_string(), String::new()));
                    sec = Sec::After;
                }
                "traitspec" => sec = Sec::Trait,
                "attrs" => sec = Sec::Attrs,
                "loop" => {
                    let mut w = rest.split_whitespace();
                    let k: usize = w.next().unwrap_or("0").parse().unwrap_or_else(|_| {
                        crate::bad(format!("{name}:{}: bad loop index", n + 1))
                    });
                    sec = Sec::Loop(k, w.next().unwrap_or("inv").to_string());
                }
                "closure" => sec = Sec::Closure(rest.parse().unwrap_or(0)),
                "end" => sec = Sec::None,
                _ => crate::bad(format!("{name}:{}: unknown directive @{kw}", n + 1)),
            }
            continue;
        }
        let l = format!("{line}\n");
        let Some(f) = fns.last_mut() else { continue };
        match &sec {
            Sec::None => {
                if !t.is_empty() && !t.starts_with("//") {
                    crate::bad(format!("{name}:{}: text outside a section", n + 1));
                }
            }
            Sec::Spec => f.spec.push_str(&l),
            Sec::Entry => f.entry.push_str(&l),
            Sec::Exit => f.exit.push_str(&l),
            Sec::After => f.after.last_mut().unwrap().1.push_str(&l),
            Sec::Trait => f.traitspec.push_str(&l),
            Sec::Attrs => f.attrs.push_str(&l),
            Sec::Closure(k) => f.closures.entry(*k).or_default().push_str(&l),
            Sec::Loop(k, part) => {
                let e = f.loops.entry(*k).or_default();
                match part.as_str() {
                    "inv" => e.inv.push_str(&l),
                    "start" => e.start.push_str(&l),
                    "end" => e.end.push_str(&l),
                    "before" => e.before.push_str(&l),
                    "after" => e.after.push_str(&l),
                    p => crate::bad(format!("{name}:{}: bad loop part {p}", n + 1)),
                }
            }
        }
    }
    VcFile { fns }
}
