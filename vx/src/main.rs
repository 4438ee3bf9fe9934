//! vx: mechanical extraction of functions from the repository into Verus input.
//!
//! `vx gen UNIT --repo DIR --verif DIR --out FILE [--meta FILE] [--vacuity] [--drop "fn;fn"]`
//!
//! A unit file lists prelude texts, extracted types and functions.  Functions are taken from the
//! repository's current source, passed through the fixed list of rewrites in `rewrite.rs` and
//! printed with the contract of the same name spliced in.

mod contracts;
mod emit;
mod exits;
mod forget;
mod find;
mod rewrite;

use std::collections::BTreeMap;
use std::path::PathBuf;
use std::process::exit;

pub fn lost(msg: String) -> ! {
    println!("VX-LOST {msg}");
    exit(3)
}

pub fn bad(msg: String) -> ! {
    eprintln!("vx: {msg}");
    exit(4)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() || args[0] != "gen" {
        bad("usage: vx gen UNIT --repo DIR --verif DIR --out FILE".into());
    }
    let mut opts: BTreeMap<String, String> = BTreeMap::new();
    let mut pos = vec![];
    let mut i = 1;
    while i < args.len() {
        if let Some(k) = args[i].strip_prefix("--") {
            if k == "vacuity" {
                opts.insert(k.into(), "1".into());
            } else {
                opts.insert(k.into(), args.get(i + 1).cloned().unwrap_or_default());
                i += 1;
            }
        } else {
            pos.push(args[i].clone());
        }
        i += 1;
    }
    let repo = PathBuf::from(opts.get("repo").cloned().unwrap_or("/repo".into()));
    let verif = PathBuf::from(opts.get("verif").cloned().unwrap_or("/verif".into()));
    let out = opts.get("out").cloned().unwrap_or_else(|| bad("--out missing".into()));
    let unit_text = std::fs::read_to_string(&pos[0])
        .unwrap_or_else(|e| bad(format!("cannot read unit {}: {e}", pos[0])));
    let drop: std::collections::BTreeSet<String> = opts.get("drop").map(|d| d.split(';').map(String::from).collect()).unwrap_or_default();
    let mut threaded = std::collections::BTreeSet::new();
    let gen = loop {
        let mut gen = emit::Gen::new(repo.clone(), verif.clone(), opts.contains_key("vacuity"), drop.clone());
        gen.threaded = threaded.clone();
        // FUNCTION=variable;FUNCTION=variable
        for e in opts.get("forget").map(|d| d.split(';').collect::<Vec<_>>()).unwrap_or_default() {
            if let Some((f, v)) = e.rsplit_once('=') {
                gen.forget.entry(f.into()).or_default().insert(v.into());
            }
        }
        gen.run(&unit_text);
        if gen.outside.is_subset(&threaded) {
            break gen;
        }
        threaded.extend(gen.outside.iter().cloned());
    };
    std::fs::write(&out, &gen.text).unwrap_or_else(|e| bad(format!("cannot write {out}: {e}")));
    if let Some(m) = opts.get("meta") {
        std::fs::write(m, serde_json::to_string_pretty(&gen.meta()).unwrap()).unwrap();
    }
}
