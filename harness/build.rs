//! Makes code with private entry points callable: the text of jsonrpc_forwarder.rs as it is, and of peer.rs
//! the function that moves messages between a connection and two channels, with everything it calls. The
//! connection's type is the only thing that is replaced, by `Stream` of the harness.

use quote::ToTokens;
use std::collections::BTreeMap;

fn names(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) => out.push(i.to_string()),
            proc_macro2::TokenTree::Group(g) => names(g.stream(), out),
            _ => {}
        }
    }
}

fn mentions(t: &impl ToTokens) -> Vec<String> {
    let mut v = vec![];
    names(t.to_token_stream(), &mut v);
    v
}

/// What an argument of the function is: the connection, or one of the channels.
fn role(a: &syn::FnArg) -> Option<&'static str> {
    let syn::FnArg::Typed(t) = a else { return None };
    let m = mentions(&t.ty);
    let has = |n: &str| m.iter().any(|x| x == n);
    if has("Sender") {
        Some("to_syncer")
    } else if has("Receiver") {
        Some("from_syncer")
    } else if has("Stream") && m.len() == 1 {
        Some("stream")
    } else {
        None
    }
}

fn handler(text: &str) -> Option<String> {
    let file = syn::parse_file(text).ok()?;
    let mut uses = vec![];
    let mut others: BTreeMap<String, String> = BTreeMap::new();
    let mut fns: BTreeMap<String, (String, Vec<String>)> = BTreeMap::new();
    let mut entry = None;
    let mut owner = None;
    for i in &file.items {
        match i {
            syn::Item::Use(u) => {
                let root = mentions(&u.tree).into_iter().next().unwrap_or_default();
                let all = mentions(&u.tree);
                if ["anyhow", "automerge", "futures", "std", "tokio", "tracing", "bytes"].contains(&root.as_str()) && !all.iter().any(|n| n == "Path" || n == "fs") {
                    uses.push(i.to_token_stream().to_string());
                }
            }
            syn::Item::Impl(im) if im.trait_.is_none() => {
                for f in &im.items {
                    if let syn::ImplItem::Fn(f) = f {
                        let roles: Vec<_> = f.sig.inputs.iter().filter_map(role).collect();
                        if f.sig.inputs.len() == 3 && roles.len() == 3 && ["stream", "to_syncer", "from_syncer"].iter().all(|r| roles.contains(r)) {
                            owner = Some(im.self_ty.to_token_stream().to_string());
                            entry = Some((f.sig.ident.to_string(), roles));
                        }
                        if !f.sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Receiver(_))) {
                            fns.insert(f.sig.ident.to_string(), (format!("impl {} {{ {} }}", im.self_ty.to_token_stream(), f.to_token_stream()), mentions(&f.block)));
                        }
                    }
                }
            }
            syn::Item::Fn(f) => {
                fns.insert(f.sig.ident.to_string(), (i.to_token_stream().to_string(), mentions(&f.block)));
            }
            syn::Item::Const(c) => {
                others.insert(c.ident.to_string(), i.to_token_stream().to_string());
            }
            _ => {}
        }
    }
    let (entry, roles) = entry?;
    let owner = owner?;
    let mut todo = vec![entry.clone()];
    let mut out = uses.join("\n");
    out += &format!("\npub struct {owner};\n");
    let mut done: Vec<String> = vec![];
    while let Some(n) = todo.pop() {
        if done.contains(&n) {
            continue;
        }
        if let Some((t, m)) = fns.get(&n) {
            out += t;
            out += "\n";
            todo.extend(m.iter().cloned());
        } else if let Some(t) = others.get(&n) {
            out += t;
            out += "\n";
        }
        done.push(n);
    }
    out += &format!(
        "pub const AVAILABLE: bool = true;\npub async fn handler(stream: Stream, to_syncer: tokio::sync::mpsc::Sender<automerge::sync::Message>, from_syncer: tokio::sync::mpsc::Receiver<automerge::sync::Message>) {{ let _ = {owner}::{entry}({}).await; }}\n",
        roles.join(", ")
    );
    Some(out)
}

fn main() {
    let write = |name: &str, text: String| {
        let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join(name);
        std::fs::write(out, text).unwrap();
    };
    let src = "/repo/daemon/src/jsonrpc_forwarder.rs";
    println!("cargo:rerun-if-changed={src}");
    let text: String = std::fs::read_to_string(src)
        .unwrap_or_default()
        .lines()
        .map(|l| if l.starts_with("//!") { "//\n".to_string() } else { format!("{l}\n") })
        .collect();
    write("jsonrpc_forwarder.rs", text);
    let src = "/repo/daemon/src/peer.rs";
    println!("cargo:rerun-if-changed={src}");
    let text = std::fs::read_to_string(src).ok().and_then(|t| handler(&t));
    write(
        "peer_handler.rs",
        text.unwrap_or("pub const AVAILABLE: bool = false;\npub async fn handler(_: Stream, _: tokio::sync::mpsc::Sender<automerge::sync::Message>, _: tokio::sync::mpsc::Receiver<automerge::sync::Message>) {}\n".into()),
    );
}
