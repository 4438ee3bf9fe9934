//! Takes clauses and ghost statements out of a contract's hints that name variables the code no longer
//! has. What is left may or may not suffice; the function counts as reshaped.

use crate::contracts::FnSpec;
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::BTreeSet;

fn names(t: &TokenStream, f: &BTreeSet<String>) -> bool {
    t.clone().into_iter().any(|x| match x {
        TokenTree::Ident(i) => f.contains(&i.to_string()),
        TokenTree::Group(g) => names(&g.stream(), f),
        _ => false,
    })
}

fn parse(s: &str) -> TokenStream {
    s.parse().unwrap_or_else(|_| crate::bad(format!("cannot parse {s}")))
}

fn is_ident(t: Option<&TokenTree>, names: &[&str]) -> bool {
    matches!(t, Some(TokenTree::Ident(i)) if names.iter().any(|n| i == n))
}

fn is_punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}

/// `invariant A, B, ensures C`
fn clauses(s: &str, f: &BTreeSet<String>) -> String {
    let toks: Vec<TokenTree> = parse(s).into_iter().collect();
    let mut out = String::new();
    let mut head = String::new();
    let mut cur: Vec<TokenTree> = vec![];
    let mut bars = 0;
    let flush = |head: &mut String, cur: &mut Vec<TokenTree>, out: &mut String| {
        let t: TokenStream = cur.drain(..).collect();
        if !t.is_empty() && !names(&t, f) {
            out.push_str(head);
            head.clear();
            out.push_str(&format!(" {t},"));
        }
    };
    for t in &toks {
        if bars == 0 && is_ident(Some(t), &["invariant", "invariant_except_break", "ensures", "decreases", "requires"]) {
            flush(&mut head, &mut cur, &mut out);
            head = format!(" {t}");
            continue;
        }
        if bars == 0 && is_punct(Some(t), ',') {
            flush(&mut head, &mut cur, &mut out);
            continue;
        }
        if is_ident(Some(t), &["forall", "exists", "choose"]) {
            bars = 2;
        } else if bars > 0 && is_punct(Some(t), '|') {
            bars -= 1;
        }
        cur.push(t.clone());
    }
    flush(&mut head, &mut cur, &mut out);
    out
}

fn statements(t: TokenStream, f: &BTreeSet<String>) -> TokenStream {
    let toks: Vec<TokenTree> = t.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    let flush = |cur: &mut Vec<TokenTree>, out: &mut Vec<TokenTree>| {
        let t: TokenStream = cur.iter().cloned().collect();
        if !names(&t, f) {
            out.append(cur);
        } else if is_ident(cur.first(), &["proof"]) {
            for x in cur.drain(..) {
                out.push(match x {
                    TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                        TokenTree::Group(Group::new(Delimiter::Brace, statements(g.stream(), f)))
                    }
                    x => x,
                });
            }
        }
        cur.clear();
    };
    for (i, t) in toks.iter().enumerate() {
        cur.push(t.clone());
        let next = toks.get(i + 1);
        let block = matches!(t, TokenTree::Group(g) if g.delimiter() == Delimiter::Brace)
            && !is_ident(cur.first(), &["let"])
            && !is_ident(next, &["else", "by", "implies"])
            && !is_punct(next, ';')
            && !is_punct(next, '.');
        if is_punct(Some(t), ';') || block {
            flush(&mut cur, &mut out);
        }
    }
    flush(&mut cur, &mut out);
    out.into_iter().collect()
}

pub fn forget(spec: &FnSpec, f: &BTreeSet<String>) -> FnSpec {
    let st = |s: &str| -> String {
        if s.trim().is_empty() {
            return s.to_string();
        }
        statements(parse(s), f).to_string()
    };
    let mut s = spec.clone();
    s.entry = st(&s.entry);
    s.exit = st(&s.exit);
    for (_, c) in s.after.iter_mut() {
        *c = st(c);
    }
    for l in s.loops.values_mut() {
        l.start = st(&l.start);
        l.end = st(&l.end);
        l.before = st(&l.before);
        l.after = st(&l.after);
        let t = l.inv.trim_start().to_string();
        l.inv = match t.strip_prefix("iter ") {
            Some(r) => {
                let (a, b) = r.split_once('\n').unwrap_or((r, ""));
                format!("iter {a}\n{}", clauses(b, f))
            }
            None => clauses(&t, f),
        };
    }
    s
}
