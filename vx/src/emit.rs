//! Producing the Verus input of a unit.
//!
//! Unit files are line based:
//!   include FILE                 raw Verus text (relative to the verif directory)
//!   map method A B | map path A B | map macro A B | map type A B | map kind F O/R
//!   type SRC NAME[+structural][+noclone] ...
//!   verify FILE.vc NAME ... | *  functions to verify against their contracts
//!   stub FILE.vc NAME ...        functions used through their contracts only
//!   thread NAME|.METHOD ...      functions that act on the outside world (see rewrite `thread`)
//!   broadcast NAME ...           proved lemmas that are applied automatically
//!   noinline NAME ...            functions of the same file that must not be inlined

use crate::contracts::{norm, FnSpec};
use crate::find::{FoundFn, Sources};
use crate::rewrite::{Config, Inliner, Rewriter};
use proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::str::FromStr;
use syn::visit_mut::{self, VisitMut};
use syn::{Expr, Stmt};

pub struct Gen {
    verif: PathBuf,
    src: Sources,
    vacuity: bool,
    drop: BTreeSet<String>,
    pub text: String,
    cfg: Config,
    types: BTreeMap<String, String>,
    noinline: BTreeSet<String>,
    fns: Vec<Value>,
    type_meta: Vec<Value>,
    includes: Vec<String>,
    contracted: BTreeSet<(String, String)>,
    helpers_emitted: BTreeSet<String>,
    /// Variables that the hints of a function must do without.
    pub forget: BTreeMap<String, BTreeSet<String>>,
    /// Functions that turn out to look at the outside world although no `thread` names them.
    pub outside: BTreeSet<String>,
    /// Those among them that an earlier pass found; they have to leave the world alone.
    pub threaded: BTreeSet<String>,
}

fn ts(s: &str, what: &str) -> TokenStream {
    TokenStream::from_str(s).unwrap_or_else(|e| crate::bad(format!("cannot tokenise {what}: {e}\n{s}")))
}

fn names(t: &TokenStream, id: &str) -> bool {
    t.clone().into_iter().any(|t| match t {
        TokenTree::Group(g) => names(&g.stream(), id),
        TokenTree::Ident(i) => i == id,
        _ => false,
    })
}

pub fn print_tokens(t: TokenStream) -> String {
    let mut out = String::new();
    go(t, &mut out, 0);
    return out;

    fn go(t: TokenStream, out: &mut String, ind: usize) {
        let mut prev_joint = true;
        for tt in t {
            match tt {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        out.push_str(" {\n");
                        out.push_str(&" ".repeat(ind + 2));
                        go(g.stream(), out, ind + 2);
                        out.push('\n');
                        out.push_str(&" ".repeat(ind));
                        out.push_str("}\n");
                        out.push_str(&" ".repeat(ind));
                    } else {
                        if !prev_joint {
                            out.push(' ');
                        }
                        out.push_str(o);
                        go(g.stream(), out, ind + 2);
                        out.push_str(c);
                    }
                    prev_joint = false;
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if !prev_joint && !matches!(c, ',' | ';' | '.') {
                        out.push(' ');
                    }
                    out.push(c);
                    if c == ';' {
                        out.push('\n');
                        out.push_str(&" ".repeat(ind));
                        prev_joint = true;
                    } else {
                        prev_joint = p.spacing() == proc_macro2::Spacing::Joint;
                        if c == '\'' {
                            prev_joint = true;
                        }
                    }
                }
                TokenTree::Ident(i) => {
                    if !prev_joint {
                        out.push(' ');
                    }
                    out.push_str(&i.to_string());
                    prev_joint = false;
                }
                TokenTree::Literal(l) => {
                    if !prev_joint {
                        out.push(' ');
                    }
                    out.push_str(&l.to_string());
                    prev_joint = false;
                }
            }
        }
    }
}

/// Attaches ghost code after the first statement with a call of `name`.
struct AttachAfter<'a> {
    name: &'a str,
    code: TokenStream,
    done: bool,
}

struct Calls<'a>(&'a str, bool);

impl<'ast> syn::visit::Visit<'ast> for Calls<'_> {
    fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) {
        self.1 |= c.method == self.0;
        syn::visit::visit_expr_method_call(self, c);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.1 |= p.path.segments.last().map(|s| s.ident == self.0).unwrap_or(false);
        }
        syn::visit::visit_expr_call(self, c);
    }
}

impl VisitMut for AttachAfter<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        for i in 0..b.stmts.len() {
            visit_mut::visit_stmt_mut(self, &mut b.stmts[i]);
            if self.done {
                return;
            }
            let mut c = Calls(self.name, false);
            syn::visit::Visit::visit_stmt(&mut c, &b.stmts[i]);
            if c.1 {
                if let Stmt::Expr(_, semi @ None) = &mut b.stmts[i] {
                    *semi = Some(Default::default());
                }
                b.stmts.insert(i + 1, Stmt::Expr(Expr::Verbatim(self.code.clone()), None));
                self.done = true;
                return;
            }
        }
    }
}

/// Attaches loop contracts.
struct Attach<'a> {
    spec: &'a FnSpec,
    n: usize,
    closures: usize,
    kinds: Vec<String>,
}

/// Whether a loop's body leaves the loop by `break`.
fn breaks(b: &syn::Block) -> bool {
    struct B(bool);
    impl<'ast> syn::visit::Visit<'ast> for B {
        fn visit_expr_break(&mut self, _: &'ast syn::ExprBreak) {
            self.0 = true;
        }
        fn visit_expr(&mut self, e: &'ast Expr) {
            if let Expr::Verbatim(t) = e {
                // An inner loop that already has its annotations.
                self.0 |= t.to_string().contains("break ");
            }
            syn::visit::visit_expr(self, e);
        }
    }
    let mut v = B(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

/// Without `break`, what holds while the loop runs also holds at its end.
fn one_invariant(inv: &str) -> String {
    if !inv.contains("invariant_except_break") {
        return inv.to_string();
    }
    inv.replace("invariant_except_break", "vx_inv").replacen("invariant", "", 1).replace("vx_inv", "invariant")
}

impl Attach<'_> {
    fn splice(&self, k: usize, block: &syn::Block) -> (TokenStream, TokenStream, TokenStream, TokenStream, Option<TokenStream>) {
        let stmts = &block.stmts;
        match self.spec.loops.get(&k) {
            None => (quote!(), quote!({ #(#stmts)* }), quote!(), quote!(), None),
            Some(l) => {
                let mut inv = l.inv.clone();
                let mut name = None;
                let t = inv.trim_start().to_string();
                if let Some(r) = t.strip_prefix("iter ") {
                    let (a, b) = r.split_once('\n').unwrap_or((r, ""));
                    name = Some(ts(a.trim(), "iter name"));
                    inv = b.to_string();
                }
                if !breaks(block) {
                    inv = one_invariant(&inv);
                }
                let s = ts(&l.start, "loop start");
                let e = ts(&l.end, "loop end");
                // A trailing expression without semicolon would swallow the ghost code after it.
                let mut st: Vec<Stmt> = stmts.clone();
                if !l.end.trim().is_empty() {
                    if let Some(Stmt::Expr(_, semi)) = st.last_mut() {
                        if semi.is_none() {
                            *semi = Some(Default::default());
                        }
                    }
                }
                (ts(&inv, "invariant"), quote!({ #s #(#st)* #e }), ts(&l.before, "before"), ts(&l.after, "after"), name)
            }
        }
    }
}

impl VisitMut for Attach<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                self.n += 1;
                let k = self.n;
                self.kinds.push("for".into());
                visit_mut::visit_expr_mut(self, &mut f.expr);
                visit_mut::visit_block_mut(self, &mut f.body);
                let (inv, body, before, after, name) = self.splice(k, &f.body);
                let (pat, ex, lab) = (&f.pat, &f.expr, &f.label);
                let mut ex = quote!(#ex);
                let mut before = before;
                // `vx_itK` in the annotations names what loop K runs over.
                let it = format!("vx_it{k}");
                if self.spec.loops.get(&k).map(|l| l.inv.contains(&it) || l.after.contains(&it)).unwrap_or(false) {
                    let it = syn::Ident::new(&it, Span::call_site());
                    before = quote!(let #it = #ex; #before);
                    ex = quote!(#it);
                }
                let ex = match name {
                    Some(n) => quote!(#n : #ex),
                    None => ex,
                };
                let l = quote!(#lab for #pat in #ex #inv #body);
                *e = Expr::Verbatim(if before.is_empty() && after.is_empty() { l } else { quote!({ #before #l #after }) });
            }
            Expr::While(f) => {
                self.n += 1;
                let k = self.n;
                self.kinds.push("while".into());
                visit_mut::visit_expr_mut(self, &mut f.cond);
                visit_mut::visit_block_mut(self, &mut f.body);
                let (inv, body, before, after, _) = self.splice(k, &f.body);
                let (c, lab) = (&f.cond, &f.label);
                let l = quote!(#lab while #c #inv #body);
                *e = Expr::Verbatim(if before.is_empty() && after.is_empty() { l } else { quote!({ #before #l #after }) });
            }
            Expr::Loop(f) => {
                self.n += 1;
                let k = self.n;
                self.kinds.push("loop".into());
                visit_mut::visit_block_mut(self, &mut f.body);
                let (inv, body, before, after, _) = self.splice(k, &f.body);
                let lab = &f.label;
                let l = quote!(#lab loop #inv #body);
                *e = Expr::Verbatim(if before.is_empty() && after.is_empty() { l } else { quote!({ #before #l #after }) });
            }
            Expr::Closure(c) => {
                self.closures += 1;
                let k = self.closures;
                visit_mut::visit_expr_mut(self, &mut c.body);
                // @closure K: first line `TYPE -> (name: TYPE)`, then its contract over `vx_c`.
                if let (Some(t), 1) = (self.spec.closures.get(&k), c.inputs.len()) {
                    let (head, rest) = t.trim_start().split_once('\n').unwrap_or((t.trim(), ""));
                    let (ty, ret) = head.split_once("->").unwrap_or((head, "()"));
                    let (ty, ret, rest) = (ts(ty, "closure"), ts(ret, "closure"), ts(rest, "closure"));
                    let p = match &c.inputs[0] {
                        syn::Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    let b = &c.body;
                    *e = Expr::Verbatim(quote!(|vx_c: #ty| -> #ret #rest { let #p = vx_c; #b }));
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// Replaces `Self` and mapped types.
struct Types<'a> {
    self_ty: Option<TokenStream>,
    map: &'a BTreeMap<String, String>,
}

fn replace_types(t: TokenStream, ty: &Types) -> TokenStream {
    // Token level: handles types inside expressions, turbofish and patterns alike.
    let toks: Vec<TokenTree> = t.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), replace_types(g.stream(), ty));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
                i += 1;
            }
            TokenTree::Ident(_) => {
                // longest path a::b::c
                let mut segs: Vec<String> = vec![];
                let mut ends: Vec<usize> = vec![];
                let mut j = i;
                loop {
                    match toks.get(j) {
                        Some(TokenTree::Ident(x)) => {
                            segs.push(x.to_string());
                            j += 1;
                            ends.push(j);
                            match (toks.get(j), toks.get(j + 1), toks.get(j + 2)) {
                                (Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b)), Some(TokenTree::Ident(_)))
                                    if a.as_char() == ':' && b.as_char() == ':' && a.spacing() == proc_macro2::Spacing::Joint =>
                                {
                                    j += 2;
                                }
                                _ => break,
                            }
                        }
                        _ => break,
                    }
                }
                let prev_colon = matches!((out.len().checked_sub(1).and_then(|k| out.get(k))), Some(TokenTree::Punct(p)) if p.as_char() == ':' && p.spacing() == proc_macro2::Spacing::Alone)
                    && matches!((out.len().checked_sub(2).and_then(|k| out.get(k))), Some(TokenTree::Punct(p)) if p.as_char() == ':' && p.spacing() == proc_macro2::Spacing::Joint);
                let mut done = false;
                if !prev_colon {
                    for k in (1..=segs.len()).rev() {
                        let p = segs[..k].join("::");
                        if let Some(to) = ty.map.get(&p) {
                            out.extend(ts(to, "type map"));
                            i = ends[k - 1];
                            done = true;
                            break;
                        }
                    }
                    if !done && segs[0] == "Self" {
                        if let Some(s) = &ty.self_ty {
                            out.extend(s.clone());
                            i += 1;
                            done = true;
                        }
                    }
                }
                if !done {
                    while i < ends[ends.len() - 1] {
                        out.push(toks[i].clone());
                        i += 1;
                    }
                }
            }
            x => {
                out.push(x.clone());
                i += 1;
            }
        }
    }
    out.into_iter().collect()
}

fn fnv(s: &str) -> String {
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = F(0xcbf29ce484222325);
    s.hash(&mut h);
    format!("{:016x}", h.finish())
}

/// `anyhow::Result<T>` is `Result<T, anyhow::Error>`.
struct AnyhowResult;
impl VisitMut for AnyhowResult {
    fn visit_type_path_mut(&mut self, t: &mut syn::TypePath) {
        visit_mut::visit_type_path_mut(self, t);
        if let Some(l) = t.path.segments.last_mut() {
            if l.ident == "Result" {
                if let syn::PathArguments::AngleBracketed(a) = &mut l.arguments {
                    if a.args.len() == 1 {
                        a.args.push(syn::parse_quote!(AnyhowError));
                    }
                }
            }
        }
    }
}

impl Gen {
    pub fn new(repo: PathBuf, verif: PathBuf, vacuity: bool, drop: BTreeSet<String>) -> Self {
        Self {
            src: Sources::new(&repo),
            verif,
            vacuity,
            drop,
            text: String::new(),
            cfg: Config::default(),
            types: BTreeMap::new(),
            noinline: BTreeSet::new(),
            fns: vec![],
            type_meta: vec![],
            includes: vec![],
            contracted: BTreeSet::new(),
            helpers_emitted: BTreeSet::new(),
            forget: BTreeMap::new(),
            outside: BTreeSet::new(),
            threaded: BTreeSet::new(),
        }
    }

    fn read(&self, rel: &str) -> String {
        std::fs::read_to_string(self.verif.join(rel)).unwrap_or_else(|e| crate::bad(format!("cannot read {rel}: {e}")))
    }

    /// Expands `use FILE` lines (shared unit fragments).
    fn expand(&self, text: &str) -> Vec<String> {
        let mut out = vec![];
        for l in text.lines() {
            let l = l.trim();
            if let Some(f) = l.strip_prefix("use ") {
                out.extend(self.expand(&self.read(f.trim())));
            } else if !l.is_empty() && !l.starts_with('#') {
                out.push(l.to_string());
            }
        }
        out
    }

    fn select(&self, file: &str, names: &[String]) -> Vec<FnSpec> {
        let vc = crate::contracts::parse(&self.read(file), file);
        if names.iter().any(|n| n == "*") {
            return vc.fns;
        }
        names
            .iter()
            .map(|n| {
                let n = norm(&n.replace("@", "@"));
                vc.fns
                    .iter()
                    .find(|f| f.path == n)
                    .cloned()
                    .unwrap_or_else(|| crate::bad(format!("no contract {n} in {file}")))
            })
            .collect()
    }

    pub fn run(&mut self, unit: &str) {
        let lines = self.expand(unit);
        // First pass: maps and contract names.
        for l in &lines {
            let w: Vec<String> = l.split_whitespace().map(String::from).collect();
            match w[0].as_str() {
                "map" if w[1] == "kind" => {
                    self.cfg.kinds.insert(w[2].clone(), w[3].chars().next().unwrap());
                }
                "map" => {
                    let m = match w[1].as_str() {
                        "method" => &mut self.cfg.methods,
                        "path" => &mut self.cfg.paths,
                        "macro" => &mut self.cfg.macros,
                        "type" => &mut self.types,
                        x => crate::bad(format!("bad map kind {x}")),
                    };
                    m.insert(w[2].clone(), w[3..].join(" "));
                }
                "verify" | "stub" => {
                    for f in self.select(&w[1], &w[2..]) {
                        self.contracted.insert((f.source.clone(), f.path.clone()));
                    }
                }
                "thread" => {
                    self.cfg.threads.extend(w[1..].iter().cloned());
                    self.cfg.threads.extend(self.threaded.iter().cloned());
                }
                "skip" => self.cfg.skips.extend(w[1..].iter().cloned()),
                "sample" => self.cfg.samples.extend(w[1..].iter().cloned()),
                "select" => self.cfg.select_keeps = Some(w[2..].iter().cloned().collect()),
                "noinline" => self.noinline.extend(w[1..].iter().cloned()),
                "tasks" => self.cfg.tasks_apart = w[1] == "apart",
                _ => {}
            }
        }
        self.text.push_str("// generated by vx; do not edit\n#![feature(pattern)]\n#![feature(allocator_api)]\n#![allow(unused)]\n#![allow(non_snake_case)]\nuse vstd::prelude::*;\nverus! {\n");
        let mut bc: BTreeSet<String> = BTreeSet::new();
        for l in &lines {
            let w: Vec<String> = l.split_whitespace().map(String::from).collect();
            match w[0].as_str() {
                "include" => {
                    let t = self.read(&w[1]);
                    self.includes.push(w[1].clone());
                    let stem = std::path::Path::new(&w[1]).file_stem().unwrap().to_string_lossy().to_string();
                    self.text.push_str(&format!(
                        "\n// ---- {}\npub mod p_{stem} {{\nuse super::*;\n{}\n}}\npub use p_{stem}::*;\n",
                        w[1], t
                    ));
                }
                "type" => {
                    for n in &w[2..] {
                        self.emit_type(&w[1], n);
                    }
                }
                "verify" => {
                    for f in self.select(&w[1], &w[2..]) {
                        let stub = self.drop.contains(&f.path);
                        self.emit_fn(&f, stub, stub);
                    }
                }
                "stub" => {
                    for f in self.select(&w[1], &w[2..]) {
                        self.emit_fn(&f, true, false);
                    }
                }
                "map" | "noinline" | "select" | "sample" | "thread" | "skip" | "tasks" => {}
                "broadcast" => bc.extend(w[1..].iter().cloned()),
                x => crate::bad(format!("unknown unit directive {x}")),
            }
        }
        if !bc.is_empty() {
            let l: Vec<String> = bc.into_iter().collect();
            self.text.push_str(&format!("broadcast use {{{}}};\n", l.join(", ")));
        }
        self.text.push_str("\n} // verus!\nfn main() {}\n");
    }

    fn map_ty(&self, t: TokenStream, self_ty: Option<TokenStream>) -> TokenStream {
        replace_types(t, &Types { self_ty, map: &self.types })
    }

    fn emit_type(&mut self, src: &str, spec: &str) {
        let mut parts = spec.split('+');
        let name = parts.next().unwrap();
        let opts: Vec<&str> = parts.collect();
        let item = self.src.find_type(src, name);
        let derives: String = match &item {
            syn::Item::Struct(s) => s.attrs.iter().map(|a| a.to_token_stream().to_string()).collect(),
            syn::Item::Enum(s) => s.attrs.iter().map(|a| a.to_token_stream().to_string()).collect(),
            _ => String::new(),
        };
        let src_text = item.to_token_stream().to_string();
        let mut out = String::new();
        let id = syn::Ident::new(name, Span::call_site());
        let mut default_ens: Vec<String> = vec![];
        match item {
            syn::Item::Struct(mut s) => {
                AnyhowResult.visit_item_struct_mut(&mut s);
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = syn::parse_quote!(pub);
                }
                for (i, f) in s.fields.iter().enumerate() {
                    let n = f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string());
                    let t = f.ty.to_token_stream().to_string().replace(' ', "");
                    let e = match t.as_str() {
                        "usize" | "u64" | "u16" | "u32" | "i32" => format!("r.{n} == 0"),
                        "bool" => format!("!r.{n}"),
                        "String" => format!("r.{n}@ == Seq::<char>::empty()"),
                        x if x.starts_with("Vec<") => format!("r.{n}@.len() == 0"),
                        x if x.starts_with("HashMap<") => format!("r.{n}@ == Map::<_, _>::empty()"),
                        x if x.starts_with("Option<") => format!("r.{n} is None"),
                        _ => "true".into(),
                    };
                    default_ens.push(e);
                }
                let t = self.map_ty(s.to_token_stream(), None);
                if opts.contains(&"structural") {
                    out.push_str("#[derive(Structural, PartialEq, Eq)]\n");
                }
                out.push_str(&print_tokens(t));
            }
            syn::Item::Enum(mut s) => {
                AnyhowResult.visit_item_enum_mut(&mut s);
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
                let t = self.map_ty(s.to_token_stream(), None);
                if opts.contains(&"structural") {
                    out.push_str("#[derive(Structural, PartialEq, Eq)]\n");
                }
                out.push_str(&print_tokens(t));
            }
            syn::Item::Type(mut s) => {
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                out.push_str(&print_tokens(self.map_ty(s.to_token_stream(), None)));
            }
            syn::Item::Const(mut s) => {
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                if s.ty.to_token_stream().to_string().replace(' ', "") == "&str" {
                    s.ty = syn::parse_quote!(&'static str);
                    let (id, e) = (&s.ident, &s.expr);
                    let t = quote!(pub const #id: &'static str = #e;);
                    out.push_str(&print_tokens(t));
                } else {
                    out.push_str(&print_tokens(s.to_token_stream()));
                }
            }
            _ => {}
        }
        if derives.contains("Clone") && !opts.contains(&"noclone") {
            out.push_str(&format!(
                "impl Clone for {id} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"
            ));
        }
        if derives.contains("Default") && !default_ens.is_empty() {
            out.push_str(&format!(
                "impl Default for {id} {{ #[verifier::external_body] fn default() -> (r: Self) ensures {} {{ unimplemented!() }} }}\n",
                default_ens.join(", ")
            ));
        }
        self.text.push_str(&format!("\n// type {src} {name}\n{out}"));
        self.type_meta.push(json!({"file": src, "name": name, "hash": fnv(&src_text), "derives": derives}));
    }

    fn emit_fn(&mut self, spec: &FnSpec, stub: bool, dropped: bool) {
        let forgetful;
        let mut forgotten = vec![];
        let spec = match self.forget.get(&spec.path) {
            Some(f) => {
                forgotten = f.iter().map(|v| format!("has no variable {v}")).collect();
                forgetful = crate::forget::forget(spec, f);
                &forgetful
            }
            None => spec,
        };
        let found = match self.src.find_fn(&spec.source, &spec.path) {
            Ok(f) => f,
            Err(why) => {
                self.fns.push(json!({"path": spec.path, "source": spec.source, "missing": why, "verified": false,
                    "dropped": !stub, "props": spec.props, "gen_lines": [0, 0]}));
                return;
            }
        };
        let mut found = found;
        AnyhowResult.visit_signature_mut(&mut found.sig);
        AnyhowResult.visit_block_mut(&mut found.block);
        let found = found;
        let mut cfg = self.cfg.clone();
        cfg.partial = spec.flag("partial");
        // Which calls give an `Option` or a `Result`: those of this file, and where all files agree.
        for (n, k) in self.src.kinds(&spec.source) {
            cfg.kinds.entry(n).or_insert(k);
        }
        let self_ty_s = found.imp.as_ref().map(|(_, t, _)| norm(&t.to_token_stream().to_string()));

        cfg.self_ty = self_ty_s.clone();

        let mut block = found.block.clone();
        let mut rewrites: BTreeMap<String, usize> = BTreeMap::new();
        let mut reshaped: Vec<String> = forgotten;
        let mut inlined: Vec<String> = vec![];
        let mut kinds: Vec<String> = vec![];
        if !stub {
            // Inline local helpers that have no contract.
            let mut cands: BTreeMap<String, FoundFn> = BTreeMap::new();
            {
                let all: Vec<FoundFn> = self.src.get(&spec.source).fns.clone();
                for f in all {
                    if self.contracted.contains(&(spec.source.clone(), f.path.clone()))
                        || self.noinline.contains(&f.path)
                        || f.path == spec.path
                        || f.path.starts_with('<')
                    {
                        continue;
                    }
                    cands.insert(f.path.clone(), f);
                }
            }
            // Nested functions are candidates, too.
            block.stmts.retain(|s| {
                if let Stmt::Item(syn::Item::Fn(f)) = s {
                    cands.insert(
                        f.sig.ident.to_string(),
                        FoundFn {
                            path: f.sig.ident.to_string(),
                            vis: f.vis.clone(),
                            sig: f.sig.clone(),
                            block: (*f.block).clone(),
                            imp: None,
                            assoc_types: vec![],
                            lines: (0, 0),
                            text: String::new(),
                        },
                    );
                    return !crate::rewrite::never_returns_early(f);
                }
                true
            });
            let mut inl = Inliner { cands: &cands, self_ty: self_ty_s.clone(), count: 0, depth: 0, inlined: vec![], blocked: vec![] };
            inl.visit_block_mut(&mut block);
            if inl.count > 0 {
                rewrites.insert("inline".into(), inl.count);
            }
            inlined = inl.inlined.clone();
            let blocked: BTreeSet<String> = inl.blocked.iter().cloned().collect();
            for b in blocked {
                // Not inlinable: emitted without contract, the caller knows nothing about it.
                reshaped.push(format!("calls {b}, which has no contract"));
                if !self.helpers_emitted.contains(&b) && !b.contains("::") || b.contains("::") && self.helpers_emitted.insert(b.clone()) {
                    self.helpers_emitted.insert(b.clone());
                    if cands.get(&b).map(|f| f.lines.0 > 0).unwrap_or(false) {
                        let hs = FnSpec { source: spec.source.clone(), path: b.clone(), flags: spec.flags.clone(), ret: "r".into(), ..Default::default() };
                        self.emit_fn(&hs, false, false);
                    }
                }
            }
            AnyhowResult.visit_block_mut(&mut block);
            if !crate::rewrite::futures_in_place(&mut block) {
                reshaped.push("a future is polled in a loop".into());
            }
            // The value of the last statement is the function's.
            if let (syn::ReturnType::Type(..), Some(syn::Stmt::Macro(m))) = (&found.sig.output, block.stmts.last()) {
                if m.semi_token.is_none() && m.mac.path.segments.last().map(|s| s.ident == "select").unwrap_or(false) {
                    let e = syn::Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    block.stmts.pop();
                    block.stmts.push(syn::Stmt::Expr(e, None));
                }
            }
            let mut rw = Rewriter::new(&cfg);
            rw.visit_block_mut(&mut block);
            for (k, v) in rw.counts {
                *rewrites.entry(k).or_default() += v;
            }
            for (name, code) in &spec.after {
                let mut a = AttachAfter { name, code: ts(code, "after"), done: false };
                a.visit_block_mut(&mut block);
                if !a.done {
                    reshaped.push(format!("no call of {name}"));
                }
            }
            let mut at = Attach { spec, n: 0, closures: 0, kinds: vec![] };
            at.visit_block_mut(&mut block);
            kinds = at.kinds.clone();
            let got = at.kinds.join(",");
            if let Some(want) = spec.flag_value("loops") {
                if got != want {
                    reshaped.push(format!("loops are [{got}], contract expects [{want}]"));
                }
            } else if at.n != spec.loops.len() && !spec.flag("anyloops") {
                reshaped.push(format!("{} loops, contract has {}", at.n, spec.loops.len()));
            }
        }

        // Signature.
        let sig = &found.sig;
        let vx_main = syn::Ident::new("vx_main", Span::call_site());
        let name = if sig.ident == "main" { &vx_main } else { &sig.ident };
        let mut params: Vec<TokenStream> = vec![];
        let mut prologue: Vec<TokenStream> = vec![];
        let over: BTreeMap<&str, &str> = spec.params.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
        let into_impl = found
            .imp
            .as_ref()
            .and_then(|(_, _, tr)| tr.clone())
            .map(|p| p.segments.last().unwrap().clone());
        let trait_name = into_impl.as_ref().map(|s| s.ident.to_string());
        let conv = matches!(trait_name.as_deref(), Some("From") | Some("TryFrom"));
        let mut conv_src: Option<TokenStream> = None;
        let n_named = sig.inputs.iter().filter(|a| matches!(a, syn::FnArg::Typed(_))).count();
        // A renamed parameter keeps the name the contract knows it by.
        let want: Option<&Vec<String>> = spec.args.as_ref().filter(|a| a.len() == n_named);
        let mut arg_names: Vec<String> = vec![];
        for (i, inp) in sig.inputs.iter().enumerate() {
            match inp {
                syn::FnArg::Receiver(r) => {
                    if spec.flag("refself") {
                        params.push(quote!(&mut self));
                    } else if r.reference.is_none() && r.mutability.is_some() {
                        params.push(quote!(self));
                        reshaped.push("mut self".into());
                    } else {
                        params.push(r.to_token_stream())
                    }
                }
                syn::FnArg::Typed(t) => {
                    let ty = &t.ty;
                    if conv {
                        // The trait's argument spells out lifetimes.
                        conv_src = Some(match into_impl.as_ref().map(|s| &s.arguments) {
                            Some(syn::PathArguments::AngleBracketed(a)) if a.args.len() == 1 => a.args.to_token_stream(),
                            _ => quote!(#ty),
                        });
                        let p = &t.pat;
                        prologue.push(quote!(let #p = self;));
                        continue;
                    }
                    match &*t.pat {
                        syn::Pat::Ident(p) => {
                            let own = &p.ident;
                            let id = match want.and_then(|w| w.get(arg_names.len())) {
                                Some(w) if w != "_" => syn::Ident::new(w, Span::call_site()),
                                _ => own.clone(),
                            };
                            arg_names.push(own.to_string());
                            let tyt = match over.get(id.to_string().as_str()) {
                                Some(o) => ts(o, "param"),
                                None => quote!(#ty),
                            };
                            params.push(quote!(#id: #tyt));
                            if p.mutability.is_some() {
                                prologue.push(quote!(let mut #own = #id;));
                                if *own != id {
                                    reshaped.push(format!("parameter {id} is {own}"));
                                }
                            } else if *own != id {
                                prologue.push(quote!(let #own = #id;));
                            }
                        }
                        p => {
                            arg_names.push("_".into());
                            let id = syn::Ident::new(&format!("vx_p{i}"), Span::call_site());
                            params.push(quote!(#id: #ty));
                            prologue.push(quote!(let #p = #id;));
                        }
                    }
                }
            }
        }
        for (a, b) in &spec.params {
            if let Some(n) = a.strip_prefix('+') {
                // ghost or token parameter added by the contract
                let n = ts(n, "param");
                let b = ts(b, "param");
                params.push(quote!(#n: #b));
            }
        }
        if self.cfg.threads.contains(&spec.path) {
            params.push(quote!(vx_w: &mut VWorld));
        } else if !stub && !conv && names(&block.to_token_stream(), "vx_w") {
            self.outside.insert(spec.path.clone());
        }
        let self_ty = found.imp.as_ref().map(|(_, t, _)| t.to_token_stream());
        let (rname, rty_over) = match spec.ret.split_once(':') {
            Some((a, b)) => (a.trim().to_string(), Some(b.trim().to_string())),
            None => (spec.ret.clone(), None),
        };
        let rid = syn::Ident::new(&rname, Span::call_site());
        let assoc: BTreeMap<String, String> = found
            .assoc_types
            .iter()
            .map(|(a, t)| (format!("Self::{a}"), self.map_ty(t.to_token_stream(), None).to_string()))
            .collect();
        let ret = match (&sig.output, rty_over) {
            (_, Some(o)) => {
                let o = ts(&o, "ret");
                quote!(-> (#rid: #o))
            }
            (syn::ReturnType::Default, _) => quote!(),
            (syn::ReturnType::Type(_, t), _) => {
                if let syn::Type::Never(_) = &**t {
                    quote!(-> !)
                } else {
                    quote!(-> (#rid: #t))
                }
            }
        };
        let generics = if spec.flag("nogenerics") { quote!() } else { sig.generics.to_token_stream() };
        let wher = if spec.flag("nogenerics") { quote!() } else { sig.generics.where_clause.to_token_stream() };
        let mut contract = spec.spec.clone();
        if self.threaded.contains(&spec.path) {
            let same = "ensures *final(vx_w) == *old(vx_w),";
            contract = if contract.contains("ensures") { contract.replacen("ensures", same, 1) } else { format!("{contract} {same}") };
        }
        let contract = ts(&contract, &format!("spec of {}", spec.path));
        let stmts = &block.stmts;
        let entry = ts(&spec.entry, "entry");
        let exit = ts(&spec.exit, "exit");
        let vac = if self.vacuity && !stub { quote!(assert(false);) } else { quote!() };
        let body = if stub {
            quote!({ unimplemented!() })
        } else if exit.is_empty() {
            quote!({ #(#prologue)* #vac #entry #(#stmts)* })
        } else if sig.output == syn::ReturnType::Default {
            quote!({ #(#prologue)* #vac #entry #(#stmts)* ; #exit })
        } else {
            quote!({ #(#prologue)* #vac #entry let #rid = { #(#stmts)* }; #exit #rid })
        };
        let attrs = {
            let mut a = ts(&spec.attrs, "attrs");
            if stub {
                a = quote!(#[verifier::external_body]);
            } else if spec.flag("noisolation") {
                a = quote!(#[verifier::loop_isolation(false)] #a);
            }
            a
        };
        let mut map = self.types.clone();
        map.extend(assoc);
        let tr_ty = |t: TokenStream, st: Option<TokenStream>| replace_types(t, &Types { self_ty: st, map: &map });
        let f = match (&found.imp, &trait_name) {
            (None, _) => {
                let t = quote!(#attrs pub fn #name #generics (#(#params),*) #ret #wher #contract #body);
                tr_ty(t, None)
            }
            (Some((ig, ty, None)), _) => {
                let w = &ig.where_clause;
                let ig2 = quote!(#ig);
                let t = quote!(impl #ig2 #ty #w { #attrs pub fn #name #generics (#(#params),*) #ret #wher #contract #body });
                tr_ty(t, None)
            }
            (Some((ig, ty, Some(_))), Some(tn)) if conv => {
                let src = conv_src.unwrap_or_else(|| crate::lost(format!("{} has no parameter", spec.path)));
                let tspec = ts(&spec.traitspec, "traitspec");
                let st = self_ty.clone();
                let t = if tn == "From" {
                    quote!(impl #ig VInto<#ty> for #src { #tspec #attrs fn vinto(self) -> (#rid: #ty) #contract #body })
                } else {
                    quote!(impl #ig VTryInto<#ty> for #src { #tspec #attrs fn vtry_into(self) #ret #contract #body })
                };
                // `Self` inside the original body is the target type; inside the spec it is not used.
                let t = tr_ty(t, st);
                t
            }
            (Some((ig, ty, Some(_))), Some(tn)) if tn == "IntoIterator" => {
                let at: Vec<TokenStream> = found
                    .assoc_types
                    .iter()
                    .map(|(n, t)| {
                        let n = syn::Ident::new(n, Span::call_site());
                        quote!(type #n = #t;)
                    })
                    .collect();
                let t = quote!(impl #ig IntoIterator for #ty { #(#at)* #attrs fn #name (#(#params),*) #ret #contract #body });
                tr_ty(t, None)
            }
            (Some((ig, ty, Some(_))), Some(tn)) => {
                // Other trait impls: the method becomes an inherent one.
                let _ = tn;
                let t = quote!(impl #ig #ty { #attrs pub fn #name #generics (#(#params),*) #ret #wher #contract #body });
                tr_ty(t, None)
            }
            _ => unreachable!(),
        };
        let printed = print_tokens(f);
        let start = self.text.lines().count() + 2;
        self.text.push_str(&format!("\n// fn {} {}:{}-{}\n", spec.path, spec.source, found.lines.0, found.lines.1));
        self.text.push_str(&printed);
        self.text.push('\n');
        let end = self.text.lines().count();
        self.fns.push(json!({
            "path": spec.path, "source": spec.source, "lines": [found.lines.0, found.lines.1],
            "hash": fnv(&found.text), "verified": !stub, "dropped": dropped, "partial": cfg.partial,
            "props": spec.props, "args": arg_names, "rewrites": rewrites, "inlined": inlined, "reshaped": reshaped,
            "loops": kinds, "gen_lines": [start, end],
        }));
    }

    pub fn meta(&self) -> Value {
        json!({"functions": self.fns, "types": self.type_meta, "includes": self.includes,
            "maps": {"methods": self.cfg.methods, "paths": self.cfg.paths, "macros": self.cfg.macros, "types": self.types}})
    }
}
