//! Locating items in the repository's source files.

use crate::contracts::norm;
use quote::ToTokens;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;

#[derive(Clone)]
pub struct FoundFn {
    pub path: String,
    pub vis: syn::Visibility,
    pub sig: syn::Signature,
    pub block: syn::Block,
    /// For functions in impl blocks: generics, self type, trait path.
    pub imp: Option<(syn::Generics, syn::Type, Option<syn::Path>)>,
    pub assoc_types: Vec<(String, syn::Type)>,
    pub lines: (usize, usize),
    pub text: String,
}

pub struct Source {
    pub file: syn::File,
    pub fns: Vec<FoundFn>,
    pub text: String,
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") {
            return false;
        }
        let t = a.meta.to_token_stream().to_string();
        t.contains("test") && !t.contains("not")
    })
}

fn span_text(text: &str, s: proc_macro2::Span) -> ((usize, usize), String) {
    let a = s.start().line;
    let b = s.end().line;
    let lines: Vec<&str> = text.lines().collect();
    ((a, b), lines[a - 1..b.min(lines.len())].join("\n"))
}

fn collect(items: &[syn::Item], prefix: &str, text: &str, out: &mut Vec<FoundFn>) {
    for it in items {
        match it {
            syn::Item::Fn(f) if !is_test(&f.attrs) => {
                let (lines, t) = span_text(text, f.span());
                out.push(FoundFn {
                    path: norm(&format!("{prefix}{}", f.sig.ident)),
                    vis: f.vis.clone(),
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                    imp: None,
                    assoc_types: vec![],
                    lines,
                    text: t,
                });
            }
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    collect(items, &format!("{prefix}{}::", m.ident), text, out);
                }
            }
            syn::Item::Impl(im) if !is_test(&im.attrs) => {
                let ty = im.self_ty.to_token_stream().to_string();
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.clone());
                let assoc: Vec<(String, syn::Type)> = im
                    .items
                    .iter()
                    .filter_map(|i| match i {
                        syn::ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())),
                        _ => None,
                    })
                    .collect();
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if is_test(&f.attrs) {
                            continue;
                        }
                        let base = match &tr {
                            Some(p) => format!("<{} for {ty}>", p.to_token_stream()),
                            None => ty.clone(),
                        };
                        let (lines, t) = span_text(text, f.span());
                        out.push(FoundFn {
                            path: norm(&format!("{prefix}{base}::{}", f.sig.ident).replace(" for ", " @")),
                            vis: f.vis.clone(),
                            sig: f.sig.clone(),
                            block: f.block.clone(),
                            imp: Some((im.generics.clone(), (*im.self_ty).clone(), tr.clone())),
                            assoc_types: assoc.clone(),
                            lines,
                            text: t,
                        });
                    }
                }
            }
            _ => {}
        }
    }
}

pub struct Sources {
    root: PathBuf,
    cache: HashMap<String, Source>,
}

impl Sources {
    pub fn new(root: &Path) -> Self {
        Self { root: root.to_path_buf(), cache: HashMap::new() }
    }
    pub fn get(&mut self, rel: &str) -> &Source {
        if !self.cache.contains_key(rel) {
            let p = if let Some(r) = rel.strip_prefix("registry:") {
                let home = std::env::var("CARGO_HOME")
                    .unwrap_or_else(|_| format!("{}/.cargo", std::env::var("HOME").unwrap_or("/root".into())));
                let src = PathBuf::from(home).join("registry/src");
                let d = std::fs::read_dir(&src)
                    .ok()
                    .and_then(|rd| rd.flatten().map(|e| e.path().join(r)).find(|p| p.exists()));
                d.unwrap_or_else(|| crate::lost(format!("registry source {r} not found")))
            } else {
                self.root.join(rel)
            };
            let text = std::fs::read_to_string(&p)
                .unwrap_or_else(|e| crate::lost(format!("cannot read {}: {e}", p.display())));
            let file = syn::parse_file(&text)
                .unwrap_or_else(|e| crate::lost(format!("cannot parse {}: {e}", p.display())));
            let mut fns = vec![];
            collect(&file.items, "", &text, &mut fns);
            self.cache.insert(rel.to_string(), Source { file, fns, text });
        }
        &self.cache[rel]
    }
    /// Functions that return an `Option` ('O') or a `Result` ('R'): those of the file, and those of its
    /// neighbours wherever all functions of that name agree.
    pub fn kinds(&mut self, rel: &str) -> HashMap<String, char> {
        fn kind(f: &FoundFn) -> char {
            let syn::ReturnType::Type(_, t) = &f.sig.output else { return '-' };
            of(t)
        }
        fn of(t: &syn::Type) -> char {
            let syn::Type::Path(p) = t else { return '-' };
            match p.path.segments.last().map(|s| s.ident.to_string()).as_deref() {
                Some("Result") => 'R',
                Some("Option") => 'O',
                _ => '-',
            }
        }
        let mut all: HashMap<String, char> = HashMap::new();
        let mut fields: HashMap<String, char> = HashMap::new();
        let dir = Path::new(rel).parent().unwrap_or(Path::new("")).to_path_buf();
        let mut files: Vec<String> = vec![];
        for e in std::fs::read_dir(self.root.join(&dir)).into_iter().flatten().flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            if n.ends_with(".rs") {
                files.push(dir.join(n).to_string_lossy().to_string());
            }
        }
        files.sort();
        for f in files {
            let ok = std::fs::read_to_string(self.root.join(&f)).ok().and_then(|t| syn::parse_file(&t).ok()).is_some();
            if !ok {
                continue;
            }
            // Fields, as `.name`.
            for it in &self.get(&f).file.items {
                let syn::Item::Struct(s) = it else { continue };
                for fd in &s.fields {
                    let Some(n) = &fd.ident else { continue };
                    let k = of(&fd.ty);
                    let e = fields.entry(format!(".{n}")).or_insert(k);
                    if *e != k {
                        *e = '-';
                    }
                }
            }
            for f in &self.get(&f).fns {
                let k = kind(f);
                let e = all.entry(f.sig.ident.to_string()).or_insert(k);
                if *e != k {
                    *e = '-';
                }
            }
        }
        for f in &self.get(rel).fns {
            all.insert(f.sig.ident.to_string(), kind(f));
        }
        all.extend(fields);
        all.retain(|_, k| *k != '-');
        all
    }

    pub fn find_fn(&mut self, rel: &str, path: &str) -> Result<FoundFn, String> {
        let want = path.to_string();
        let s = self.get(rel);
        let hits: Vec<&FoundFn> = s.fns.iter().filter(|f| f.path == want).collect();
        match hits.len() {
            1 => Ok(hits[0].clone()),
            0 => Err(format!("function {path} not found in {rel}")),
            _ => Err(format!("function {path} is ambiguous in {rel}")),
        }
    }
    pub fn find_type(&mut self, rel: &str, name: &str) -> syn::Item {
        fn go(items: &[syn::Item], name: &str) -> Option<syn::Item> {
            for it in items {
                match it {
                    syn::Item::Struct(s) if s.ident == name => return Some(it.clone()),
                    syn::Item::Enum(s) if s.ident == name => return Some(it.clone()),
                    syn::Item::Type(s) if s.ident == name => return Some(it.clone()),
                    syn::Item::Const(s) if s.ident == name => return Some(it.clone()),
                    syn::Item::Mod(m) if !is_test(&m.attrs) => {
                        if let Some((_, items)) = &m.content {
                            if let Some(x) = go(items, name) {
                                return Some(x);
                            }
                        }
                    }
                    _ => {}
                }
            }
            None
        }
        let s = self.get(rel);
        go(&s.file.items, name).unwrap_or_else(|| crate::lost(format!("type {name} not found in {rel}")))
    }
}
