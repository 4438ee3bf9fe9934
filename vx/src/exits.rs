//! Rewrites a function body so that it leaves only at its end: the statements after a point where it
//! may return early move into the branches that go on.  Used before a helper is inlined.

use crate::rewrite::{block_early_exit, has_early_exit};
use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeSet;
use syn::{parse_quote, Block, Expr, Stmt};

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Res,
    Opt,
    Other,
}

pub struct Exits {
    kind: Kind,
    fresh: usize,
    copies: usize,
}

/// The body without early exits, if it can be written that way.
pub fn straighten(sig: &syn::Signature, block: &Block) -> Option<Block> {
    let kind = match &sig.output {
        syn::ReturnType::Type(_, t) => match &**t {
            syn::Type::Path(p) => match p.path.segments.last().map(|s| s.ident.to_string()).as_deref() {
                Some("Result") => Kind::Res,
                Some("Option") => Kind::Opt,
                _ => Kind::Other,
            },
            _ => Kind::Other,
        },
        _ => Kind::Other,
    };
    let mut x = Exits { kind, fresh: 0, copies: 0 };
    let stmts = x.go(block.stmts.clone())?;
    let b = Block { brace_token: Default::default(), stmts };
    if block_early_exit(&b) {
        return None;
    }
    Some(b)
}

fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            TokenTree::Literal(l) => {
                // Names used in format strings.
                let s = l.to_string();
                if s.starts_with('"') {
                    for part in s.split('{').skip(1) {
                        let n: String = part.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                        out.insert(n);
                    }
                }
            }
            _ => {}
        }
    }
}

fn mentions(stmts: &[Stmt]) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for x in stmts {
        idents(x.to_token_stream(), &mut s);
    }
    s
}

/// Names a pattern binds.
fn bound(p: &syn::Pat, out: &mut BTreeSet<String>) {
    struct V<'a>(&'a mut BTreeSet<String>);
    impl<'ast> syn::visit::Visit<'ast> for V<'_> {
        fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
            self.0.insert(i.ident.to_string());
            syn::visit::visit_pat_ident(self, i);
        }
    }
    syn::visit::Visit::visit_pat(&mut V(out), p);
}

fn stmts_of(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        _ => vec![Stmt::Expr(e.clone(), None)],
    }
}

fn pure(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Reference(r) => pure(&r.expr),
        Expr::Field(f) => pure(&f.base),
        Expr::Paren(p) => pure(&p.expr),
        Expr::Unary(u) => pure(&u.expr),
        _ => false,
    }
}

impl Exits {
    fn name(&mut self) -> syn::Ident {
        self.fresh += 1;
        syn::Ident::new(&format!("vx_x{}", self.fresh), proc_macro2::Span::call_site())
    }

    /// What follows a statement is written once for each way to get there.
    fn copy(&mut self, rest: &[Stmt]) -> Option<Vec<Stmt>> {
        if !rest.is_empty() {
            self.copies += 1;
            if self.copies > 12 {
                return None;
            }
        }
        Some(rest.to_vec())
    }

    /// A branch followed by the rest; `value` receives what the branch evaluates to.
    fn branch(&mut self, stmts: Vec<Stmt>, pats: &BTreeSet<String>, value: Option<&syn::Pat>, rest: &[Stmt]) -> Option<Vec<Stmt>> {
        let falls = !ends(&stmts);
        if !falls {
            return self.go(stmts);
        }
        let used = mentions(rest);
        if pats.iter().any(|p| used.contains(p)) {
            // The names would mean something else in what follows.
            return None;
        }
        let exits = stmts.iter().any(stmt_exits);
        if !exits {
            let mut v: Vec<Stmt> = match value {
                Some(p) => vec![parse_quote!(let #p = { #(#stmts)* };)],
                None if stmts.is_empty() => vec![],
                None => vec![parse_quote!({ #(#stmts)* };)],
            };
            if let (Some(_), 1) = (value, stmts.len()) {
                if let Stmt::Expr(e, None) = &stmts[0] {
                    let p = value.unwrap();
                    v = vec![parse_quote!(let #p = #e;)];
                }
            }
            let rest = self.copy(rest)?;
            v.extend(self.go(rest)?);
            return Some(v);
        }
        let mut names = BTreeSet::new();
        for s in &stmts {
            if let Stmt::Local(l) = s {
                bound(&l.pat, &mut names);
            }
        }
        if names.iter().any(|p| used.contains(p)) {
            return None;
        }
        let mut v = stmts;
        match (v.pop()?, value) {
            (Stmt::Expr(e, None), Some(p)) => v.push(parse_quote!(let #p = #e;)),
            (Stmt::Expr(e, None), None) => v.push(Stmt::Expr(e, Some(Default::default()))),
            (s, None) => v.push(s),
            (_, Some(_)) => return None,
        }
        v.extend(self.copy(rest)?);
        self.go(v)
    }

    /// A branching expression followed by the rest.
    fn fork(&mut self, e: &Expr, value: Option<&syn::Pat>, rest: &[Stmt]) -> Option<Vec<Stmt>> {
        let none = BTreeSet::new();
        match e {
            Expr::Paren(p) => self.fork(&p.expr, value, rest),
            Expr::Block(b) if b.label.is_none() => self.branch(b.block.stmts.clone(), &none, value, rest),
            Expr::If(i) => {
                if has_early_exit(&i.cond) {
                    return self.hoist(e, value, rest);
                }
                let mut names = BTreeSet::new();
                struct L<'a>(&'a mut BTreeSet<String>);
                impl<'ast> syn::visit::Visit<'ast> for L<'_> {
                    fn visit_expr_let(&mut self, l: &'ast syn::ExprLet) {
                        bound(&l.pat, self.0);
                        syn::visit::visit_expr_let(self, l);
                    }
                }
                syn::visit::Visit::visit_expr(&mut L(&mut names), &i.cond);
                let c = &i.cond;
                let a = self.branch(i.then_branch.stmts.clone(), &names, value, rest)?;
                let b = match &i.else_branch {
                    Some((_, x)) => self.fork_or(x, value, rest)?,
                    None if value.is_none() => {
                        let r = self.copy(rest)?;
                        self.go(r)?
                    }
                    None => return None,
                };
                let x: Expr = parse_quote!(if #c { #(#a)* } else { #(#b)* });
                Some(vec![Stmt::Expr(x, None)])
            }
            Expr::Match(m) => {
                if has_early_exit(&m.expr) {
                    return self.hoist(e, value, rest);
                }
                let s = &m.expr;
                let mut arms: Vec<TokenStream> = vec![];
                for a in &m.arms {
                    let g = match &a.guard {
                        Some((_, g)) if has_early_exit(g) => return None,
                        Some((_, g)) => quote!(if #g),
                        None => quote!(),
                    };
                    let mut names = BTreeSet::new();
                    bound(&a.pat, &mut names);
                    let p = &a.pat;
                    let v = self.branch(stmts_of(&a.body), &names, value, rest)?;
                    arms.push(quote!(#p #g => { #(#v)* }));
                }
                let x: Expr = syn::parse2(quote!(match #s { #(#arms)* })).ok()?;
                Some(vec![Stmt::Expr(x, None)])
            }
            Expr::Try(t) if !has_early_exit(&t.expr) => {
                let x = &t.expr;
                let n = self.name();
                let mut v: Vec<Stmt> = match value {
                    Some(p) => vec![parse_quote!(let #p = #n;)],
                    None => vec![],
                };
                v.extend(rest.to_vec());
                let v = self.go(v)?;
                let x: Expr = match self.kind {
                    Kind::Res => parse_quote!(match #x { Ok(#n) => { #(#v)* } Err(vx_err) => Err(vx_err.vx_from()) }),
                    Kind::Opt => parse_quote!(match #x { Some(#n) => { #(#v)* } None => None }),
                    Kind::Other => return None,
                };
                Some(vec![Stmt::Expr(x, None)])
            }
            _ => self.hoist(e, value, rest),
        }
    }

    fn fork_or(&mut self, e: &Expr, value: Option<&syn::Pat>, rest: &[Stmt]) -> Option<Vec<Stmt>> {
        if has_early_exit(e) {
            self.fork(e, value, rest)
        } else {
            self.branch(stmts_of(e), &BTreeSet::new(), value, rest)
        }
    }

    /// Evaluates the first `x?` inside an expression ahead of it.
    fn hoist(&mut self, e: &Expr, value: Option<&syn::Pat>, rest: &[Stmt]) -> Option<Vec<Stmt>> {
        let n = self.name();
        let mut e = e.clone();
        let x = first_try(&mut e, &n)?;
        let mut v: Vec<Stmt> = vec![parse_quote!(let #n = #x;)];
        match value {
            Some(p) => v.push(parse_quote!(let #p = #e;)),
            None if rest.is_empty() => v.push(Stmt::Expr(e, None)),
            None => v.push(Stmt::Expr(e, Some(Default::default()))),
        }
        v.extend(rest.to_vec());
        self.go(v)
    }

    /// The statements up to the end of the function.
    fn go(&mut self, stmts: Vec<Stmt>) -> Option<Vec<Stmt>> {
        let Some(k) = stmts.iter().position(stmt_exits) else { return Some(stmts) };
        let mut out = stmts[..k].to_vec();
        let rest = &stmts[k + 1..];
        let tail = match &stmts[k] {
            Stmt::Expr(Expr::Return(r), _) => match &r.expr {
                Some(e) => self.go(vec![Stmt::Expr((**e).clone(), None)])?,
                None => vec![],
            },
            Stmt::Expr(Expr::Macro(m), _) => bail(&m.mac)?,
            Stmt::Macro(m) => bail(&m.mac)?,
            Stmt::Expr(e, None) if rest.is_empty() => self.tail(e)?,
            Stmt::Expr(e, _) => {
                if rest.is_empty() {
                    // The function ends with `()`.
                    self.fork(e, None, &[])?
                } else {
                    self.fork(e, None, rest)?
                }
            }
            Stmt::Local(l) => {
                let i = l.init.as_ref()?;
                match &i.diverge {
                    Some((_, d)) => {
                        if has_early_exit(&i.expr) {
                            return None;
                        }
                        let (p, e) = (&l.pat, &i.expr);
                        let d = self.go(stmts_of(d))?;
                        let r = self.go(rest.to_vec())?;
                        vec![parse_quote!(match #e { #p => { #(#r)* } _ => { #(#d)* } })]
                    }
                    None => self.fork(&i.expr, Some(&l.pat), rest)?,
                }
            }
            _ => return None,
        };
        out.extend(tail);
        Some(out)
    }

    /// The value of the function.
    fn tail(&mut self, e: &Expr) -> Option<Vec<Stmt>> {
        if !has_early_exit(e) {
            return Some(vec![Stmt::Expr(e.clone(), None)]);
        }
        match e {
            Expr::Return(_) => self.go(vec![Stmt::Expr(e.clone(), Some(Default::default()))]),
            Expr::Paren(p) => self.tail(&p.expr),
            Expr::Block(b) if b.label.is_none() => self.go(b.block.stmts.clone()),
            Expr::If(_) | Expr::Match(_) => {
                // Branches are ends of the function themselves.
                let mut x = e.clone();
                match &mut x {
                    Expr::If(i) if !has_early_exit(&i.cond) => {
                        i.then_branch.stmts = self.go(i.then_branch.stmts.clone())?;
                        if let Some((_, b)) = &mut i.else_branch {
                            let v = self.tail(b)?;
                            **b = parse_quote!({ #(#v)* });
                        }
                        Some(vec![Stmt::Expr(x, None)])
                    }
                    Expr::Match(m) if !has_early_exit(&m.expr) => {
                        for a in m.arms.iter_mut() {
                            if a.guard.as_ref().map(|g| has_early_exit(&g.1)).unwrap_or(false) {
                                return None;
                            }
                            let v = self.tail(&a.body)?;
                            *a.body = parse_quote!({ #(#v)* });
                        }
                        Some(vec![Stmt::Expr(x, None)])
                    }
                    _ => self.hoist(e, None, &[]),
                }
            }
            Expr::Try(_) => {
                let n = self.name();
                self.go(vec![parse_quote!(let #n = #e;), Stmt::Expr(parse_quote!(#n), None)])
            }
            _ => self.hoist(e, None, &[]),
        }
    }
}

fn bail(m: &syn::Macro) -> Option<Vec<Stmt>> {
    if !m.path.is_ident("bail") {
        return None;
    }
    let t = &m.tokens;
    Some(vec![Stmt::Expr(syn::parse2(quote!(Err(anyhow::anyhow!(#t)))).ok()?, None)])
}

fn stmt_exits(s: &Stmt) -> bool {
    match s {
        Stmt::Item(_) => false,
        s => block_early_exit(&Block { brace_token: Default::default(), stmts: vec![s.clone()] }),
    }
}

/// Nothing after these is reached.
fn ends(stmts: &[Stmt]) -> bool {
    match stmts.last() {
        Some(Stmt::Expr(e, _)) => expr_ends(e),
        Some(Stmt::Macro(m)) => m.mac.path.is_ident("bail"),
        _ => false,
    }
}

fn expr_ends(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Paren(p) => expr_ends(&p.expr),
        Expr::Block(b) => ends(&b.block.stmts),
        Expr::If(i) => ends(&i.then_branch.stmts) && i.else_branch.as_ref().map(|(_, e)| expr_ends(e)).unwrap_or(false),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| expr_ends(&a.body)),
        Expr::Macro(m) => m.mac.path.is_ident("bail"),
        _ => false,
    }
}

/// Takes out the `x?` that is evaluated first, if nothing with an effect comes before it.
fn first_try(e: &mut Expr, n: &syn::Ident) -> Option<Expr> {
    if let Expr::Try(t) = e {
        if has_early_exit(&t.expr) {
            return first_try(&mut t.expr, n);
        }
        let x = e.clone();
        *e = parse_quote!(#n);
        return Some(x);
    }
    fn list(v: &mut dyn Iterator<Item = &mut Expr>, n: &syn::Ident) -> Option<Expr> {
        for a in v {
            if has_early_exit(a) {
                return first_try(a, n);
            }
            if !pure(a) {
                return None;
            }
        }
        None
    }
    match e {
        Expr::Call(c) => list(&mut c.args.iter_mut(), n),
        Expr::MethodCall(c) => {
            if has_early_exit(&c.receiver) {
                return first_try(&mut c.receiver, n);
            }
            if !pure(&c.receiver) {
                return None;
            }
            list(&mut c.args.iter_mut(), n)
        }
        Expr::Struct(s) => list(&mut s.fields.iter_mut().map(|f| &mut f.expr), n),
        Expr::Tuple(t) => list(&mut t.elems.iter_mut(), n),
        Expr::Array(t) => list(&mut t.elems.iter_mut(), n),
        Expr::Paren(p) => first_try(&mut p.expr, n),
        Expr::Reference(p) => first_try(&mut p.expr, n),
        Expr::Unary(p) => first_try(&mut p.expr, n),
        Expr::Field(p) => first_try(&mut p.base, n),
        Expr::Await(p) => first_try(&mut p.base, n),
        Expr::Cast(p) => first_try(&mut p.expr, n),
        Expr::If(i) => first_try(&mut i.cond, n),
        Expr::Match(m) => first_try(&mut m.expr, n),
        Expr::Let(l) => first_try(&mut l.expr, n),
        Expr::Binary(b) => {
            if has_early_exit(&b.left) {
                return first_try(&mut b.left, n);
            }
            if matches!(b.op, syn::BinOp::And(_) | syn::BinOp::Or(_)) || !pure(&b.left) {
                return None;
            }
            first_try(&mut b.right, n)
        }
        _ => None,
    }
}
