//! The rewrites applied to extracted function bodies.  Each one is counted and reported.
//!
//!  log        tracing macros (debug!, info!, warn!, error!, trace!), println! and eprintln! are dropped
//!  await      `async` and `.await` are dropped: a suspended call is treated as a plain call
//!  panic      panic!/unreachable!/todo! become calls of `vpanic()` (must be unreachable), or, in
//!             functions marked `partial`, of `vdiverge()` (the path ends there)
//!  assert     assert!(c, ..)/assert_eq! become `vassert(c)`, or in `partial` functions a guard
//!             around `vdiverge()`
//!  expect     `.expect(..)`/`.unwrap()` become `.vunwrap()` (must hold), in `partial` functions
//!             `.vexpect()`, which ends the path
//!  err        anyhow!(..)/bail!(..)/.context(..)/.with_context(..) keep only the fact that an error
//!             value is made; texts are dropped
//!  format     format!(lits and args) becomes concatenation of its literal parts and the displayed
//!             arguments; `s + "lit"` becomes the same
//!  closure    `x.unwrap_or_else(|e| b)`, `x.map_err(f)`, `.for_each(|x| b)`, `.any(|x| b)` and
//!             `.map(|x| b).collect()` are written out as match/for expressions, likewise `map`,
//!             `and_then`, `map_or`, `ok_or_else` .. of Options and Results
//!  destruct   `(a, b) = e` becomes `let (t0, t1) = e; a = t0; b = t1`
//!  slicepat   `if let [] | [P] = e` becomes a test of length and first element
//!  vecmac     vec![..] becomes Vec::new() and pushes
//!  into       .into()/.try_into() become .vinto()/.vtry_into()
//!  from       `T::from(x)` and `T::try_from(x)` become `vfrom::<T, _>(x)` and `vtry_from::<T, _>(x)`
//!  slice      `&x[a..]`, `&x[..b]` and `&x[a..b]` become calls of `vslice_from`, `vslice_to`, `vslice`
//!  find       `x.windows(n).position(|w| w == e)` becomes `x.vfind(n, e)`
//!  bytes      `b"text"` becomes `vbytes_lit("text")`
//!  values_mut `for p in m.values_mut() b` becomes `for k in m.keys() { if let Some(p) = m.get_mut(&k) b }`
//!  eq         where the unit asks for it, `a == b` of anything but numbers and the like becomes `veq(&a, &b)`
//!  chain      `for x in e.iter().filter(|p| c).map(|p| f)` and the same ended by for_each, any, all or
//!             collect become plain loops; copied/cloned/into_iter on the way are dropped, `drain(..)` takes
//!             the whole vector
//!  default    `.unwrap_or_default()` becomes a match with `vdefault()`
//!  continue   in `for` loops, `if c { a; continue; } b` becomes `if c { a } else { b }`
//!  method     calls of library methods listed in the unit are redirected to same-named shims
//!  thread     functions that act on the outside world (files, sockets) get a parameter `vx_w` standing
//!             for it, and calls of them pass it on; functions calling such a function become one
//!  task       `tokio::spawn(async move { b })` becomes `{ b }`: a task is treated as running in place;
//!             so is what `block_on(async { b })` runs.
//!             Where the unit asks for it, it becomes `if vselect() { b }`: a task that ends the process
//!             and what follows it are looked at one at a time
//!  select     `tokio::select!` becomes a choice between its branches by `vselect()`, about which nothing
//!             is known. What a dropped branch had begun is modelled where the unit lists the methods
//!             that lose nothing (`select keeps`): others are followed by `vabandon()`.
//!             A future bound by `let` and given to a `select!` is put there.
//!             `timeout(d, f)` is the choice between `Ok(f)` and giving `f` up
//!  skip       statements that call a function the unit names (panic hooks) are dropped
//!  sample     for methods the unit names (the connection's builders), `x.m(|p| b)` becomes
//!             `{ let r = x; let p = r.m_args(); let v = b; r.m(v) }`: the closure is run once, on arguments
//!             about which nothing is known
//!  inline     calls of functions of the same file that have no contract are replaced by their bodies

use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, ExprMethodCall, Stmt};

#[derive(Default, Clone)]
pub struct Config {
    pub partial: bool,
    pub methods: BTreeMap<String, String>,
    pub paths: BTreeMap<String, String>,
    pub macros: BTreeMap<String, String>,
    /// Functions known to return an `Option` ('O') or a `Result` ('R').
    pub kinds: BTreeMap<String, char>,
    /// Functions and methods (".name") that act on the outside world.
    pub threads: std::collections::BTreeSet<String>,
    /// Functions whose calls are dropped as statements.
    pub skips: std::collections::BTreeSet<String>,
    /// Methods whose closure is run once, on arguments about which nothing is known.
    pub samples: std::collections::BTreeSet<String>,
    /// Methods that have done nothing if they are given up in a `select!`; without a list, that is
    /// not looked at.
    pub select_keeps: Option<std::collections::BTreeSet<String>>,
    /// Whether a task and what follows it are looked at one at a time.
    pub tasks_apart: bool,
    pub self_ty: Option<String>,
}

pub struct Rewriter<'a> {
    pub cfg: &'a Config,
    pub counts: BTreeMap<String, usize>,
    pub fresh: BTreeMap<String, usize>,
    /// Whether the value of the macro at hand is used.
    value: bool,
}

pub fn has_early_exit(e: &Expr) -> bool {
    struct V(bool);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
        fn visit_item(&mut self, _: &'ast syn::Item) {}
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            if m.path.is_ident("bail") {
                self.0 = true;
            }
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

/// Without parentheses and single-expression braces.
fn bare(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => bare(&p.expr),
        Expr::Group(p) => bare(&p.expr),
        Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(x, None) => bare(x),
            _ => e,
        },
        _ => e,
    }
}

pub fn block_early_exit(b: &syn::Block) -> bool {
    has_early_exit(&Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b.clone() }))
}

fn mac_name(m: &syn::Macro) -> String {
    m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

/// The branches of `tokio::select!`.
struct Arms(Vec<(syn::Pat, Expr, Expr)>);
impl syn::parse::Parse for Arms {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let mut v = vec![];
        if i.peek(syn::Ident) && i.fork().parse::<syn::Ident>().map(|x| x == "biased").unwrap_or(false) {
            i.parse::<syn::Ident>()?;
            i.parse::<syn::Token![;]>()?;
        }
        while !i.is_empty() {
            let pat = syn::Pat::parse_multi(i)?;
            i.parse::<syn::Token![=]>()?;
            let fut = i.parse()?;
            i.parse::<syn::Token![=>]>()?;
            let block = i.peek(syn::token::Brace);
            let body = if block { Expr::Block(i.parse()?) } else { i.parse()? };
            if i.parse::<Option<syn::Token![,]>>()?.is_none() && !block && !i.is_empty() {
                return Err(i.error("expected `,`"));
            }
            v.push((pat, fut, body));
        }
        Ok(Arms(v))
    }
}

fn split_args(ts: TokenStream) -> Vec<Expr> {
    use syn::parse::Parser;
    let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
    match p.parse2(ts) {
        Ok(v) => v.into_iter().collect(),
        Err(_) => vec![],
    }
}

impl<'a> Rewriter<'a> {
    pub fn new(cfg: &'a Config) -> Self {
        Self { cfg, counts: BTreeMap::new(), fresh: BTreeMap::new(), value: false }
    }
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.into()).or_default() += 1;
    }
    fn name(&mut self, base: &str) -> syn::Ident {
        let n = self.fresh.entry(base.into()).or_default();
        *n += 1;
        syn::Ident::new(&format!("vx_{base}{n}"), Span::call_site())
    }
    fn panic_expr(&mut self) -> Expr {
        self.count("panic");
        if self.cfg.partial {
            parse_quote!(vdiverge())
        } else {
            parse_quote!(vpanic())
        }
    }

    fn format_expr(&mut self, ts: TokenStream) -> Expr {
        self.count("format");
        let args = split_args(ts);
        let Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(f), .. })) = args.first() else {
            return parse_quote!(vformat());
        };
        let f = f.value();
        let mut rest = args[1..].iter();
        let mut acc: Expr = parse_quote!(vstr_new());
        let mut lit = String::new();
        let cs: Vec<char> = f.chars().collect();
        let mut i = 0;
        let flush = |acc: Expr, lit: &mut String| -> Expr {
            if lit.is_empty() {
                return acc;
            }
            let l = std::mem::take(lit);
            parse_quote!(vcat(#acc, #l))
        };
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => {
                    lit.push('{');
                    i += 2;
                }
                '}' if cs.get(i + 1) == Some(&'}') => {
                    lit.push('}');
                    i += 2;
                }
                '{' => {
                    let j = match cs[i..].iter().position(|c| *c == '}') {
                        Some(j) => i + j,
                        None => return parse_quote!(vformat()),
                    };
                    let inner: String = cs[i + 1..j].iter().collect();
                    let (nm, fmt) = match inner.split_once(':') {
                        Some((a, b)) => (a.to_string(), b.to_string()),
                        None => (inner.clone(), String::new()),
                    };
                    if !fmt.is_empty() {
                        return parse_quote!(vformat());
                    }
                    acc = flush(acc, &mut lit);
                    let e: Expr = if nm.is_empty() {
                        match rest.next() {
                            Some(e) => e.clone(),
                            None => return parse_quote!(vformat()),
                        }
                    } else if let Ok(id) = syn::parse_str::<syn::Ident>(&nm) {
                        parse_quote!(#id)
                    } else {
                        return parse_quote!(vformat());
                    };
                    acc = parse_quote!(vcat_disp(#acc, &#e));
                    i = j + 1;
                }
                c => {
                    lit.push(c);
                    i += 1;
                }
            }
        }
        flush(acc, &mut lit)
    }

    fn macro_expr(&mut self, m: &syn::Macro) -> Option<Expr> {
        let n = mac_name(m);
        if let Some(to) = self.cfg.macros.get(&n) {
            let id = syn::Ident::new(to, Span::call_site());
            self.count("method");
            return Some(parse_quote!(#id()));
        }
        match n.as_str() {
            "debug" | "info" | "warn" | "error" | "trace" | "println" | "eprintln" => {
                self.count("log");
                Some(parse_quote!(()))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(self.panic_expr()),
            "assert" | "debug_assert" => {
                self.count("assert");
                let a = split_args(m.tokens.clone());
                let c = a.first()?.clone();
                if self.cfg.partial {
                    Some(parse_quote!(if !(#c) { vdiverge() }))
                } else {
                    Some(parse_quote!(vassert(#c)))
                }
            }
            "assert_eq" | "debug_assert_eq" => {
                self.count("assert");
                let a = split_args(m.tokens.clone());
                let (x, y) = (a.first()?.clone(), a.get(1)?.clone());
                if self.cfg.partial {
                    Some(parse_quote!(if !(#x == #y) { vdiverge() }))
                } else {
                    Some(parse_quote!(vassert(#x == #y)))
                }
            }
            "anyhow" => {
                self.count("err");
                Some(parse_quote!(anyhow_err()))
            }
            "bail" => {
                self.count("err");
                Some(parse_quote!(return Err(anyhow_err())))
            }
            "format" => Some(self.format_expr(m.tokens.clone())),
            "vec" => {
                struct Repeat(Expr, Expr);
                impl syn::parse::Parse for Repeat {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let a = i.parse()?;
                        i.parse::<syn::Token![;]>()?;
                        Ok(Repeat(a, i.parse()?))
                    }
                }
                if let Ok(Repeat(a, b)) = syn::parse2::<Repeat>(m.tokens.clone()) {
                    self.count("vecmac");
                    return Some(parse_quote!(vvec_repeat(#a, #b)));
                }
                self.count("vecmac");
                let a = split_args(m.tokens.clone());
                if a.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                let v = self.name("v");
                Some(parse_quote!({ let mut #v = Vec::new(); #(#v.push(#a);)* #v }))
            }
            "select" => {
                let arms = syn::parse2::<Arms>(m.tokens.clone()).ok()?.0;
                self.count("select");
                let safe: Vec<bool> = arms.iter().map(|(_, fut, _)| self.keeps(fut)).collect();
                let value = self.value && arms.iter().all(|(p, ..)| matches!(p, syn::Pat::Ident(_) | syn::Pat::Wild(_)));
                let mut out: Option<TokenStream> = if value { None } else { Some(quote!({})) };
                for (i, (pat, fut, body)) in arms.into_iter().enumerate().rev() {
                    // What the other branches had begun is given up.
                    let lost = if safe.iter().enumerate().all(|(j, s)| j == i || *s) { quote!() } else { quote!(vabandon(vx_w);) };
                    let arm = match value {
                        true => quote!({ let #pat = #fut; #lost #body }),
                        false => quote!({ match #fut { #pat => { #lost #body; } _ => {} } }),
                    };
                    out = Some(match out {
                        None => arm,
                        Some(o) => quote!(if vselect() #arm else { #o }),
                    });
                }
                Some(parse_quote!({ #out }))
            }
            _ => None,
        }
    }

    /// Whether a future that is dropped half way has done nothing.
    fn keeps(&self, fut: &Expr) -> bool {
        match (&self.cfg.select_keeps, fut) {
            (None, _) => true,
            (Some(k), Expr::MethodCall(c)) => k.contains(&format!(".{}", c.method)),
            _ => false,
        }
    }

    /// Turns an iterator chain into a `for` loop around `body`, which consumes the item bound to `pat`.
    fn chain_loop(&mut self, it: &Expr, pat: syn::Pat, body: TokenStream) -> TokenStream {
        if let Expr::MethodCall(c) = it {
            let m = c.method.to_string();
            let recv = (*c.receiver).clone();
            match (m.as_str(), c.args.first()) {
                ("filter_map", Some(Expr::Path(p))) if p.path.to_token_stream().to_string().replace(' ', "") == "Result::ok" => {
                    let x = self.name("x");
                    let b = quote!(match #x { Ok(#pat) => { #body } Err(_) => {} });
                    let xp: syn::Pat = parse_quote!(#x);
                    return self.chain_loop(&recv, xp, b);
                }
                ("filter", Some(Expr::Closure(cl))) if cl.inputs.len() == 1 => {
                    let x = self.name("x");
                    let p = &cl.inputs[0];
                    let cond = &cl.body;
                    let b = quote!(if { let #p = &#x; #cond } { let #pat = #x; #body });
                    let xp: syn::Pat = parse_quote!(#x);
                    return self.chain_loop(&recv, xp, b);
                }
                ("map", Some(Expr::Closure(cl))) if cl.inputs.len() == 1 => {
                    let p = cl.inputs[0].clone();
                    let e = &cl.body;
                    let b = quote!({ let #pat = #e; #body });
                    return self.chain_loop(&recv, p, b);
                }
                ("map", Some(Expr::Path(f))) => {
                    let x = self.name("x");
                    let b = quote!({ let #pat = #f(#x); #body });
                    let xp: syn::Pat = parse_quote!(#x);
                    return self.chain_loop(&recv, xp, b);
                }
                ("cloned", None) | ("copied", None) => {
                    let x = self.name("x");
                    let b = quote!({ let #pat = #x.clone(); #body });
                    let xp: syn::Pat = parse_quote!(#x);
                    return self.chain_loop(&recv, xp, b);
                }
                ("into_iter", None) => {
                    return quote!(for #pat in #recv { #body });
                }
                _ => {}
            }
        }
        quote!(for #pat in #it { #body })
    }

    /// An iterator chain whose adapters `chain_loop` takes apart.
    fn adapted(e: &Expr) -> bool {
        let Expr::MethodCall(c) = e else { return false };
        match (c.method.to_string().as_str(), c.args.first()) {
            ("filter_map", Some(Expr::Path(p))) => p.path.to_token_stream().to_string().replace(' ', "") == "Result::ok",
            ("filter", Some(Expr::Closure(cl))) | ("map", Some(Expr::Closure(cl))) => cl.inputs.len() == 1 && !has_early_exit(&cl.body),
            ("into_iter", None) => true,
            _ => false,
        }
    }

    fn chainable(e: &Expr) -> bool {
        if let Expr::MethodCall(c) = e {
            let m = c.method.to_string();
            return matches!(m.as_str(), "into_iter" | "iter" | "keys" | "values" | "filter" | "filter_map" | "map" | "cloned" | "copied" | "build_walk" | "components" | "rev")
        }
        false
    }

    /// Whether an expression is an `Option` ('O') or a `Result` ('R'), as far as its last call tells.
    fn kind_of(&self, e: &Expr) -> Option<char> {
        match e {
            Expr::Paren(p) => self.kind_of(&p.expr),
            Expr::Await(a) => self.kind_of(&a.base),
            Expr::MethodCall(c) => {
                let m = c.method.to_string();
                if let Some(k) = self.cfg.kinds.get(&m) {
                    return Some(*k);
                }
                match m.as_str() {
                    "next" | "first" | "last" | "get" | "get_mut" | "pop" | "ok" | "parent" | "file_name" | "peek" => Some('O'),
                    "context" | "with_context" | "map_err" => Some('R'),
                    "map" | "and_then" | "cloned" | "copied" | "as_ref" | "as_mut" | "or_else" | "clone" | "or" | "filter" => self.kind_of(&c.receiver),
                    _ => None,
                }
            }
            Expr::Field(f) => match &f.member {
                syn::Member::Named(n) => self.cfg.kinds.get(&format!(".{n}")).copied(),
                _ => None,
            },
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => self.cfg.kinds.get(&p.path.segments.last()?.ident.to_string()).copied(),
                _ => None,
            },
            _ => None,
        }
    }

    /// `x.map(|p| b)` and the like on an `Option` or a `Result`.
    fn functor(&mut self, m: &str, recv: &Expr, args: &[Expr]) -> Option<Expr> {
        let cl = match args.last()? {
            Expr::Closure(cl) if !has_early_exit(&cl.body) => cl,
            _ => return None,
        };
        let b = &cl.body;
        let p = cl.inputs.first();
        let e = self.name("e");
        let x = self.name("o");
        let r = match (m, self.kind_of(recv), p) {
            ("map", Some('R'), Some(p)) => parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(#e) => Err(#e) }),
            ("map", Some('O'), Some(p)) => parse_quote!(match #recv { Some(#p) => Some(#b), None => None }),
            ("and_then", Some('R'), Some(p)) => parse_quote!(match #recv { Ok(#p) => #b, Err(#e) => Err(#e) }),
            ("and_then", Some('O'), Some(p)) => parse_quote!(match #recv { Some(#p) => #b, None => None }),
            ("filter", Some('O'), Some(p)) => {
                parse_quote!(match #recv { Some(#x) => { let #e = { let #p = &#x; #b }; if #e { Some(#x) } else { None } } None => None })
            }
            ("is_some_and", _, Some(p)) => parse_quote!(match #recv { Some(#p) => #b, None => false }),
            ("is_ok_and", _, Some(p)) => parse_quote!(match #recv { Ok(#p) => #b, Err(_) => false }),
            ("map_or", Some('R'), Some(p)) => {
                let d = args.first()?;
                parse_quote!(match #recv { Ok(#p) => #b, Err(_) => #d })
            }
            ("map_or", Some('O'), Some(p)) => {
                let d = args.first()?;
                parse_quote!(match #recv { Some(#p) => #b, None => #d })
            }
            ("ok_or_else", _, None) => parse_quote!(match #recv { Some(#x) => Ok(#x), None => Err(#b) }),
            ("or_else", _, None) => parse_quote!(match #recv { Some(#x) => Some(#x), None => #b }),
            ("or_else", _, Some(p)) => parse_quote!(match #recv { Ok(#x) => Ok(#x), Err(#p) => #b }),
            ("then", _, None) => parse_quote!(if #recv { Some(#b) } else { None }),
            _ => return None,
        };
        self.count("closure");
        Some(r)
    }

    fn sample(&mut self, m: &str, recv: &Expr, cl: &syn::ExprClosure) -> Option<Expr> {
        let mut body: syn::Block = match &*cl.body {
            Expr::Block(b) => b.block.clone(),
            e => parse_quote!({ #e }),
        };
        if block_early_exit(&body) {
            let sig: syn::Signature = parse_quote!(fn f() -> Result<()>);
            body = crate::exits::straighten(&sig, &body)?;
        }
        self.count("sample");
        let r = self.name("r");
        let v = self.name("v");
        let i = syn::Ident::new(m, Span::call_site());
        let a = syn::Ident::new(&format!("{m}_args"), Span::call_site());
        let ps: Vec<_> = cl.inputs.iter().collect();
        let p: syn::Pat = match &ps[..] {
            [p] => (*p).clone(),
            _ => parse_quote!((#(#ps),*)),
        };
        Some(parse_quote!({ let #r = #recv; let #p = #r.#a(); let #v = #body; #r.#i(#v) }))
    }

    fn method(&mut self, c: &mut ExprMethodCall) -> Option<Expr> {
        let m = c.method.to_string();
        let recv = (*c.receiver).clone();
        let arg0 = c.args.first().cloned();
        // x.chars().count()
        if m == "count" && c.args.is_empty() {
            if let Expr::MethodCall(i) = &recv {
                if i.method == "chars" {
                    self.count("method");
                    let r = &i.receiver;
                    return Some(parse_quote!(#r.vchars_count()));
                }
            }
        }
        let args: Vec<Expr> = c.args.iter().cloned().collect();
        if self.cfg.samples.contains(&m) {
            if let [Expr::Closure(cl)] = &args[..] {
                if let Some(n) = self.sample(&m, &recv, cl) {
                    return Some(n);
                }
            }
        }
        if let Some(n) = self.functor(&m, &recv, &args) {
            return Some(n);
        }
        match (m.as_str(), arg0) {
            ("unwrap_or_else", Some(Expr::Closure(cl))) if !has_early_exit(&cl.body) => {
                self.count("closure");
                let b = &cl.body;
                let v = self.name("ok");
                match cl.inputs.len() {
                    1 => {
                        let p = &cl.inputs[0];
                        return Some(parse_quote!(match #recv { Ok(#v) => #v, Err(#p) => #b }));
                    }
                    0 => return Some(parse_quote!(match #recv { Some(#v) => #v, None => #b })),
                    _ => {}
                }
            }
            ("map_err", Some(f @ Expr::Path(_))) => {
                self.count("closure");
                return Some(parse_quote!(match #recv { Ok(vx_o) => Ok(vx_o), Err(vx_e) => Err(#f(vx_e)) }));
            }
            ("map_err", Some(Expr::Closure(cl))) if cl.inputs.len() == 1 && !has_early_exit(&cl.body) => {
                self.count("closure");
                let p = &cl.inputs[0];
                let b = &cl.body;
                return Some(parse_quote!(match #recv { Ok(vx_o) => Ok(vx_o), Err(#p) => Err(#b) }));
            }
            ("context", Some(_)) | ("with_context", Some(_)) => {
                self.count("err");
                return Some(parse_quote!(#recv.vcontext()));
            }
            ("position", Some(Expr::Closure(cl))) if cl.inputs.len() == 1 => {
                if let Some(n) = self.find(&recv, &cl) {
                    return Some(n);
                }
            }
            ("for_each", Some(Expr::Closure(cl))) if cl.inputs.len() == 1 => {
                self.count("closure");
                let mut body = (*cl.body).clone();
                RetToContinue.visit_expr_mut(&mut body);
                let pat = cl.inputs[0].clone();
                let ts = self.chain_loop(&recv, pat, quote!(#body));
                return syn::parse2(ts).ok();
            }
            ("any", Some(Expr::Closure(cl))) if cl.inputs.len() == 1 && Self::chainable(&recv) && !has_early_exit(&cl.body) => {
                self.count("closure");
                let b = self.name("any");
                let pat = cl.inputs[0].clone();
                let body = &cl.body;
                let ts = self.chain_loop(&recv, pat, quote!(if #body { #b = true; break; }));
                return syn::parse2(quote!({ let mut #b = false; #ts #b })).ok();
            }
            ("all", Some(Expr::Closure(cl))) if cl.inputs.len() == 1 && Self::chainable(&recv) && !has_early_exit(&cl.body) => {
                self.count("closure");
                let b = self.name("all");
                let pat = cl.inputs[0].clone();
                let body = &cl.body;
                let ts = self.chain_loop(&recv, pat, quote!(if !(#body) { #b = false; break; }));
                return syn::parse2(quote!({ let mut #b = true; #ts #b })).ok();
            }
            ("for_each", Some(Expr::Closure(cl))) if cl.inputs.len() == 1 && Self::chainable(&recv) && !has_early_exit(&cl.body) => {
                self.count("closure");
                let pat = cl.inputs[0].clone();
                let body = &cl.body;
                let ts = self.chain_loop(&recv, pat, quote!(#body;));
                return syn::parse2(quote!({ #ts })).ok();
            }
            ("collect", None) if Self::copied_keys(&recv).is_some() => {
                self.count("closure");
                return Self::copied_keys(&recv);
            }
            ("collect", None) if matches!(&recv, Expr::MethodCall(d) if d.method == "drain") => {
                self.count("method");
                return Some(recv);
            }
            ("collect", None) if Self::chainable(&recv) => {
                self.count("closure");
                let v = self.name("vec");
                let x = self.name("x");
                let xp: syn::Pat = parse_quote!(#x);
                let ts = self.chain_loop(&recv, xp, quote!(#v.push(#x);));
                return syn::parse2(quote!({ let mut #v = Vec::new(); #ts #v })).ok();
            }
            ("drain", Some(Expr::Range(r))) if r.start.is_none() && r.end.is_some() => {
                self.count("method");
                let e = r.end.as_ref().unwrap();
                return Some(parse_quote!(#recv.vdrain_to(#e)));
            }
            ("unwrap_or_default", None) if self.kind_of(&recv) == Some('R') => {
                self.count("method");
                return Some(parse_quote!(#recv.ok().unwrap_or_default()));
            }
            ("into", None) => {
                self.count("into");
                return Some(parse_quote!(#recv.vinto()));
            }
            ("try_into", None) => {
                self.count("into");
                return Some(parse_quote!(#recv.vtry_into()));
            }
            ("expect", Some(_)) if self.cfg.partial => {
                self.count("expect");
                return Some(parse_quote!(#recv.vexpect()));
            }
            ("expect", Some(_)) => {
                self.count("expect");
                return Some(parse_quote!(#recv.vunwrap()));
            }
            ("unwrap", None) if self.cfg.partial => {
                self.count("expect");
                return Some(parse_quote!(#recv.vexpect()));
            }
            ("unwrap", None) => {
                self.count("expect");
                return Some(parse_quote!(#recv.vunwrap()));
            }
            _ => {}
        }
        if let Some(to) = self.cfg.methods.get(&m) {
            self.count("method");
            c.method = syn::Ident::new(to, Span::call_site());
        }
        None
    }

    fn thread(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return };
                let mut s = p.path.to_token_stream().to_string().replace(' ', "");
                if let (Some(t), Some(r)) = (&self.cfg.self_ty, s.strip_prefix("Self::")) {
                    s = format!("{t}::{r}");
                }
                let last = s.rsplit("::").next().unwrap_or("").to_string();
                let module = s.strip_suffix(&format!("::{last}")).map(|m| m.chars().all(|c| c.is_lowercase() || c == '_' || c == ':')).unwrap_or(false);
                if self.cfg.threads.contains(&s) || module && self.cfg.threads.contains(&last) {
                    self.count("thread");
                    c.args.push(parse_quote!(vx_w));
                }
            }
            Expr::MethodCall(c) => {
                let own = c.receiver.to_token_stream().to_string() == "self"
                    && self.cfg.self_ty.as_ref().map(|t| self.cfg.threads.contains(&format!("{t}::{}", c.method))).unwrap_or(false);
                if own || self.cfg.threads.contains(&format!(".{}", c.method)) {
                    self.count("thread");
                    c.args.push(parse_quote!(vx_w));
                }
            }
            _ => {}
        }
    }

    fn conversion(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::Call(c) = e else { return None };
        let Expr::Path(p) = &*c.func else { return None };
        let n = p.path.segments.len();
        if c.args.len() != 1 || n < 2 || p.qself.is_some() {
            return None;
        }
        let s = p.path.to_token_stream().to_string().replace(' ', "");
        if self.cfg.paths.contains_key(&s) {
            return None;
        }
        let f = match p.path.segments[n - 1].ident.to_string().as_str() {
            "from" => quote!(vfrom),
            "try_from" => quote!(vtry_from),
            _ => return None,
        };
        let ty: Vec<_> = p.path.segments.iter().take(n - 1).collect();
        let a = &c.args[0];
        self.count("from");
        Some(parse_quote!(#f::<#(#ty)::*, _>(#a)))
    }

    fn find(&mut self, recv: &Expr, cl: &syn::ExprClosure) -> Option<Expr> {
        let Expr::MethodCall(w) = recv else { return None };
        if w.method != "windows" || w.args.len() != 1 {
            return None;
        }
        let syn::Pat::Ident(p) = &cl.inputs[0] else { return None };
        let Expr::Binary(b) = bare(&cl.body) else { return None };
        if !matches!(b.op, syn::BinOp::Eq(_)) {
            return None;
        }
        let is_p = |e: &Expr| matches!(bare(e), Expr::Path(q) if q.path.is_ident(&p.ident));
        let e = match (is_p(&b.left), is_p(&b.right)) {
            (true, false) => bare(&b.right),
            (false, true) => bare(&b.left),
            _ => return None,
        };
        self.count("find");
        let (x, n) = (bare(&w.receiver), &w.args[0]);
        Some(match x {
            Expr::Index(i) if matches!(&*i.index, Expr::Range(_)) => parse_quote!((&#x).vfind(#n, #e)),
            _ => parse_quote!(#x.vfind(#n, #e)),
        })
    }

    fn slice(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::Reference(r) = e else { return None };
        let Expr::Index(i) = &*r.expr else { return None };
        let Expr::Range(g) = &*i.index else { return None };
        if r.mutability.is_some() || matches!(g.limits, syn::RangeLimits::Closed(_)) {
            return None;
        }
        let x = &i.expr;
        let n = match (&g.start, &g.end) {
            (Some(a), None) => parse_quote!(#x.vslice_from(#a)),
            (None, Some(b)) => parse_quote!(#x.vslice_to(#b)),
            (Some(a), Some(b)) => parse_quote!(#x.vslice(#a, #b)),
            _ => return None,
        };
        self.count("slice");
        Some(n)
    }

    fn slice_pat(&mut self, e: &Expr) -> Option<Expr> {
        // `let PAT = EXPR` condition with slice patterns without bindings.
        let Expr::Let(l) = e else { return None };
        let pats: Vec<&syn::Pat> = match &*l.pat {
            syn::Pat::Or(o) => o.cases.iter().collect(),
            p => vec![p],
        };
        if !pats.iter().all(|p| matches!(p, syn::Pat::Slice(_))) {
            return None;
        }
        let x = &l.expr;
        let mut conds: Vec<TokenStream> = vec![];
        for p in pats {
            let syn::Pat::Slice(s) = p else { return None };
            let n = s.elems.len();
            if s.elems.iter().any(|e| matches!(e, syn::Pat::Rest(_))) {
                return None;
            }
            let mut c = quote!(#x.len() == #n);
            for (i, el) in s.elems.iter().enumerate() {
                if matches!(el, syn::Pat::Wild(_)) {
                    continue;
                }
                c = quote!(#c && (match &#x[#i] { #el => true, _ => false }));
            }
            conds.push(quote!((#c)));
        }
        self.count("slicepat");
        syn::parse2(quote!((#(#conds)||*))).ok()
    }
}

struct RetToContinue;
impl VisitMut for RetToContinue {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            if r.expr.is_none() {
                *e = parse_quote!(continue);
            }
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}

/// A block ending in `continue`, without it.
fn ends_in_continue(b: &syn::Block) -> Option<syn::Block> {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none() => {
            let mut b = b.clone();
            b.stmts.pop();
            Some(b)
        }
        _ => None,
    }
}

fn arm_continues(e: &Expr) -> Option<syn::Block> {
    match e {
        Expr::Continue(c) if c.label.is_none() => Some(parse_quote!({})),
        Expr::Block(b) => ends_in_continue(&b.block),
        _ => None,
    }
}

/// The statements of a loop body with `continue` on its top level written as the other branch.
fn no_continue(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    for (i, s) in stmts.iter().enumerate() {
        let rest = || {
            let r = &stmts[i + 1..];
            no_continue(r).unwrap_or_else(|| r.to_vec())
        };
        let new: Stmt = match s {
            Stmt::Expr(Expr::If(f), _) => match (ends_in_continue(&f.then_branch), &f.else_branch) {
                (Some(t), None) => {
                    let (c, r) = (&f.cond, rest());
                    parse_quote!(if #c #t else { #(#r)* })
                }
                (None, Some((_, e))) => match arm_continues(e) {
                    Some(t) => {
                        let (c, r, th) = (&f.cond, rest(), &f.then_branch.stmts);
                        parse_quote!(if #c { #(#th)* #(#r)* } else #t)
                    }
                    None => continue,
                },
                _ => continue,
            },
            Stmt::Local(l) => match &l.init {
                Some(syn::LocalInit { expr, diverge: Some((_, d)), .. }) => match arm_continues(d) {
                    Some(t) => {
                        let (p, r) = (&l.pat, rest());
                        parse_quote!(if let #p = #expr { #(#r)* } else #t)
                    }
                    None => continue,
                },
                Some(syn::LocalInit { expr, diverge: None, .. }) => match &**expr {
                    Expr::Match(m) => {
                        let on: Vec<_> = m.arms.iter().map(|a| arm_continues(&a.body)).collect();
                        if on.iter().filter(|x| x.is_none()).count() != 1 || on.len() < 2 {
                            continue;
                        }
                        let mut m = m.clone();
                        for (a, t) in m.arms.iter_mut().zip(on) {
                            match t {
                                Some(t) => a.body = Box::new(parse_quote!(#t)),
                                None => {
                                    let (b, p, r) = (&a.body, &l.pat, rest());
                                    a.body = Box::new(parse_quote!({ let #p = #b; #(#r)* }));
                                }
                            }
                        }
                        Stmt::Expr(Expr::Match(m), None)
                    }
                    _ => continue,
                },
                _ => continue,
            },
            _ => continue,
        };
        let mut v = stmts[..i].to_vec();
        v.push(new);
        return Some(v);
    }
    None
}

impl Rewriter<'_> {
    /// `m.keys().cloned()`: the keys are copied anyway.
    fn copied_keys(e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(c) = e else { return None };
        let Expr::MethodCall(k) = &*c.receiver else { return None };
        ((c.method == "cloned" || c.method == "copied") && k.method == "keys" && k.args.is_empty()).then(|| (*c.receiver).clone())
    }

    /// `a + "x" + b.as_str()` of strings.
    fn string_sum(&mut self, b: &syn::ExprBinary) -> Option<Expr> {
        fn parts(e: &Expr, out: &mut Vec<Expr>) {
            match e {
                Expr::Binary(b) if matches!(b.op, syn::BinOp::Add(_)) => {
                    parts(&b.left, out);
                    out.push((*b.right).clone());
                }
                _ => out.push(e.clone()),
            }
        }
        fn stringy(e: &Expr) -> bool {
            match e {
                Expr::Lit(l) => matches!(l.lit, syn::Lit::Str(_)),
                Expr::MethodCall(c) => c.method == "as_str",
                Expr::Macro(m) => m.mac.path.is_ident("format"),
                Expr::Reference(r) => stringy(&r.expr),
                _ => false,
            }
        }
        if !matches!(b.op, syn::BinOp::Add(_)) {
            return None;
        }
        let mut v = vec![];
        parts(&Expr::Binary(b.clone()), &mut v);
        if !v.iter().skip(1).any(stringy) {
            return None;
        }
        self.count("format");
        let mut it = v.into_iter();
        let mut n = it.next()?;
        for x in it {
            n = parse_quote!(vcat(#n, #x));
        }
        Some(n)
    }

    fn equality(&mut self, b: &syn::ExprBinary) -> Option<Expr> {
        let f: syn::Path = syn::parse_str(self.cfg.paths.get("==")?).ok()?;
        let plain = |e: &Expr| matches!(e, Expr::Lit(l) if !matches!(l.lit, syn::Lit::Str(_)));
        if plain(&b.left) || plain(&b.right) {
            return None;
        }
        let (l, r) = (&b.left, &b.right);
        let n: Expr = match b.op {
            syn::BinOp::Eq(_) => parse_quote!(#f(&(#l), &(#r))),
            syn::BinOp::Ne(_) => parse_quote!((!#f(&(#l), &(#r)))),
            _ => return None,
        };
        self.count("eq");
        Some(n)
    }
}

impl VisitMut for Rewriter<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // Macros first: their replacement is visited again.
        let mut guard = 0;
        while let Expr::Macro(m) = e {
            guard += 1;
            if guard > 4 {
                break;
            }
            self.value = true;
            let n = self.macro_expr(&m.mac.clone());
            self.value = false;
            match n {
                Some(n) => *e = n,
                None => break,
            }
        }
        if let Expr::ForLoop(f) = e {
            if let Some(b) = no_continue(&f.body.stmts) {
                self.count("continue");
                f.body.stmts = b;
            }
        }
        if let Expr::ForLoop(f) = e {
            if f.label.is_none() && Self::adapted(&f.expr) {
                let body = &f.body;
                let ts = self.chain_loop(&f.expr.clone(), (*f.pat).clone(), quote!(#body));
                if let Ok(n) = syn::parse2(ts) {
                    self.count("closure");
                    *e = n;
                }
            }
        }
        if let Expr::ForLoop(f) = e {
            if let Expr::MethodCall(c) = &*f.expr {
                if c.method == "values_mut" && c.args.is_empty() {
                    self.count("values_mut");
                    let (m, pat, body, lab) = (&c.receiver, &f.pat, &f.body, &f.label);
                    *e = parse_quote!(#lab for vx_k in #m.keys() { if let Some(vx_r) = #m.get_mut(&vx_k) { let #pat = vx_r; #body } });
                }
            }
        }
        if let Expr::If(i) = e {
            if let Some(n) = self.slice_pat(&i.cond) {
                *i.cond = n;
            }
        }
        // Replacements that need the closure argument must happen before descending.
        if let Expr::MethodCall(c) = e {
            if let Some(n) = self.method(c) {
                *e = n;
                self.visit_expr_mut(e);
                return;
            }
        }
        if let Expr::Await(a) = e {
            self.count("await");
            let b = (*a.base).clone();
            *e = b;
            self.visit_expr_mut(e);
            return;
        }
        if let Expr::Call(c) = e {
            let task: Option<syn::Block> = match (&*c.func, c.args.len(), c.args.first()) {
                (Expr::Path(p), 1, Some(a)) if p.path.segments.last().map(|x| x.ident == "spawn").unwrap_or(false) => match a {
                    Expr::Async(a) => Some(a.block.clone()),
                    Expr::Call(_) | Expr::MethodCall(_) => Some(parse_quote!({ #a; })),
                    _ => None,
                },
                _ => None,
            };
            // Running a future for a while, but not to its end.
            if let (Expr::Path(p), 2, Some(fut)) = (&*c.func, c.args.len(), c.args.last()) {
                if p.path.segments.last().map(|x| x.ident == "timeout").unwrap_or(false) && !matches!(fut, Expr::Path(_)) {
                    self.count("select");
                    let lost = if self.keeps(fut) { quote!() } else { quote!(vabandon(vx_w);) };
                    *e = parse_quote!(if vselect() { Ok(#fut) } else { #lost Err(anyhow_err()) });
                    self.visit_expr_mut(e);
                    return;
                }
            }
            // Running a future to its end in place.
            if let (Expr::Path(p), 1, Some(Expr::Async(a))) = (&*c.func, c.args.len(), c.args.first()) {
                if p.path.segments.last().map(|x| x.ident == "block_on").unwrap_or(false) {
                    self.count("task");
                    let b = &a.block;
                    *e = parse_quote!(#b);
                    self.visit_expr_mut(e);
                    return;
                }
            }
            {
                if let Some(b) = task {
                    self.count("task");
                    *e = if self.cfg.tasks_apart { parse_quote!(if vselect() #b) } else { parse_quote!(#b) };
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        self.thread(e);
        if let Some(n) = self.conversion(e) {
            *e = n;
        }
        if let Some(n) = self.slice(e) {
            *e = n;
        }
        if let Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) = e {
            if let Ok(t) = String::from_utf8(b.value()) {
                if t.is_ascii() && !t.is_empty() {
                    self.count("bytes");
                    *e = parse_quote!(vbytes_lit(#t));
                }
            }
        }
        if let Expr::Binary(b) = e {
            if let Some(n) = self.string_sum(b) {
                *e = n;
            }
        }
        if let Expr::Binary(b) = e {
            if let Some(n) = self.equality(b) {
                *e = n;
            }
        }
        if let Expr::Path(p) = e {
            let s = p.path.to_token_stream().to_string().replace(' ', "");
            if let Some(to) = self.cfg.paths.get(&s) {
                self.count("method");
                if let Ok(n) = syn::parse_str::<Expr>(to) {
                    *e = n;
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        let called = match s {
            Stmt::Expr(Expr::Call(c), Some(_)) => Some(&*c.func),
            Stmt::Local(syn::Local { init: Some(i), .. }) => match &*i.expr {
                Expr::Call(c) => Some(&*c.func),
                _ => None,
            },
            _ => None,
        };
        if called.map(|f| self.cfg.skips.contains(&f.to_token_stream().to_string().replace(' ', ""))).unwrap_or(false) {
            self.count("skip");
            *s = parse_quote!({});
            return;
        }
        if let Stmt::Macro(m) = s {
            let semi = m.semi_token;
            let diverges = matches!(mac_name(&m.mac).as_str(), "panic" | "unreachable" | "todo" | "unimplemented");
            if diverges && semi.is_some() {
                // As a statement it has no type of its own.
                let n = self.panic_expr();
                *s = Stmt::Expr(parse_quote!(return #n), semi);
            } else if let Some(n) = self.macro_expr(&m.mac.clone()) {
                *s = if semi.is_some() || !matches!(n, Expr::Call(_)) {
                    Stmt::Expr(n, Some(Default::default()))
                } else {
                    Stmt::Expr(n, None)
                };
            }
        }
        if let Stmt::Expr(Expr::Assign(a), _) = s {
            if let Expr::Tuple(t) = &*a.left {
                self.count("destruct");
                let names: Vec<syn::Ident> = t.elems.iter().map(|_| self.name("t")).collect();
                let lhs: Vec<&Expr> = t.elems.iter().collect();
                let rhs = &a.right;
                let n: Expr = parse_quote!({ let (#(#names),*) = #rhs; #(#lhs = #names;)* });
                *s = Stmt::Expr(n, None);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }

    fn visit_item_mut(&mut self, it: &mut syn::Item) {
        visit_mut::visit_item_mut(self, it);
    }
}

/// Replaces calls of functions without contract (same file) by their bodies.
pub struct Inliner<'a> {
    pub cands: &'a BTreeMap<String, crate::find::FoundFn>,
    pub self_ty: Option<String>,
    pub count: usize,
    pub depth: usize,
    pub inlined: Vec<String>,
    /// Helpers that could not be inlined.
    pub blocked: Vec<String>,
}

/// `let f = call(..);` with `f` given to a `select!` afterwards: nothing happens before the `select!`.
/// Puts the call there; false if it is polled in a loop, which cannot be expressed.
pub fn futures_in_place(block: &mut syn::Block) -> bool {
    fn mentions(t: TokenStream, x: &syn::Ident) -> usize {
        t.into_iter()
            .map(|t| match t {
                proc_macro2::TokenTree::Ident(i) => (i == *x) as usize,
                proc_macro2::TokenTree::Group(g) => mentions(g.stream(), x),
                _ => 0,
            })
            .sum()
    }
    /// In the `select!`s: `= x =>` and `= &mut x =>`.
    fn put(t: TokenStream, x: &syn::Ident, by: &TokenStream, inside: bool, done: &mut bool) -> TokenStream {
        let v: Vec<proc_macro2::TokenTree> = t.into_iter().collect();
        let punct = |i: usize, c: char| matches!(v.get(i), Some(proc_macro2::TokenTree::Punct(p)) if p.as_char() == c);
        let name = |i: usize, n: &str| matches!(v.get(i), Some(proc_macro2::TokenTree::Ident(p)) if *p == n);
        let (mut out, mut i) = (TokenStream::new(), 0);
        while i < v.len() {
            let j = if inside && punct(i, '&') && name(i + 1, "mut") { i + 2 } else { i };
            if inside && i > 0 && punct(i - 1, '=') && name(j, &x.to_string()) && punct(j + 1, '=') && punct(j + 2, '>') {
                out.extend(by.clone());
                *done = true;
                i = j + 1;
                continue;
            }
            match &v[i] {
                proc_macro2::TokenTree::Group(g) => {
                    let select = i > 1 && punct(i - 1, '!') && name(i - 2, "select");
                    let n = proc_macro2::Group::new(g.delimiter(), put(g.stream(), x, by, select, done));
                    out.extend(TokenStream::from(proc_macro2::TokenTree::Group(n)));
                }
                t => out.extend(TokenStream::from(t.clone())),
            }
            i += 1;
        }
        out
    }
    struct Inner(bool);
    impl VisitMut for Inner {
        fn visit_block_mut(&mut self, b: &mut syn::Block) {
            self.0 &= futures_in_place(b);
        }
    }
    let mut ok = true;
    let mut i = 0;
    while i < block.stmts.len() {
        let found = match &block.stmts[i] {
            Stmt::Local(l) => match (&l.pat, &l.init) {
                (syn::Pat::Ident(p), Some(init)) if init.diverge.is_none() && matches!(*init.expr, Expr::Call(_) | Expr::MethodCall(_) | Expr::Async(_)) => {
                    Some((p.ident.clone(), init.expr.to_token_stream()))
                }
                _ => None,
            },
            _ => None,
        };
        if let Some((x, by)) = found {
            let rest: Vec<Stmt> = block.stmts[i + 1..].to_vec();
            let at: Vec<usize> = (0..rest.len()).filter(|k| mentions(rest[*k].to_token_stream(), &x) > 0).collect();
            let mut done = false;
            let new: Vec<TokenStream> = rest.iter().map(|s| put(s.to_token_stream(), &x, &by, false, &mut done)).collect();
            if done {
                // `pin!(x)` does not matter.
                let real: Vec<usize> = at
                    .iter()
                    .cloned()
                    .filter(|k| !matches!(&rest[*k], Stmt::Macro(m) if m.mac.path.segments.last().map(|s| s.ident == "pin").unwrap_or(false)))
                    .collect();
                let once = real.len() == 1 && mentions(rest[real[0]].to_token_stream(), &x) == 1;
                let looped = real.iter().any(|k| {
                    let t = rest[*k].to_token_stream();
                    ["loop", "while", "for"].iter().any(|w| mentions(t.clone(), &proc_macro2::Ident::new(w, Span::call_site())) > 0)
                });
                let parsed: Option<Vec<Stmt>> = match once && !looped {
                    true => (|| {
                        let mut out = vec![];
                        for (k, t) in new.into_iter().enumerate() {
                            if at.contains(&k) && !real.contains(&k) {
                                continue;
                            }
                            let b: syn::Block = syn::parse2(quote!({ #t })).ok()?;
                            out.extend(b.stmts);
                        }
                        Some(out)
                    })(),
                    false => None,
                };
                match parsed {
                    Some(stmts) => {
                        block.stmts.truncate(i);
                        block.stmts.extend(stmts);
                        continue;
                    }
                    None => ok = false,
                }
            }
        }
        i += 1;
    }
    let mut inner = Inner(true);
    visit_mut::visit_block_mut(&mut inner, block);
    ok && inner.0
}

/// A nested function that the inliner can always replace.
pub fn never_returns_early(f: &syn::ItemFn) -> bool {
    !block_early_exit(&f.block) || crate::exits::straighten(&f.sig, &f.block).is_some()
}

/// Replaces `Self`.
fn no_self(t: TokenStream, by: &TokenStream) -> TokenStream {
    t.into_iter()
        .flat_map(|x| match x {
            proc_macro2::TokenTree::Ident(i) if i == "Self" => by.clone(),
            proc_macro2::TokenTree::Group(g) => {
                let n = proc_macro2::Group::new(g.delimiter(), no_self(g.stream(), by));
                proc_macro2::TokenTree::Group(n).into()
            }
            x => x.into(),
        })
        .collect()
}

impl Inliner<'_> {
    /// The arguments of a macro that takes a list of expressions.
    fn arguments(&mut self, m: &mut syn::Macro) {
        let n = mac_name(m);
        if !matches!(n.as_str(), "vec" | "assert" | "assert_eq" | "format" | "debug_assert" | "debug_assert_eq") {
            return;
        }
        let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
        if let Ok(mut args) = syn::parse::Parser::parse2(parser, m.tokens.clone()) {
            let before = self.count;
            args.iter_mut().for_each(|a| self.visit_expr_mut(a));
            if self.count > before {
                m.tokens = args.to_token_stream();
            }
        }
    }

    fn bind(&self, f: &crate::find::FoundFn, recv: Option<&Expr>, args: &[Expr]) -> Option<Expr> {
        let mut block = f.block.clone();
        let mut sig = f.sig.clone();
        if let Some((_, t, _)) = &f.imp {
            if Some(crate::contracts::norm(&t.to_token_stream().to_string())) != self.self_ty {
                // `Self` means something else where the body goes.
                let t = t.to_token_stream();
                block = syn::parse2(no_self(block.to_token_stream(), &t)).ok()?;
                sig = syn::parse2(no_self(sig.to_token_stream(), &t)).ok()?;
            }
        }
        if block_early_exit(&block) {
            block = crate::exits::straighten(&sig, &block)?;
            if let syn::ReturnType::Type(_, t) = &sig.output {
                let ty = t.to_token_stream().to_string();
                let stmts = &block.stmts;
                if !ty.contains('\'') && !ty.contains("impl ") && f.sig.generics.params.is_empty() {
                    block = parse_quote!({ let vx_ret: #t = { #(#stmts)* }; vx_ret });
                }
            }
        }
        let mut pats: Vec<TokenStream> = vec![];
        let mut vals: Vec<TokenStream> = vec![];
        let mut k = 0;
        for inp in &f.sig.inputs {
            match inp {
                syn::FnArg::Receiver(_) => {
                    let r = recv?;
                    if r.to_token_stream().to_string() != "self" {
                        return None;
                    }
                }
                syn::FnArg::Typed(t) => {
                    let p = &t.pat;
                    let a = args.get(k)?;
                    k += 1;
                    pats.push(quote!(#p));
                    vals.push(quote!(#a));
                }
            }
        }
        if k != args.len() {
            return None;
        }
        let stmts = &block.stmts;
        let b = match pats.len() {
            0 => quote!({ #(#stmts)* }),
            1 => {
                let (p, v) = (&pats[0], &vals[0]);
                quote!({ let #p = #v; #(#stmts)* })
            }
            _ => quote!({ let (#(#pats),*) = (#(#vals),*); #(#stmts)* }),
        };
        syn::parse2(b).ok()
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_stmt_macro_mut(&mut self, m: &mut syn::StmtMacro) {
        self.arguments(&mut m.mac);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `x.map_err(f)` is `x.map_err(|e| f(e))`.
        if let Expr::MethodCall(c) = e {
            for a in c.args.iter_mut() {
                let Expr::Path(p) = a else { continue };
                let s = p.path.to_token_stream().to_string().replace(' ', "");
                if self.cands.get(&s).map(|f| f.sig.inputs.len() == 1).unwrap_or(false) {
                    *a = parse_quote!(|vx_a| #p(vx_a));
                }
            }
        }
        if let Expr::Macro(m) = e {
            self.arguments(&mut m.mac);
        }
        visit_mut::visit_expr_mut(self, e);
        if self.depth > 6 {
            return;
        }
        let rep = match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let mut s = p.path.to_token_stream().to_string().replace(' ', "");
                    if let Some(t) = &self.self_ty {
                        if let Some(r) = s.strip_prefix("Self::") {
                            s = format!("{t}::{r}");
                        }
                    }
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    match self.cands.get(&s) {
                        Some(f) => {
                            let b = self.bind(f, args.first(), &args);
                            if b.is_none() {
                                self.blocked.push(s.clone());
                            }
                            b.map(|x| (s.clone(), x))
                        }
                        None => None,
                    }
                } else {
                    None
                }
            }
            Expr::MethodCall(c) => {
                if c.receiver.to_token_stream().to_string() == "self" {
                    if let Some(t) = &self.self_ty {
                        let s = format!("{t}::{}", c.method);
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        match self.cands.get(&s) {
                            Some(f) => {
                                let b = self.bind(f, Some(&c.receiver), &args);
                                if b.is_none() {
                                    self.blocked.push(s.clone());
                                }
                                b.map(|x| (s.clone(), x))
                            }
                            None => None,
                        }
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some((name, mut n)) = rep {
            self.count += 1;
            self.inlined.push(name);
            self.depth += 1;
            self.visit_expr_mut(&mut n);
            self.depth -= 1;
            *e = n;
        }
    }
}
