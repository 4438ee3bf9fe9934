// Basic shims. Everything marked external_body or assume_specification is trusted.
pub use vstd::std_specs::iter::*;
pub use std::collections::{HashMap, HashSet, VecDeque};

/// Stands for panic!, unreachable!, todo!: must not be reachable.
#[verifier::external_body]
pub fn vpanic<T>() -> (r: T)
    requires false,
{ unimplemented!() }

/// Ends the path (functions marked `partial` only): nothing is claimed when the real code panics.
#[verifier::external_body]
pub fn vdiverge<T>() -> (r: T)
    ensures false,
{ unimplemented!() }

/// Assumption: revisions stay below 2^64 - 1; nothing is claimed about longer histories.
pub fn vcounter(n: usize)
    ensures n < usize::MAX,
{ if n == usize::MAX { vdiverge() } }

pub fn vassert(b: bool)
    requires b,
{ }

pub mod anyhow_shim {
    use super::*;
    #[verifier::external_body]
    pub struct Error { e: u8 }
}
pub use anyhow_shim::Error as AnyhowError;

#[verifier::external_body]
pub fn anyhow_err() -> (r: AnyhowError)
{ unimplemented!() }

pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](x: Result<T, E>, d: T) -> (r: T)
    where T: core::marker::Destruct, E: core::marker::Destruct
    ensures r == (match x { Ok(v) => v, Err(_) => d });

pub assume_specification<T>[ Option::<T>::or ](x: Option<T>, d: Option<T>) -> (r: Option<T>)
    where T: core::marker::Destruct
    ensures r == (if x is Some { x } else { d });

/// `.context(..)`/`.with_context(..)`: only the error text changes.
pub trait VContext<T>: Sized {
    spec fn ctx_ok(self) -> Option<T>;
    fn vcontext(self) -> (r: Result<T, AnyhowError>)
        ensures
            r is Ok <==> self.ctx_ok() is Some,
            r is Ok ==> Some(r->Ok_0) == self.ctx_ok();
}

impl<T, E> VContext<T> for Result<T, E> {
    open spec fn ctx_ok(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn vcontext(self) -> (r: Result<T, AnyhowError>)
    { match self { Ok(v) => Ok(v), Err(_) => Err(anyhow_err()) } }
}

impl<T> VContext<T> for Option<T> {
    open spec fn ctx_ok(self) -> Option<T> { self }
    fn vcontext(self) -> (r: Result<T, AnyhowError>)
    { match self { Some(v) => Ok(v), None => Err(anyhow_err()) } }
}

/// `.expect(..)`/`.unwrap()` in `partial` functions.
pub trait VExpect<T>: Sized {
    spec fn exp(self) -> Option<T>;
    fn vexpect(self) -> (r: T)
        ensures self.exp() == Some(r);
    fn vunwrap(self) -> (r: T)
        requires self.exp() is Some,
        ensures self.exp() == Some(r);
}

impl<T, E> VExpect<T> for Result<T, E> {
    open spec fn exp(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn vexpect(self) -> (r: T) { match self { Ok(v) => v, Err(_) => vdiverge() } }
    fn vunwrap(self) -> (r: T) { match self { Ok(v) => v, Err(_) => vpanic() } }
}

impl<T> VExpect<T> for Option<T> {
    open spec fn exp(self) -> Option<T> { self }
    fn vexpect(self) -> (r: T) { match self { Some(v) => v, None => vdiverge() } }
    fn vunwrap(self) -> (r: T) { match self { Some(v) => v, None => vpanic() } }
}

/// `.into()`: the real conversion's body is emitted as an implementation of this trait.
pub trait VInto<B>: Sized {
    spec fn vinto_req(self) -> bool;
    spec fn vinto_ens(self, r: B) -> bool;
    fn vinto(self) -> (r: B)
        requires self.vinto_req(),
        ensures self.vinto_ens(r);
}

pub trait VTryInto<B>: Sized {
    spec fn vtry_into_req(self) -> bool;
    spec fn vtry_into_ens(self, r: Result<B, AnyhowError>) -> bool;
    fn vtry_into(self) -> (r: Result<B, AnyhowError>)
        requires self.vtry_into_req(),
        ensures self.vtry_into_ens(r);
}

/// `.chars().count()`.
pub trait VChars {
    spec fn vtext(&self) -> Seq<char>;
    fn vchars_count(&self) -> (r: usize)
        ensures r == self.vtext().len();
}

impl VChars for str {
    open spec fn vtext(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vchars_count(&self) -> (r: usize) { unimplemented!() }
}

impl VChars for String {
    open spec fn vtext(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vchars_count(&self) -> (r: usize) { unimplemented!() }
}

/// `.drain(..n)` used as an iterator that is consumed completely.
pub trait VDrain<T>: Sized {
    spec fn vitems(&self) -> Seq<T>;
    fn vdrain_to(&mut self, n: usize) -> (r: Vec<T>)
        requires n <= old(self).vitems().len(),
        ensures
            r@ == old(self).vitems().take(n as int),
            final(self).vitems() == old(self).vitems().skip(n as int);
}

impl<T> VDrain<T> for Vec<T> {
    open spec fn vitems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vdrain_to(&mut self, n: usize) -> (r: Vec<T>) { unimplemented!() }
}

/// How `?` turns one error into another.
pub trait VFrom<T> {
    fn vx_from(self) -> (r: T);
}
impl VFrom<AnyhowError> for AnyhowError {
    fn vx_from(self) -> (r: AnyhowError) { self }
}

/// The digits of a number.
pub uninterp spec fn decimal(n: int) -> Seq<char>;

pub mod seqlem {
    use vstd::prelude::*;
    pub broadcast proof fn lemma_take_all<T>(s: Seq<T>, n: int)
        requires n == s.len(),
        ensures #[trigger] s.take(n) == s,
    {
        assert(s.take(n) =~= s);
    }
    pub broadcast proof fn lemma_push_drop<T>(s: Seq<T>, x: T)
        ensures #[trigger] s.push(x).drop_last() == s,
    {
        assert(s.push(x).drop_last() =~= s);
    }
    /// `to_string` of a `String` copies it.
    pub broadcast axiom fn axiom_string_to_string(t: &String, s: String)
        ensures #[trigger] vstd::string::to_string_from_display_ensures::<String>(t, s) <==> t@ == s@;
    pub broadcast axiom fn axiom_usize_to_string(t: &usize, s: String)
        ensures #[trigger] vstd::string::to_string_from_display_ensures::<usize>(t, s) <==> s@ == super::decimal(*t as int);
    pub broadcast proof fn lemma_take_next<T>(s: Seq<T>, i: int)
        requires 0 <= i < s.len(),
        ensures #[trigger] s.take(i + 1) == s.take(i).push(s[i]),
    {
        assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    }
    pub broadcast proof fn lemma_map_push<T, U>(s: Seq<T>, f: spec_fn(T) -> U, x: T)
        ensures #[trigger] s.push(x).map_values(f) == s.map_values(f).push(f(x)),
    {
        assert(s.push(x).map_values(f) =~= s.map_values(f).push(f(x)));
    }
    pub broadcast proof fn lemma_push_set<T>(s: Seq<T>, x: T)
        ensures #[trigger] s.push(x).to_set() == s.to_set().insert(x),
    {
        let (a, b) = (s.push(x).to_set(), s.to_set().insert(x));
        assert forall|y: T| #[trigger] b.contains(y) implies a.contains(y) by {
            if s.contains(y) {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == y;
                assert(s.push(x)[i] == y);
            } else {
                assert(s.push(x)[s.len() as int] == y);
            }
        }
        assert forall|y: T| #[trigger] a.contains(y) implies b.contains(y) by {
            let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == y;
            if i < s.len() { assert(s[i] == y); }
        }
        assert(a =~= b);
    }
    pub broadcast group group_seq { lemma_push_set, lemma_take_all, lemma_take_next, lemma_map_push, lemma_push_drop, axiom_string_to_string, axiom_usize_to_string }
}

/// `B::from(a)` and `B::try_from(a)`.
pub fn vfrom<B, A: VInto<B>>(a: A) -> (r: B)
    requires a.vinto_req(),
    ensures a.vinto_ens(r),
{ a.vinto() }

pub fn vtry_from<B, A: VTryInto<B>>(a: A) -> (r: Result<B, AnyhowError>)
    requires a.vtry_into_req(),
    ensures a.vtry_into_ens(r),
{ a.vtry_into() }

/// format!: literal parts and displayed arguments, concatenated.
pub trait VDisplay {
    spec fn vshown(&self) -> Seq<char>;
    fn vshow(&self) -> (r: String)
        ensures r@ == self.vshown();
}

#[verifier::external_body]
pub fn vstr_new() -> (r: String)
    ensures r@ == Seq::<char>::empty(),
{ String::new() }

#[verifier::external_body]
pub fn vformat() -> (r: String)
{ String::new() }

#[verifier::external_body]
pub fn vcat(a: String, b: &str) -> (r: String)
    ensures r@ == a@ + b@,
{ a + b }

pub fn vcat_disp<T: VDisplay>(a: String, b: &T) -> (r: String)
    ensures r@ == a@ + b.vshown(),
{ vcat(a, b.vshow().as_str()) }

impl VDisplay for AnyhowError {
    uninterp spec fn vshown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vshow(&self) -> (r: String) { unimplemented!() }
}

impl VDisplay for String {
    open spec fn vshown(&self) -> Seq<char> { self@ }
    fn vshow(&self) -> (r: String) { self.clone() }
}

impl VDisplay for usize {
    open spec fn vshown(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body]
    fn vshow(&self) -> (r: String) { self.to_string() }
}

impl VDisplay for &str {
    open spec fn vshown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vshow(&self) -> (r: String) { self.to_string() }
}

/// `.starts_with(..)` of strings and paths.
pub trait VStartsWith<P> {
    spec fn vstarts(&self, p: P) -> bool;
    fn vstarts_with(&self, p: P) -> (r: bool)
        ensures r == self.vstarts(p);
}

impl VStartsWith<&str> for str {
    open spec fn vstarts(&self, p: &str) -> bool { p@.is_prefix_of(self@) }
    #[verifier::external_body]
    fn vstarts_with(&self, p: &str) -> (r: bool) { self.starts_with(p) }
}

impl VStartsWith<&str> for String {
    open spec fn vstarts(&self, p: &str) -> bool { p@.is_prefix_of(self@) }
    #[verifier::external_body]
    fn vstarts_with(&self, p: &str) -> (r: bool) { self.starts_with(p) }
}

pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }

/// `&s[n..]` of a string, where everything before `n` is ASCII (so bytes are characters).
pub trait VStrSlice {
    spec fn stext(&self) -> Seq<char>;
    fn vslice_from(&self, n: usize) -> (r: &str)
        requires n <= self.stext().len(), ascii(self.stext().take(n as int)),
        ensures r@ == self.stext().skip(n as int);
}

impl VStrSlice for String {
    open spec fn stext(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vslice_from(&self, n: usize) -> (r: &str) { &self[n..] }
}

/// `&v[..n]` of a vector.
pub trait VVecSlice<T> {
    spec fn elements(&self) -> Seq<T>;
    fn vslice_to(&self, n: usize) -> (r: &[T])
        requires n <= self.elements().len(),
        ensures r@ == self.elements().take(n as int);
}

impl<T> VVecSlice<T> for Vec<T> {
    open spec fn elements(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vslice_to(&self, n: usize) -> (r: &[T]) { &self[..n] }
}

pub open spec fn ascii_bytes(t: Seq<char>) -> Seq<u8> { t.map_values(|c: char| c as u8) }

#[verifier::external_body]
pub fn vbytes_lit(t: &'static str) -> (r: &'static [u8])
    ensures r@ == ascii_bytes(t@), r@ == utf8(t@),
{ unimplemented!() }

pub uninterp spec fn utf8(t: Seq<char>) -> Seq<u8>;
