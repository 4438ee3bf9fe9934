// Functions of the standard library that the code under contract does not use today. Their contracts
// say little, but what they say holds: a change that brings one of them in can be judged.
pub uninterp spec fn byte_count(t: Seq<char>) -> nat;
pub uninterp spec fn pattern_text<P>(p: P) -> Seq<char>;

pub broadcast axiom fn axiom_byte_count(t: Seq<char>)
    ensures #[trigger] byte_count(t) >= t.len(), byte_count(t) <= 4 * t.len();

pub broadcast axiom fn axiom_pattern_str(s: &str)
    ensures #[trigger] pattern_text::<&str>(s) == s@;

pub broadcast axiom fn axiom_pattern_char(c: char)
    ensures #[trigger] pattern_text::<char>(c) == seq![c];

pub mod stdmore {
    use super::*;
    pub broadcast group group_stdmore { axiom_byte_count, axiom_pattern_str, axiom_pattern_char }
}

pub open spec fn part_of(r: Seq<char>, t: Seq<char>) -> bool {
    exists|i: int, n: int| 0 <= i <= n <= t.len() && r == #[trigger] t.subrange(i, n)
}

#[verifier::external_trait_specification]
pub trait ExPattern: Sized { type ExternalTraitSpecificationFor: core::str::pattern::Pattern; }

pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures r == byte_count(s@);
pub assume_specification[ str::trim ](s: &str) -> (r: &str) ensures part_of(r@, s@);
pub assume_specification[ str::trim_end ](s: &str) -> (r: &str) ensures r@.is_prefix_of(s@);
pub assume_specification[ str::trim_start ](s: &str) -> (r: &str) ensures r@.is_suffix_of(s@);
pub assume_specification[ str::to_lowercase ](s: &str) -> (r: String);
pub assume_specification[ str::to_uppercase ](s: &str) -> (r: String);
pub assume_specification[ str::to_ascii_lowercase ](s: &str) -> (r: String) ensures r@.len() == s@.len();
pub assume_specification[ str::to_ascii_uppercase ](s: &str) -> (r: String) ensures r@.len() == s@.len();
pub assume_specification[ str::eq_ignore_ascii_case ](s: &str, t: &str) -> (r: bool) ensures s@ == t@ ==> r;
pub assume_specification<P: core::str::pattern::Pattern>[ str::contains::<P> ](s: &str, p: P) -> (r: bool)
    ensures pattern_text(p).is_prefix_of(s@) ==> r;
pub assume_specification<P: core::str::pattern::Pattern>[ str::starts_with::<P> ](s: &str, p: P) -> (r: bool)
    ensures r == pattern_text(p).is_prefix_of(s@);
pub assume_specification<P: core::str::pattern::Pattern>[ str::ends_with::<P> ](s: &str, p: P) -> (r: bool)
    where for<'b> P::Searcher<'b>: core::str::pattern::ReverseSearcher<'b>
    ensures r == pattern_text(p).is_suffix_of(s@);
pub assume_specification<'a, P: core::str::pattern::Pattern>[ str::strip_prefix::<P> ](s: &'a str, p: P) -> (r: Option<&'a str>)
    ensures
        r is Some <==> pattern_text(p).is_prefix_of(s@),
        r is Some ==> s@ == pattern_text(p) + r->0@;
pub assume_specification<'a, P: core::str::pattern::Pattern>[ str::strip_suffix::<P> ](s: &'a str, p: P) -> (r: Option<&'a str>)
    where for<'b> P::Searcher<'b>: core::str::pattern::ReverseSearcher<'b>
    ensures
        r is Some <==> pattern_text(p).is_suffix_of(s@),
        r is Some ==> s@ == r->0@ + pattern_text(p);
pub assume_specification<'a, P: core::str::pattern::Pattern>[ str::trim_start_matches::<P> ](s: &'a str, p: P) -> (r: &'a str)
    ensures r@.is_suffix_of(s@);
pub assume_specification<'a, P: core::str::pattern::Pattern>[ str::trim_end_matches::<P> ](s: &'a str, p: P) -> (r: &'a str)
    where for<'b> P::Searcher<'b>: core::str::pattern::ReverseSearcher<'b>
    ensures r@.is_prefix_of(s@);
pub assume_specification<P: core::str::pattern::Pattern>[ str::find::<P> ](s: &str, p: P) -> (r: Option<usize>)
    ensures r is Some ==> r->0 <= byte_count(s@);
pub assume_specification<P: core::str::pattern::Pattern>[ str::replace::<P> ](s: &str, p: P, t: &str) -> (r: String);

// Whatever the order or the condition.
pub open spec fn all_from<T>(a: Seq<T>, b: Seq<T>) -> bool {
    a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i])
}
pub trait VSome<T> {
    spec fn seen(&self) -> Seq<T>;
    fn vdedup(&mut self) ensures all_from(final(self).seen(), old(self).seen());
    fn vsort_by_key<K, F: FnMut(&T) -> K>(&mut self, f: F) ensures final(self).seen().to_multiset() == old(self).seen().to_multiset();
    fn vsort_by<F: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
        ensures final(self).seen().to_multiset() == old(self).seen().to_multiset();
}
impl<T> VSome<T> for Vec<T> {
    open spec fn seen(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vdedup(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn vsort_by_key<K, F: FnMut(&T) -> K>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn vsort_by<F: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
}
pub assume_specification<T: Ord>[ <[T]>::sort ](v: &mut [T]) ensures final(v)@.to_multiset() == old(v)@.to_multiset();
pub assume_specification<T>[ <[T]>::reverse ](v: &mut [T]) ensures final(v)@ == old(v)@.reverse();
pub assume_specification<T>[ core::mem::replace ](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub assume_specification<T: Ord + core::marker::Destruct>[ core::cmp::min ](a: T, b: T) -> (r: T) ensures r == a || r == b;
pub assume_specification<T: Ord + core::marker::Destruct>[ core::cmp::max ](a: T, b: T) -> (r: T) ensures r == a || r == b;
pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize) ensures r == if a < b { b - a } else { a - b };
