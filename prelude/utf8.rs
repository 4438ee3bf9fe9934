// UTF-8, only as far as decoding undoes encoding.
#[verifier::external_body]
pub struct Utf8Error { e: u8 }
pub uninterp spec fn utf8_text(b: Seq<u8>) -> Option<Seq<char>>;

pub broadcast axiom fn axiom_utf8(t: Seq<char>)
    ensures utf8_text(#[trigger] utf8(t)) == Some(t);

pub broadcast axiom fn axiom_utf8_back(b: Seq<u8>)
    ensures (#[trigger] utf8_text(b)) is Some ==> utf8(utf8_text(b)->0) == b;

pub broadcast axiom fn axiom_utf8_empty()
    ensures #[trigger] utf8(Seq::<char>::empty()) == Seq::<u8>::empty();

#[verifier::external_body]
pub fn string_from_utf8(b: Vec<u8>) -> (r: Result<String, Utf8Error>)
    ensures
        r is Ok <==> utf8_text(b@) is Some,
        r is Ok ==> Some((r->Ok_0)@) == utf8_text(b@),
{ unimplemented!() }

pub trait VIntoBytes: Sized {
    spec fn btext(self) -> Seq<char>;
    fn vinto_bytes(self) -> (r: Vec<u8>)
        ensures r@ == utf8(self.btext());
}
impl VIntoBytes for String {
    open spec fn btext(self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vinto_bytes(self) -> (r: Vec<u8>) { unimplemented!() }
}

pub trait VAsBytes {
    spec fn astext(&self) -> Seq<char>;
    fn vas_bytes(&self) -> (r: &[u8])
        ensures r@ == utf8(self.astext());
}
impl VAsBytes for String {
    open spec fn astext(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vas_bytes(&self) -> (r: &[u8]) { unimplemented!() }
}
impl VAsBytes for str {
    open spec fn astext(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vas_bytes(&self) -> (r: &[u8]) { unimplemented!() }
}

pub mod utf8lem {
    pub use super::{axiom_utf8, axiom_utf8_back, axiom_utf8_empty};
    use super::*;
    pub broadcast group group_utf8 { axiom_utf8, axiom_utf8_back, axiom_utf8_empty }
}
