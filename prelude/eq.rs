// `==`, for the types it is used on.
pub trait VEq<B: ?Sized> {
    spec fn eq_to(&self, b: &B) -> bool;
    fn veq_(&self, b: &B) -> (r: bool) ensures r == self.eq_to(b);
}
pub fn veq<A: ?Sized + VEq<B>, B: ?Sized>(a: &A, b: &B) -> (r: bool)
    ensures r == a.eq_to(b),
{ a.veq_(b) }

impl VEq<usize> for usize {
    open spec fn eq_to(&self, b: &usize) -> bool { *self == *b }
    fn veq_(&self, b: &usize) -> (r: bool) { *self == *b }
}
impl VEq<bool> for bool {
    open spec fn eq_to(&self, b: &bool) -> bool { *self == *b }
    fn veq_(&self, b: &bool) -> (r: bool) { *self == *b }
}
impl VEq<str> for str {
    open spec fn eq_to(&self, b: &str) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn veq_(&self, b: &str) -> (r: bool) { unimplemented!() }
}
impl VEq<String> for String {
    open spec fn eq_to(&self, b: &String) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn veq_(&self, b: &String) -> (r: bool) { unimplemented!() }
}
impl VEq<str> for String {
    open spec fn eq_to(&self, b: &str) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn veq_(&self, b: &str) -> (r: bool) { unimplemented!() }
}
impl VEq<String> for str {
    open spec fn eq_to(&self, b: &String) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn veq_(&self, b: &String) -> (r: bool) { unimplemented!() }
}
impl<'a> VEq<&'a str> for String {
    open spec fn eq_to(&self, b: &&'a str) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn veq_(&self, b: &&'a str) -> (r: bool) { unimplemented!() }
}
impl<'a> VEq<String> for &'a str {
    open spec fn eq_to(&self, b: &String) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn veq_(&self, b: &String) -> (r: bool) { unimplemented!() }
}
impl<'a, 'b, A: ?Sized + VEq<B>, B: ?Sized> VEq<&'b B> for &'a A {
    open spec fn eq_to(&self, b: &&'b B) -> bool { (**self).eq_to(*b) }
    fn veq_(&self, b: &&'b B) -> (r: bool) { (**self).veq_(*b) }
}
impl<T> VEq<Option<usize>> for Option<T> where T: VEq<usize> {
    open spec fn eq_to(&self, b: &Option<usize>) -> bool {
        match (*self, *b) { (Some(x), Some(y)) => x.eq_to(&y), (None, None) => true, _ => false }
    }
    fn veq_(&self, b: &Option<usize>) -> (r: bool) {
        match (self, b) { (Some(x), Some(y)) => x.veq_(y), (None, None) => true, _ => false }
    }
}
