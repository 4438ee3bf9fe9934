// automerge 0.5, seen by one replica: a tree of maps and texts.  Assumed contracts.

pub enum Prop { Map(String), Seq(usize) }

pub enum ObjType { Map, List, Text, Table }

pub enum Value { Object(ObjType), Scalar(u8) }

#[verifier::external_body]
pub struct AmError { x: u8 }

/// Names an object.
#[verifier::external_body]
pub struct ObjId { x: u8 }

impl View for ObjId {
    type V = int;
    uninterp spec fn view(&self) -> int;
}
/// What names an object: an id or a reference to one.
pub trait AmObj { spec fn oid(&self) -> int; }
impl AmObj for ObjId { open spec fn oid(&self) -> int { self@ } }
impl AmObj for &ObjId { open spec fn oid(&self) -> int { self@ } }

impl Clone for ObjId {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

#[verifier::external_body]
pub fn am_root() -> (r: ObjId)
    ensures r@ == 0,
{ unimplemented!() }

pub ghost enum Entry { Map(int), Text(int), Other }

pub open spec fn entry_id(e: Entry) -> Option<int> { match e { Entry::Map(i) => Some(i), Entry::Text(i) => Some(i), Entry::Other => None } }

pub ghost struct Am {
    pub maps: Map<int, Map<Seq<char>, Entry>>,
    pub texts: Map<int, Seq<char>>,
}

impl Am {
    pub open spec fn has(self, m: int, k: Seq<char>) -> bool { self.maps.dom().contains(m) && self.maps[m].dom().contains(k) }

    /// What entries refer to exists, and no object hangs in two places.
    pub open spec fn wf(self) -> bool {
        &&& self.maps.dom().contains(0)
        &&& forall|i: int| #![trigger self.maps.dom().contains(i)] #![trigger self.texts.dom().contains(i)]
                !(self.maps.dom().contains(i) && self.texts.dom().contains(i))
        &&& forall|m: int, k: Seq<char>| #[trigger] self.has(m, k) ==> match self.maps[m][k] {
                Entry::Map(i) => i != 0 && self.maps.dom().contains(i),
                Entry::Text(i) => self.texts.dom().contains(i),
                Entry::Other => true,
            }
        &&& forall|m: int, k: Seq<char>, n: int, l: Seq<char>| #[trigger] self.has(m, k) && #[trigger] self.has(n, l)
                && entry_id(self.maps[m][k]) is Some && entry_id(self.maps[m][k]) == entry_id(self.maps[n][l]) ==> m == n && k == l
    }
}

/// A new text `i` under key `k` of map `m`.
pub open spec fn am_put(v: Am, w: Am, m: int, k: Seq<char>, i: int) -> bool {
    &&& !v.maps.dom().contains(i)
    &&& !v.texts.dom().contains(i)
    &&& w.maps == v.maps.insert(m, v.maps[m].insert(k, Entry::Text(i)))
    &&& w.texts == v.texts.insert(i, Seq::empty())
}

/// `n` characters from `p` in text `i` replaced by `s`.
pub open spec fn am_splice(v: Am, w: Am, i: int, p: int, n: int, s: Seq<char>) -> bool {
    w.maps == v.maps && w.texts == v.texts.insert(i, v.texts[i].take(p) + s + v.texts[i].skip(p + n))
}

pub open spec fn am_del(v: Am, w: Am, m: int, k: Seq<char>) -> bool {
    w.texts == v.texts && w.maps == v.maps.insert(m, v.maps[m].remove(k))
}

/// The keys of a map entry: anything that converts into a `Prop`.
pub trait AmKey: Sized {
    spec fn key(self) -> Seq<char>;
    fn prop(self) -> (r: Prop)
        ensures r is Map && r->Map_0@ == self.key();
}

impl AmKey for &str {
    open spec fn key(self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn prop(self) -> (r: Prop) { unimplemented!() }
}

pub struct ActorId { pub hex: String }

impl ActorId {
    pub fn to_hex_string(&self) -> (r: String)
        ensures r@ == self.hex@,
    { self.hex.clone() }
}

#[verifier::external_body]
pub struct AutoCommit { x: u8 }

impl View for AutoCommit {
    type V = Am;
    uninterp spec fn view(&self) -> Am;
}

/// What loading these bytes gives, if they can be loaded.
pub uninterp spec fn am_loads(b: Seq<u8>) -> Option<Am>;

impl AutoCommit {
    /// What the last `save`, `save_incremental` or `load` covers.
    pub uninterp spec fn covered(&self) -> Am;
    pub uninterp spec fn actor(&self) -> Seq<char>;

    #[verifier::external_body]
    pub fn get_actor(&self) -> (r: &ActorId)
        ensures r.hex@ == self.actor(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn load(bytes: &[u8]) -> (r: Result<AutoCommit, AmError>)
        ensures
            r is Ok <==> am_loads(bytes@) is Some,
            r is Ok ==> r->Ok_0@ == am_loads(bytes@)->0 && r->Ok_0@.wf() && r->Ok_0.covered() == r->Ok_0@,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn save(&mut self) -> (r: Vec<u8>)
        ensures
            final(self)@ == old(self)@, am_loads(r@) == Some(old(self)@), final(self).covered() == old(self)@, final(self).actor() == old(self).actor(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn save_incremental(&mut self) -> (r: Vec<u8>)
        ensures
            final(self)@ == old(self)@, final(self).covered() == old(self)@, final(self).actor() == old(self).actor(),
            forall|a: Seq<u8>| am_loads(a) == Some(old(self).covered()) ==> am_loads(#[trigger] (a + r@)) == Some(old(self)@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get<P: AmKey, O: AmObj>(&self, obj: O, prop: P) -> (r: Result<Option<(Value, ObjId)>, AmError>)
        ensures
            self@.maps.dom().contains(obj.oid()) ==> r is Ok,
            self@.maps.dom().contains(obj.oid()) ==> (r->Ok_0 is Some <==> self@.has(obj.oid(), prop.key())),
            self@.has(obj.oid(), prop.key()) ==> match self@.maps[obj.oid()][prop.key()] {
                Entry::Map(i) => (r->Ok_0->0).0 == Value::Object(ObjType::Map) && (r->Ok_0->0).1@ == i,
                Entry::Text(i) => (r->Ok_0->0).0 == Value::Object(ObjType::Text) && (r->Ok_0->0).1@ == i,
                Entry::Other => (r->Ok_0->0).0 != Value::Object(ObjType::Map) && (r->Ok_0->0).0 != Value::Object(ObjType::Text),
            },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn put_object<P: AmKey, O: AmObj>(&mut self, obj: O, prop: P, kind: ObjType) -> (r: Result<ObjId, AmError>)
        ensures
            final(self).covered() == old(self).covered(), final(self).actor() == old(self).actor(),
            old(self)@.maps.dom().contains(obj.oid()) && kind == ObjType::Text ==> {
                r is Ok && am_put(old(self)@, final(self)@, obj.oid(), prop.key(), r->Ok_0@)
            },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn splice_text<O: AmObj>(&mut self, obj: O, pos: usize, del: isize, text: &str) -> (r: Result<(), AmError>)
        ensures
            final(self).covered() == old(self).covered(), final(self).actor() == old(self).actor(),
            final(self)@.maps == old(self)@.maps,
            old(self)@.texts.dom().contains(obj.oid()) && 0 <= del && pos + del <= old(self)@.texts[obj.oid()].len() ==>
                r is Ok && am_splice(old(self)@, final(self)@, obj.oid(), pos as int, del as int, text@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn delete<P: AmKey, O: AmObj>(&mut self, obj: O, prop: P) -> (r: Result<(), AmError>)
        ensures
            final(self).covered() == old(self).covered(), final(self).actor() == old(self).actor(),
            final(self)@.texts == old(self)@.texts,
            old(self)@.has(obj.oid(), prop.key()) ==>
                r is Ok && am_del(old(self)@, final(self)@, obj.oid(), prop.key()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn text<O: AmObj>(&self, obj: O) -> (r: Result<String, AmError>)
        ensures self@.texts.dom().contains(obj.oid()) ==> r is Ok && r->Ok_0@ == self@.texts[obj.oid()],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn keys<O: AmObj>(&self, obj: O) -> (r: std::vec::IntoIter<String>)
        ensures
            IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::decrease(&r) is Some,
            self@.maps.dom().contains(obj.oid()) ==> is_keys(IteratorSpec::remaining(&r), self@.maps[obj.oid()].dom()),
    { unimplemented!() }
}

/// Every key once.
pub open spec fn is_keys(v: Seq<String>, s: Set<Seq<char>>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> s.contains(#[trigger] v[i]@)
    &&& forall|k: Seq<char>| s.contains(k) ==> exists|i: int| 0 <= i < v.len() && #[trigger] v[i]@ == k
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i])@ != (#[trigger] v[j])@
}

pub mod automerge {
    pub use super::{ObjId, ObjType, Prop, Value};
}
