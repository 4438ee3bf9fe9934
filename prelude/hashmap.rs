// std::collections::HashMap, seen as a map from what makes keys equal to values.
pub struct VHashMap<K, V> { pub k: std::marker::PhantomData<K>, pub t: Ghost<Map<Seq<char>, V>>, pub n: Ghost<Map<int, V>> }

/// `ks` are the keys of `m`, each once, in whatever order.
pub open spec fn enumerates<A, V>(ks: Seq<A>, m: Map<A, V>) -> bool {
    &&& forall|i: int| 0 <= i < ks.len() ==> m.dom().contains(#[trigger] ks[i])
    &&& forall|k: A| #[trigger] m.dom().contains(k) ==> ks.contains(k)
    &&& ks.no_duplicates()
}

/// The order the entries are visited in.
pub uninterp spec fn key_order<A, V>(m: Map<A, V>) -> Seq<A>;

pub open spec fn values_of<A, V>(v: Seq<&V>, m: Map<A, V>) -> bool {
    &&& enumerates(key_order(m), m) && v.len() == key_order(m).len()
    &&& forall|i: int| #![trigger v[i]] #![trigger key_order(m)[i]] 0 <= i < v.len() ==> *v[i] == m[key_order(m)[i]]
}

pub open spec fn keys_of<V>(v: Seq<usize>, m: Map<int, V>) -> bool {
    &&& enumerates(key_order(m), m) && v.len() == key_order(m).len()
    &&& forall|i: int| #![trigger v[i]] #![trigger key_order(m)[i]] 0 <= i < v.len() ==> v[i] as int == key_order(m)[i]
}

impl<K, V> VHashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.t@ == Map::<Seq<char>, V>::empty(), r.n@ == Map::<int, V>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r.t@ == Map::<Seq<char>, V>::empty(), r.n@ == Map::<int, V>::empty(),
    { unimplemented!() }
}

impl<V> View for VHashMap<usize, V> {
    type V = Map<int, V>;
    open spec fn view(&self) -> Map<int, V> { self.n@ }
}

impl<V> VHashMap<usize, V> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.dom().len(), self@.dom().finite(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == self@.dom().is_empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn contains_key(&self, k: &usize) -> (r: bool)
        requires true,
        ensures r == self@.dom().contains(*k as int),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get(&self, k: &usize) -> (r: Option<&V>)
        requires true,
        ensures
            r is Some <==> self@.dom().contains(*k as int),
            r is Some ==> *(r->0) == self@[*k as int],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &usize) -> (r: Option<&'a mut V>)
        requires true,
        ensures
            match r {
                Some(v) => old(self)@.dom().contains(*k as int) && *v == old(self)@[*k as int] && final(self)@ == old(self)@.insert(*k as int, *final(v)),
                None => !old(self)@.dom().contains(*k as int) && final(self)@ == old(self)@,
            },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn vinsert(&mut self, k: usize, v: V) -> (r: Option<V>)
        requires true,
        ensures
            final(self)@ == old(self)@.insert(k as int, v),
            r is Some <==> old(self)@.dom().contains(k as int),
            r is Some ==> r->0 == old(self)@[k as int],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn remove(&mut self, k: &usize) -> (r: Option<V>)
        requires true,
        ensures
            final(self)@ == old(self)@.remove(*k as int),
            r is Some <==> old(self)@.dom().contains(*k as int),
            r is Some ==> r->0 == old(self)@[*k as int],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn values(&self) -> (r: Vec<&V>)
        ensures values_of(r@, self@),
    { unimplemented!() }

    /// The keys, copied; a loop over them may change the map.
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Vec<usize>)
        ensures
            keys_of(r@, self@),
    { unimplemented!() }
}

impl<V> View for VHashMap<RelativePath, V> {
    type V = Map<Seq<char>, V>;
    open spec fn view(&self) -> Map<Seq<char>, V> { self.t@ }
}

impl<V> VHashMap<RelativePath, V> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.dom().len(), self@.dom().finite(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == self@.dom().is_empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn contains_key(&self, k: &RelativePath) -> (r: bool)
        requires normal(k.text()),
        ensures r == self@.dom().contains(k.text()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get(&self, k: &RelativePath) -> (r: Option<&V>)
        requires normal(k.text()),
        ensures
            r is Some <==> self@.dom().contains(k.text()),
            r is Some ==> *(r->0) == self@[k.text()],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &RelativePath) -> (r: Option<&'a mut V>)
        requires normal(k.text()),
        ensures
            match r {
                Some(v) => old(self)@.dom().contains(k.text()) && *v == old(self)@[k.text()] && final(self)@ == old(self)@.insert(k.text(), *final(v)),
                None => !old(self)@.dom().contains(k.text()) && final(self)@ == old(self)@,
            },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn vinsert(&mut self, k: RelativePath, v: V) -> (r: Option<V>)
        requires normal(k.text()),
        ensures
            final(self)@ == old(self)@.insert(k.text(), v),
            r is Some <==> old(self)@.dom().contains(k.text()),
            r is Some ==> r->0 == old(self)@[k.text()],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn remove(&mut self, k: &RelativePath) -> (r: Option<V>)
        requires normal(k.text()),
        ensures
            final(self)@ == old(self)@.remove(k.text()),
            r is Some <==> old(self)@.dom().contains(k.text()),
            r is Some ==> r->0 == old(self)@[k.text()],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn values(&self) -> (r: Vec<&V>)
        ensures values_of(r@, self@),
    { unimplemented!() }

    /// The keys, copied; a loop over them may change the map.
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Vec<RelativePath>)
        ensures
            enumerates(key_order(self@), self@), r@.len() == key_order(self@).len(),
            forall|i: int| #![trigger r@[i]] #![trigger key_order(self@)[i]] 0 <= i < r@.len() ==> normal(r@[i].text()) && r@[i].text() == key_order(self@)[i],
    { unimplemented!() }
}

pub mod maplem {
    use super::*;
    pub broadcast proof fn lemma_insert_same<A, V>(m: Map<A, V>, k: A, v: V)
        requires m.dom().contains(k), m[k] == v,
        ensures #[trigger] m.insert(k, v) == m,
    {
        assert(m.insert(k, v) =~= m);
    }
    pub broadcast proof fn lemma_insert_twice<A, V>(m: Map<A, V>, k: A, v: V, w: V)
        ensures #[trigger] m.insert(k, v).insert(k, w) == m.insert(k, w),
    {
        assert(m.insert(k, v).insert(k, w) =~= m.insert(k, w));
    }
    pub broadcast proof fn lemma_insert_none<A, T>(m: Map<A, Seq<T>>, k: A, s: Seq<T>)
        requires s.len() == 0,
        ensures #[trigger] m.insert(k, s) == m.insert(k, Seq::<T>::empty()),
    {
        assert(s =~= Seq::<T>::empty());
    }
    pub broadcast proof fn lemma_insert_remove<A, V>(m: Map<A, V>, k: A, v: V)
        ensures #[trigger] m.insert(k, v).remove(k) == m.remove(k),
    {
        assert(m.insert(k, v).remove(k) =~= m.remove(k));
    }
    pub broadcast group group_map { lemma_insert_remove, lemma_insert_none, lemma_insert_same, lemma_insert_twice }
}
