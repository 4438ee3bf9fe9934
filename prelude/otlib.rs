// operational-transform 0.6.1: assumed contracts (lengths as mathematical numbers).
#[verifier::external_body]
pub struct OperationSeq { x: u8 }

pub enum OTOperation {
    Delete(u64),
    Retain(u64),
    Insert(String),
}

pub struct OTError;

pub open spec fn otop_of(o: OTOperation) -> Op {
    match o {
        OTOperation::Retain(n) => Op::Retain(n as nat),
        OTOperation::Insert(s) => Op::Insert(s@),
        OTOperation::Delete(n) => Op::Delete(n as nat),
    }
}

/// Counts are lengths of texts.
pub open spec fn otop_small(o: OTOperation) -> bool {
    match o {
        OTOperation::Retain(n) => n <= usize::MAX,
        OTOperation::Delete(n) => n <= usize::MAX,
        OTOperation::Insert(_) => true,
    }
}

pub open spec fn otops_of(v: Seq<OTOperation>) -> Seq<Op> { v.map_values(|o: OTOperation| otop_of(o)) }

pub open spec fn deref_ops(v: Seq<&OTOperation>) -> Seq<OTOperation> { v.map_values(|o: &OTOperation| *o) }

pub proof fn lemma_otops_take(v: Seq<OTOperation>, i: int)
    requires 0 <= i < v.len(),
    ensures otops_of(v.take(i + 1)) == otops_of(v.take(i)).push(otop_of(v[i])),
{
    assert(otops_of(v.take(i + 1)) =~= otops_of(v.take(i)).push(otop_of(v[i])));
}

impl View for OperationSeq {
    type V = Seq<Op>;
    uninterp spec fn view(&self) -> Seq<Op>;
}

impl Clone for OperationSeq {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

/// What `transform` promises: both orders lead to the same text, nothing inserted is lost, and
/// nothing more is deleted.
pub open spec fn transformed(a: Seq<Op>, b: Seq<Op>, a1: Seq<Op>, b1: Seq<Op>) -> bool {
    &&& base(a1) == target(b)
    &&& base(b1) == target(a)
    &&& inserted(a1) == inserted(a)
    &&& inserted(b1) == inserted(b)
    &&& target(a1) == target(b1)
    &&& forall|t: Seq<char>| t.len() == base(a) ==> #[trigger] out(b1, out(a, t)) == out(a1, out(b, t))
}

/// What `compose` promises.
pub open spec fn composed(a: Seq<Op>, b: Seq<Op>, c: Seq<Op>) -> bool {
    &&& target(a) == base(b)
    &&& base(c) == base(a)
    &&& target(c) == target(b)
    &&& inserted(a).len() == 0 ==> inserted(c) == inserted(b)
    &&& forall|t: Seq<char>| t.len() == base(a) ==> #[trigger] out(c, t) == out(b, out(a, t))
}

impl OperationSeq {
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r@.len() == 0,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn retain(&mut self, n: u64)
        ensures same(final(self)@, old(self)@.push(Op::Retain(n as nat))), n == 0 ==> final(self)@ == old(self)@,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn delete(&mut self, n: u64)
        ensures same(final(self)@, old(self)@.push(Op::Delete(n as nat))),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn insert(&mut self, s: &str)
        ensures same(final(self)@, old(self)@.push(Op::Insert(s@))),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn base_len(&self) -> (r: usize)
        ensures r == base(self@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn target_len(&self) -> (r: usize)
        ensures r == target(self@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn ops(&self) -> (r: &Vec<OTOperation>)
        ensures otops_of(r@) == self@,
            forall|i: int| 0 <= i < r@.len() ==> otop_small(#[trigger] r@[i]),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn apply(&self, s: &str) -> (r: Result<String, OTError>)
        ensures
            r is Ok <==> s@.len() == base(self@),
            r is Ok ==> r->Ok_0@ == out(self@, s@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn compose(&self, other: &Self) -> (r: Result<Self, OTError>)
        ensures
            r is Ok <==> target(self@) == base(other@),
            r is Ok ==> composed(self@, other@, r->Ok_0@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn transform(&self, other: &Self) -> (r: Result<(Self, Self), OTError>)
        ensures
            r is Ok <==> base(self@) == base(other@),
            r is Ok ==> transformed(self@, other@, r->Ok_0.0@, r->Ok_0.1@),
    { unimplemented!() }
}

/// Composition after padding.
pub proof fn lemma_compose(a: Seq<Op>, b: Seq<Op>, a1: Seq<Op>, b1: Seq<Op>, c: Seq<Op>, t: Seq<char>)
    requires pads(a1, a), pads(b1, b), composed(a1, b1, c), t.len() >= base(c),
    ensures
        fits(a, t), fits(b, apply(a, t)),
        apply(c, t) == apply(b, apply(a, t)),
{
    let u = apply(a1, t);
    assert(u == apply(a, t));
    lemma_out_len(a1, t);
    let n = base(c) as int;
    let t0 = t.take(n);
    assert(t0.take(n) =~= t.take(n));
    lemma_out_prefix(c, t, t0);
    lemma_out_prefix(a1, t, t0);
    assert(out(a1, t) =~= u.take(target(a1) as int));
    assert(out(a1, t).take(base(b1) as int) =~= u.take(base(b1) as int));
    lemma_out_prefix(b1, u, out(a1, t));
    assert(t.skip(n) =~= u.skip(base(b1) as int));
    assert(apply(b1, u) == apply(b, u));
}
