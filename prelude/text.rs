// Meaning of changes. No trusted statements in this file except `op_of`-style views being definitions.

/// One step of a change, as text positions are concerned.
pub ghost enum Op {
    Retain(nat),
    Insert(Seq<char>),
    Delete(nat),
}

/// Number of characters of the old text the steps speak about.
pub open spec fn base(ops: Seq<Op>) -> nat
    decreases ops.len(),
{
    if ops.len() == 0 { 0 } else {
        match ops.last() {
            Op::Retain(n) => base(ops.drop_last()) + n,
            Op::Delete(n) => base(ops.drop_last()) + n,
            Op::Insert(_) => base(ops.drop_last()),
        }
    }
}

/// Length of what the steps turn these characters into.
pub open spec fn target(ops: Seq<Op>) -> nat
    decreases ops.len(),
{
    if ops.len() == 0 { 0 } else {
        match ops.last() {
            Op::Retain(n) => target(ops.drop_last()) + n,
            Op::Delete(n) => target(ops.drop_last()),
            Op::Insert(s) => target(ops.drop_last()) + s.len(),
        }
    }
}

/// What the steps turn the first `base(ops)` characters of `t` into.
pub open spec fn out(ops: Seq<Op>, t: Seq<char>) -> Seq<char>
    decreases ops.len(),
{
    if ops.len() == 0 { Seq::empty() } else {
        let p = ops.drop_last();
        match ops.last() {
            Op::Retain(n) => out(p, t) + t.subrange(base(p) as int, (base(p) + n) as int),
            Op::Delete(_) => out(p, t),
            Op::Insert(s) => out(p, t) + s,
        }
    }
}

/// All text the steps insert, in order.
pub open spec fn inserted(ops: Seq<Op>) -> Seq<char>
    decreases ops.len(),
{
    if ops.len() == 0 { Seq::empty() } else {
        match ops.last() {
            Op::Insert(s) => inserted(ops.drop_last()) + s,
            _ => inserted(ops.drop_last()),
        }
    }
}

/// A change fits a text if it speaks about existing characters only.
pub open spec fn fits(ops: Seq<Op>, t: Seq<char>) -> bool { base(ops) <= t.len() }

/// The changed text: text the change does not mention is kept.
pub open spec fn apply(ops: Seq<Op>, t: Seq<char>) -> Seq<char> { out(ops, t) + t.skip(base(ops) as int) }

/// Two changes mean the same.
pub open spec fn same(a: Seq<Op>, b: Seq<Op>) -> bool {
    &&& base(a) == base(b)
    &&& target(a) == target(b)
    &&& inserted(a) == inserted(b)
    &&& forall|t: Seq<char>| t.len() >= base(a) ==> #[trigger] out(a, t) == out(b, t)
}

/// `a` is `b`, possibly with some text after it retained explicitly.
pub open spec fn pads(a: Seq<Op>, b: Seq<Op>) -> bool {
    &&& base(a) >= base(b)
    &&& target(a) - base(a) == target(b) - base(b)
    &&& inserted(a) == inserted(b)
    &&& forall|t: Seq<char>| t.len() >= base(a) ==> #[trigger] apply(a, t) == apply(b, t)
}

pub mod textlem {
    use super::*;
    use vstd::prelude::*;
    pub broadcast proof fn lemma_pads_same(a: Seq<Op>, b: Seq<Op>)
        requires #[trigger] same(a, b),
        ensures pads(a, b),
    {
        assert forall|t: Seq<char>| t.len() >= base(a) implies #[trigger] apply(a, t) == apply(b, t) by {
            assert(out(a, t) == out(b, t));
        }
    }
    pub broadcast proof fn lemma_pads_push(a: Seq<Op>, b: Seq<Op>, n: nat)
        requires #[trigger] same(a, b.push(Op::Retain(n))),
        ensures pads(a, b), base(a) == base(b) + n,
    {
        assert(b.push(Op::Retain(n)).drop_last() =~= b);
        assert forall|t: Seq<char>| t.len() >= base(a) implies #[trigger] apply(a, t) == apply(b, t) by {
            assert(out(a, t) == out(b.push(Op::Retain(n)), t));
            lemma_pad(b, n, t);
        }
    }
    pub broadcast proof fn lemma_pads_trans(a: Seq<Op>, b: Seq<Op>, c: Seq<Op>)
        requires #[trigger] pads(a, b), #[trigger] pads(b, c),
        ensures pads(a, c),
    {
        assert forall|t: Seq<char>| t.len() >= base(a) implies #[trigger] apply(a, t) == apply(c, t) by {
            assert(apply(a, t) == apply(b, t));
            assert(apply(b, t) == apply(c, t));
        }
    }
    pub broadcast proof fn lemma_out_push(p: Seq<Op>, o: Op, t: Seq<char>)
        ensures #[trigger] out(p.push(o), t) == match o {
            Op::Retain(n) => out(p, t) + t.subrange(base(p) as int, (base(p) + n) as int),
            Op::Delete(_) => out(p, t),
            Op::Insert(s) => out(p, t) + s,
        },
    {
        assert(p.push(o).drop_last() =~= p);
    }
    pub broadcast proof fn lemma_base_push(p: Seq<Op>, o: Op)
        ensures #[trigger] base(p.push(o)) == match o {
            Op::Retain(n) => base(p) + n,
            Op::Delete(n) => base(p) + n,
            Op::Insert(s) => base(p),
        },
    {
        assert(p.push(o).drop_last() =~= p);
    }
    pub broadcast proof fn lemma_target_push(p: Seq<Op>, o: Op)
        ensures #[trigger] target(p.push(o)) == match o {
            Op::Retain(n) => target(p) + n,
            Op::Delete(n) => target(p),
            Op::Insert(s) => target(p) + s.len(),
        },
    {
        assert(p.push(o).drop_last() =~= p);
    }
    pub broadcast proof fn lemma_inserted_push(p: Seq<Op>, o: Op)
        ensures #[trigger] inserted(p.push(o)) == match o {
            Op::Insert(s) => inserted(p) + s,
            _ => inserted(p),
        },
    {
        assert(p.push(o).drop_last() =~= p);
    }
    pub broadcast group group_text { lemma_out_push, lemma_base_push, lemma_target_push, lemma_inserted_push, lemma_pads_same, lemma_pads_push, lemma_pads_trans }
}

pub proof fn lemma_out_len(ops: Seq<Op>, t: Seq<char>)
    requires fits(ops, t),
    ensures out(ops, t).len() == target(ops),
    decreases ops.len(),
{
    if ops.len() > 0 {
        lemma_out_len(ops.drop_last(), t);
    }
}

/// Only the first `base(ops)` characters matter.
pub proof fn lemma_out_prefix(ops: Seq<Op>, t: Seq<char>, u: Seq<char>)
    requires
        fits(ops, t), fits(ops, u),
        t.take(base(ops) as int) == u.take(base(ops) as int),
    ensures out(ops, t) == out(ops, u),
    decreases ops.len(),
{
    if ops.len() > 0 {
        let p = ops.drop_last();
        assert(t.take(base(p) as int) == t.take(base(ops) as int).take(base(p) as int));
        assert(u.take(base(p) as int) == u.take(base(ops) as int).take(base(p) as int));
        lemma_out_prefix(p, t, u);
        match ops.last() {
            Op::Retain(n) => {
                assert(t.subrange(base(p) as int, (base(p) + n) as int)
                    =~= t.take(base(ops) as int).subrange(base(p) as int, (base(p) + n) as int));
                assert(u.subrange(base(p) as int, (base(p) + n) as int)
                    =~= u.take(base(ops) as int).subrange(base(p) as int, (base(p) + n) as int));
            },
            _ => {},
        }
    }
}

/// A final retain changes nothing.
pub proof fn lemma_pad(a: Seq<Op>, n: nat, t: Seq<char>)
    requires base(a) + n <= t.len(),
    ensures
        base(a.push(Op::Retain(n))) == base(a) + n,
        target(a.push(Op::Retain(n))) == target(a) + n,
        inserted(a.push(Op::Retain(n))) == inserted(a),
        apply(a.push(Op::Retain(n)), t) == apply(a, t),
        out(a.push(Op::Retain(n)), t) == out(a, t) + t.subrange(base(a) as int, (base(a) + n) as int),
{
    let b = a.push(Op::Retain(n));
    assert(b.drop_last() =~= a);
    assert(apply(b, t) =~= apply(a, t));
}

/// Equal lengths and the same effect on all texts make two padded versions interchangeable.
pub proof fn lemma_pads_same_apply(a: Seq<Op>, b: Seq<Op>, t: Seq<char>)
    requires pads(a, b), t.len() >= base(a),
    ensures apply(a, t) == apply(b, t), fits(b, t),
{ }

pub proof fn lemma_push(a: Seq<Op>, o: Op)
    ensures
        a.push(o).drop_last() == a,
        a.push(o).last() == o,
{
    assert(a.push(o).drop_last() =~= a);
}

pub proof fn lemma_same_apply(a: Seq<Op>, b: Seq<Op>, t: Seq<char>)
    requires same(a, b), fits(a, t),
    ensures apply(a, t) == apply(b, t),
{
    assert(out(a, t) == out(b, t));
}

pub proof fn lemma_same_trans(a: Seq<Op>, b: Seq<Op>, c: Seq<Op>)
    requires same(a, b), same(b, c),
    ensures same(a, c),
{
    assert forall|t: Seq<char>| t.len() >= base(a) implies #[trigger] out(a, t) == out(c, t) by {
        assert(out(b, t) == out(c, t));
    }
}

pub proof fn lemma_same_sym(a: Seq<Op>, b: Seq<Op>)
    requires same(a, b),
    ensures same(b, a),
{
    assert forall|t: Seq<char>| t.len() >= base(b) implies #[trigger] out(b, t) == out(a, t) by {
        assert(out(a, t) == out(b, t));
    }
}

/// Appending the same step to equivalent changes.
pub proof fn lemma_same_push(a: Seq<Op>, b: Seq<Op>, o: Op)
    requires same(a, b),
    ensures same(a.push(o), b.push(o)),
{
    lemma_push(a, o);
    lemma_push(b, o);
    assert forall|t: Seq<char>| t.len() >= base(a.push(o)) implies #[trigger] out(a.push(o), t) == out(b.push(o), t) by {
        assert(out(a, t) == out(b, t));
    }
}

pub proof fn lemma_same_refl(a: Seq<Op>)
    ensures same(a, a),
{ }
