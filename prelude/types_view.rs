// Views of the extracted types as changes.
pub open spec fn op_of(o: TextOp) -> Op {
    match o {
        TextOp::Retain(n) => Op::Retain(n as nat),
        TextOp::Insert(s) => Op::Insert(s@),
        TextOp::Delete(n) => Op::Delete(n as nat),
    }
}

pub open spec fn ops_of(v: Seq<TextOp>) -> Seq<Op> { v.map_values(|o: TextOp| op_of(o)) }

impl TextDelta {
    pub open spec fn ops(self) -> Seq<Op> { ops_of(self.0@) }
}

pub proof fn lemma_ops_push(v: Seq<TextOp>, o: TextOp)
    ensures ops_of(v.push(o)) == ops_of(v).push(op_of(o)),
{
    assert(ops_of(v.push(o)) =~= ops_of(v).push(op_of(o)));
}

pub proof fn lemma_ops_take(v: Seq<TextOp>, i: int)
    requires 0 <= i < v.len(),
    ensures ops_of(v.take(i + 1)) == ops_of(v.take(i)).push(op_of(v[i])),
{
    assert(v.take(i + 1) =~= v.take(i).push(v[i]));
    lemma_ops_push(v.take(i), v[i]);
}

pub proof fn lemma_base_take(ops: Seq<Op>, i: int)
    requires 0 <= i <= ops.len(),
    ensures base(ops.take(i)) <= base(ops), target(ops.take(i)) <= target(ops),
    decreases ops.len() - i,
{
    if i < ops.len() {
        assert(ops.take(i + 1).drop_last() =~= ops.take(i));
        lemma_base_take(ops, i + 1);
    } else {
        assert(ops.take(i) =~= ops);
    }
}

/// Prefixes of the steps of a delta.
pub proof fn lemma_delta_take(v: Seq<TextOp>, i: int)
    requires 0 <= i < v.len(),
    ensures
        ops_of(v.take(i + 1)) == ops_of(v.take(i)).push(op_of(v[i])),
        ops_of(v.take(i + 1)).drop_last() == ops_of(v.take(i)),
        base(ops_of(v.take(i + 1))) <= base(ops_of(v)),
        target(ops_of(v.take(i + 1))) <= target(ops_of(v)),
        v.take(v.len() as int) == v,
{
    lemma_ops_take(v, i);
    lemma_push(ops_of(v.take(i)), op_of(v[i]));
    assert(ops_of(v.take(i + 1)) =~= ops_of(v).take(i + 1));
    lemma_base_take(ops_of(v), i + 1);
    assert(v.take(v.len() as int) =~= v);
}

pub proof fn lemma_take_zero(v: Seq<TextOp>)
    ensures ops_of(v.take(0)).len() == 0, v.take(v.len() as int) == v,
{
    assert(v.take(v.len() as int) =~= v);
}
