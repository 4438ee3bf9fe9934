// Contract vocabulary for the OT server.

pub open spec fn queue(v: Seq<OperationSeq>) -> Seq<Seq<Op>> { v.map_values(|o: OperationSeq| o@) }

/// The text after all changes of the queue.
pub open spec fn fold(q: Seq<Seq<Op>>, t: Seq<char>) -> Seq<char>
    decreases q.len(),
{
    if q.len() == 0 { t } else { apply(q.last(), fold(q.drop_last(), t)) }
}

/// Every change of the queue fits the text it meets.
pub open spec fn fold_ok(q: Seq<Seq<Op>>, t: Seq<char>) -> bool
    decreases q.len(),
{
    q.len() == 0 || (fold_ok(q.drop_last(), t) && fits(q.last(), fold(q.drop_last(), t)))
}

impl OTServer {
    pub open spec fn q(self) -> Seq<Seq<Op>> { queue(self.editor_queue@) }

    /// Unconfirmed changes lead from the editor's confirmed text to the daemon's text.
    pub open spec fn inv(self) -> bool {
        &&& fold_ok(self.q(), self.last_confirmed_editor_content@)
        &&& fold(self.q(), self.last_confirmed_editor_content@) == self.current_content@
        &&& self.editor_queue@.len() <= self.daemon_revision
    }

    /// Number of queued changes an editor that has seen `rev` daemon changes has accepted.
    pub open spec fn seen(self, rev: usize) -> int {
        self.editor_queue@.len() - (self.daemon_revision - rev)
    }

    /// The text of such an editor.
    pub open spec fn editor_text(self, rev: usize) -> Seq<char> {
        fold(self.q().take(self.seen(rev)), self.last_confirmed_editor_content@)
    }

    /// An edit the editor may send: made at a revision it can be at, for the text it has there.
    pub open spec fn takes(self, e: RevisionedEditorTextDelta) -> bool {
        e.revision <= self.daemon_revision && 0 <= self.seen(e.revision) && edit_ok(e.delta.0@, self.editor_text(e.revision))
    }
}

/// Step i of the queue, applied after the ones before it.
pub open spec fn queue_text(q: Seq<Seq<Op>>, i: int, t: Seq<char>) -> Seq<char> { fold(q.take(i), t) }

/// Messages to the editor for a queue: one per change, in order, each turning the text before it into the text after it.
pub open spec fn messages_for(ms: Seq<RevisionedEditorTextDelta>, q: Seq<Seq<Op>>, t: Seq<char>, rev: usize) -> bool {
    &&& ms.len() == q.len()
    &&& forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).revision == rev
    &&& forall|i: int| 0 <= i < ms.len() ==>
        realises((#[trigger] ms[i]).delta.0@, queue_text(q, i, t), queue_text(q, i + 1, t))
}

pub proof fn lemma_fold_push(q: Seq<Seq<Op>>, o: Seq<Op>, t: Seq<char>)
    ensures
        fold(q.push(o), t) == apply(o, fold(q, t)),
        fold_ok(q.push(o), t) == (fold_ok(q, t) && fits(o, fold(q, t))),
{
    assert(q.push(o).drop_last() =~= q);
}

pub proof fn lemma_queue_push(v: Seq<OperationSeq>, o: OperationSeq)
    ensures queue(v.push(o)) == queue(v).push(o@),
{
    assert(queue(v.push(o)) =~= queue(v).push(o@));
}

pub proof fn lemma_queue_take(v: Seq<OperationSeq>, i: int)
    requires 0 <= i <= v.len(),
    ensures queue(v.take(i)) == queue(v).take(i), queue(v.skip(i)) == queue(v).skip(i),
        i < v.len() ==> queue(v).take(i + 1) == queue(v).take(i).push(v[i]@),
{
    assert(queue(v.take(i)) =~= queue(v).take(i));
    assert(queue(v.skip(i)) =~= queue(v).skip(i));
    if i < v.len() {
        assert(queue(v).take(i + 1) =~= queue(v).take(i).push(v[i]@));
    }
}

/// Folding in two parts.
pub proof fn lemma_fold_split(q: Seq<Seq<Op>>, i: int, t: Seq<char>)
    requires 0 <= i <= q.len(), fold_ok(q, t),
    ensures
        fold_ok(q.take(i), t),
        fold_ok(q.skip(i), fold(q.take(i), t)),
        fold(q.skip(i), fold(q.take(i), t)) == fold(q, t),
    decreases q.len(),
{
    if i == q.len() {
        assert(q.take(i) =~= q);
        assert(q.skip(i).len() == 0);
    } else {
        lemma_fold_split(q.drop_last(), i, t);
        assert(q.drop_last().take(i) =~= q.take(i));
        assert(q.drop_last().skip(i) =~= q.skip(i).drop_last());
        assert(q.skip(i).last() == q.last());
    }
}

/// One transformation step: `a` and `b` both fit `t`; afterwards they commute.
pub proof fn lemma_transform(a: Seq<Op>, b: Seq<Op>, ap: Seq<Op>, bp: Seq<Op>, a1: Seq<Op>, b1: Seq<Op>, t: Seq<char>)
    requires
        pads(ap, a), pads(bp, b), base(ap) == base(bp), base(ap) <= t.len(),
        transformed(ap, bp, a1, b1),
    ensures
        fits(a1, apply(b, t)), fits(b1, apply(a, t)),
        apply(b1, apply(a, t)) == apply(a1, apply(b, t)),
{
    let n = base(ap) as int;
    let t0 = t.take(n);
    assert(t0.take(n) =~= t.take(n));
    lemma_out_prefix(ap, t, t0);
    lemma_out_prefix(bp, t, t0);
    lemma_out_len(ap, t);
    lemma_out_len(bp, t);
    let ta = apply(a, t);
    let tb = apply(b, t);
    assert(ta == apply(ap, t));
    assert(tb == apply(bp, t));
    assert(ta.take(target(ap) as int) =~= out(ap, t));
    assert(tb.take(target(bp) as int) =~= out(bp, t));
    assert(out(ap, t).take(target(ap) as int) =~= out(ap, t));
    assert(out(bp, t).take(target(bp) as int) =~= out(bp, t));
    lemma_out_prefix(b1, ta, out(ap, t));
    lemma_out_prefix(a1, tb, out(bp, t));
    assert(ta.skip(target(ap) as int) =~= t.skip(n));
    assert(tb.skip(target(bp) as int) =~= t.skip(n));
    assert(out(b1, out(ap, t0)) == out(a1, out(bp, t0)));
}

/// What transforming an editor change through a queue promises.
pub open spec fn through(t0: Seq<Op>, q0: Seq<Seq<Op>>, t1: Seq<Op>, q1: Seq<Seq<Op>>) -> bool {
    &&& q1.len() == q0.len()
    &&& inserted(t1) == inserted(t0)
    &&& forall|i: int| 0 <= i < q0.len() ==> inserted(#[trigger] q1[i]) == inserted(q0[i])
    &&& forall|s: Seq<char>| fits(t0, s) && #[trigger] fold_ok(q0, s) ==> {
        &&& fits(t1, fold(q0, s))
        &&& fold_ok(q1, apply(t0, s))
        &&& fold(q1, apply(t0, s)) == apply(t1, fold(q0, s))
    }
}

/// Adding one more change to the queue.
pub proof fn lemma_through_push(t0: Seq<Op>, q0: Seq<Seq<Op>>, t1: Seq<Op>, q1: Seq<Seq<Op>>,
    m: Seq<Op>, tp: Seq<Op>, mp: Seq<Op>, m1: Seq<Op>, t2: Seq<Op>)
    requires
        through(t0, q0, t1, q1),
        pads(tp, t1), pads(mp, m), base(tp) == base(mp),
        base(tp) == base(t1) || base(tp) == base(m),
        transformed(mp, tp, m1, t2),
    ensures through(t0, q0.push(m), t2, q1.push(m1)),
{
    assert forall|s: Seq<char>| fits(t0, s) && #[trigger] fold_ok(q0.push(m), s) implies
        fits(t2, fold(q0.push(m), s)) && fold_ok(q1.push(m1), apply(t0, s)) && fold(q1.push(m1), apply(t0, s)) == apply(t2, fold(q0.push(m), s)) by {
        lemma_fold_push(q0, m, s);
        lemma_fold_push(q1, m1, apply(t0, s));
        let u = fold(q0, s);
        assert(fold_ok(q0, s));
        lemma_transform(m, t1, mp, tp, m1, t2, u);
    }
    assert forall|i: int| 0 <= i < q0.push(m).len() implies inserted(#[trigger] q1.push(m1)[i]) == inserted(q0.push(m)[i]) by {
        if i < q0.len() {
            assert(q1.push(m1)[i] == q1[i]);
        }
    }
}

/// The server takes over a change from elsewhere.
pub open spec fn crdt_step(s0: OTServer, s1: OTServer, d: Seq<Op>, r: RevisionedEditorTextDelta) -> bool {
    &&& s1.inv()
    &&& s1.current_content@ == apply(d, s0.current_content@)
    &&& s1.last_confirmed_editor_content@ == s0.last_confirmed_editor_content@
    &&& s1.editor_queue@.len() == s0.editor_queue@.len() + 1
    &&& s1.q().drop_last() == s0.q()
    &&& same(s1.q().last(), d)
    &&& s1.daemon_revision == s0.daemon_revision + 1
    &&& s1.editor_revision == s0.editor_revision
    &&& r.revision == s0.editor_revision
    &&& realises(r.delta.0@, s0.current_content@, s1.current_content@)
    &&& s1.operations@.len() == s0.operations@.len() + 1
    &&& same(s1.operations@.last()@, d)
}

/// Text inserted by an editor's edit.
pub open spec fn edit_text(d: Seq<EditorTextOp>) -> Seq<char> { if d.len() == 0 { Seq::empty() } else { d[0].replacement@ } }

/// The server takes over an edit of the editor; `d` goes to the shared document, `ms` to the editor.
pub open spec fn editor_step(s0: OTServer, s1: OTServer, ed: RevisionedEditorTextDelta, d: Seq<Op>, ms: Seq<RevisionedEditorTextDelta>) -> bool {
    &&& s1.inv()
    &&& s1.last_confirmed_editor_content@ == edited(ed.delta.0@, s0.editor_text(ed.revision))
    &&& fits(d, s0.current_content@)
    &&& s1.current_content@ == apply(d, s0.current_content@)
    &&& s1.editor_revision == s0.editor_revision + 1
    &&& s1.daemon_revision == s0.daemon_revision
    &&& s1.editor_queue@.len() == s0.daemon_revision - ed.revision
    &&& inserted(d) == edit_text(ed.delta.0@)
    &&& forall|i: int| 0 <= i < s1.q().len() ==> inserted(#[trigger] s1.q()[i]) == inserted(s0.q()[s0.seen(ed.revision) + i])
    &&& messages_for(ms, s1.q(), s1.last_confirmed_editor_content@, s1.editor_revision)
    &&& s1.operations@.len() == s0.operations@.len() + 1
    &&& same(s1.operations@.last()@, d)
}
