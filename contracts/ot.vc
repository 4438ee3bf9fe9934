@source daemon/src/ot.rs

@fn OTServer::new
@args initial_content
@props C01
@spec
ensures
    r.inv(), r.current_content@ == initial_content@, r.last_confirmed_editor_content@ == initial_content@,
    r.editor_revision == 0, r.daemon_revision == 0, r.editor_queue@.len() == 0, r.operations@.len() == 0,

@fn OTServer::force_apply
@args document op_seq
@props C01
@spec
requires fits(op_seq@, document@)
ensures r@ == apply(op_seq@, document@)
@entry
proof { axiom_text_len(document); }
@exit
proof { assert(r@ =~= apply(op_seq@, document@)); }

@fn transform_through_operations
@args their_op_seq my_operations
@props C01
@spec
ensures through(their_op_seq@, queue(my_operations@), r.0@, queue(r.1@))
@entry
let ghost t0 = their_op_seq@;
proof {
    assert(queue(Seq::<OperationSeq>::empty()) =~= Seq::<Seq<Op>>::empty());
}
@loop 1
iter it
invariant
    it.seq().len() == my_operations@.len(),
    forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == my_operations@[i],
    through(t0, queue(my_operations@).take(it.index@), their_op_seq@, queue(transformed_my_operations@)),
@loop 1 start
let ghost tt = their_op_seq@;
let ghost qq = transformed_my_operations@;
let ghost mm = my_op_seq@;
proof {
    let i = it.index@;
    lemma_queue_take(my_operations@, i);
    assert forall|tp: Seq<Op>, mp: Seq<Op>, m1: OperationSeq, t2: Seq<Op>|
        pads(tp, tt) && pads(mp, mm) && base(tp) == base(mp) && (base(tp) == base(tt) || base(tp) == base(mm))
        && #[trigger] transformed(mp, tp, m1@, t2) implies
        through(t0, queue(my_operations@).take(i + 1), t2, queue(qq.push(m1))) by {
        lemma_queue_push(qq, m1);
        lemma_through_push(t0, queue(my_operations@).take(i), tt, queue(qq), mm, tp, mp, m1@, t2);
    }
}

@fn OTServer::deltas_for_editor
@props C01
@spec
requires self.inv()
ensures messages_for(r@, self.q(), self.last_confirmed_editor_content@, self.editor_revision)
@loop 1
iter it
invariant
    it.seq().len() == self.editor_queue@.len(),
    forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.editor_queue@[i],
    self.inv(),
    document@ == queue_text(self.q(), it.index@, self.last_confirmed_editor_content@),
    messages_for(to_editor@, self.q().take(it.index@), self.last_confirmed_editor_content@, self.editor_revision),
@loop 1 start
proof {
    let i = it.index@;
    let t = self.last_confirmed_editor_content@;
    lemma_queue_take(self.editor_queue@, i);
    lemma_fold_split(self.q(), i, t);
    lemma_fold_split(self.q(), i + 1, t);
    lemma_fold_push(self.q().take(i), self.q()[i], t);
    assert forall|j: int| 0 <= j <= i implies #[trigger] self.q().take(i + 1).take(j) == self.q().take(i).take(j) by {
        assert(self.q().take(i + 1).take(j) =~= self.q().take(i).take(j));
    }
}

@fn OTServer::current_content
@props C01
@spec
ensures r@ == old(self).current_content@, *final(self) == *old(self)

@fn OTServer::apply_crdt_change
@args delta
@props C01
@spec
requires old(self).inv(), fits(delta.ops(), old(self).current_content@)
ensures crdt_step(*old(self), *final(self), delta.ops(), r)
@entry
vcounter(self.daemon_revision);
let ghost s0 = *self;
proof {
    assert forall|o: OperationSeq| #[trigger] queue(s0.editor_queue@.push(o)) == s0.q().push(o@) by {
        lemma_queue_push(s0.editor_queue@, o);
        lemma_fold_push(s0.q(), o@, s0.last_confirmed_editor_content@);
    }
    assert forall|o: Seq<Op>| #![trigger s0.q().push(o)]
        fold(s0.q().push(o), s0.last_confirmed_editor_content@) == apply(o, s0.current_content@)
        && (fold_ok(s0.q().push(o), s0.last_confirmed_editor_content@) == fits(o, s0.current_content@)) by {
        lemma_fold_push(s0.q(), o, s0.last_confirmed_editor_content@);
    }
}

@fn OTServer::can_apply
@args rev_editor_delta
@props C11 C18
@spec
requires self.inv()
ensures r == self.takes(*rev_editor_delta)
@loop 1
iter it
invariant
    self.inv(), it.seq().len() == seen_operations, seen_operations == self.seen(rev_editor_delta.revision),
    0 <= seen_operations <= self.editor_queue@.len(),
    forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.editor_queue@[i],
    editor_content@ == fold(self.q().take(it.index@), self.last_confirmed_editor_content@),
@loop 1 start
proof {
    let (i, q, t) = (it.index@, self.q(), self.last_confirmed_editor_content@);
    lemma_queue_take(self.editor_queue@, i);
    lemma_fold_push(q.take(i), q[i], t);
    lemma_fold_split(q, i + 1, t);
}
@loop 1 before
proof { assert(self.q().take(0) =~= Seq::<Seq<Op>>::empty()); }
@loop 2
iter it
invariant_except_break
    vx_all1, forall|i: int| 0 <= i < it.index@ ==> range_ok((#[trigger] editor_ops@[i]).range, editor_content@),
invariant
    it.seq().len() == editor_ops@.len(), editor_ops@.len() <= 1,
    forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == editor_ops@[i],
ensures
    vx_all1 == (forall|i: int| 0 <= i < editor_ops@.len() ==> range_ok((#[trigger] editor_ops@[i]).range, editor_content@)),

@fn OTServer::apply_editor_operation
@args rev_editor_delta
@props C01
@spec
requires old(self).inv(), old(self).takes(rev_editor_delta)
ensures editor_step(*old(self), *final(self), rev_editor_delta, r.0.ops(), r.1@)
@entry
vcounter(self.editor_revision);
let ghost s0 = *self;
let ghost n = s0.seen(rev_editor_delta.revision);
let ghost q0 = s0.q();
let ghost t0 = s0.last_confirmed_editor_content@;
proof {
    lemma_queue_take(s0.editor_queue@, n);
    lemma_fold_split(q0, n, t0);
    if n > 0 { assert(q0.take(0).len() == 0); }
}
@loop 1
iter it
invariant
    it.seq() == s0.editor_queue@.take(n), 0 <= n <= s0.editor_queue@.len(),
    n == s0.seen(rev_editor_delta.revision), rev_editor_delta.revision <= s0.daemon_revision,
    fold_ok(q0.take(n), t0), q0 == s0.q(), t0 == s0.last_confirmed_editor_content@,
    self.last_confirmed_editor_content@ == fold(q0.take(it.index@), t0),
    self.editor_queue@ == s0.editor_queue@.skip(n),
    self.editor_revision == s0.editor_revision + 1, self.daemon_revision == s0.daemon_revision,
    self.operations@ == s0.operations@, self.current_content@ == s0.current_content@,
    s0.inv(), fold_ok(q0.skip(n), fold(q0.take(n), t0)), fold(q0.skip(n), fold(q0.take(n), t0)) == s0.current_content@,
    queue(s0.editor_queue@.skip(n)) == q0.skip(n),
@loop 1 start
proof {
    let i = it.index@;
    lemma_queue_take(s0.editor_queue@, i);
    lemma_fold_push(q0.take(i), q0[i], t0);
    lemma_fold_split(q0, i + 1, t0);
}
