@source daemon/src/types.rs

@fn RevisionedEditorTextDelta::new
@args revision delta
@props C01
@spec
ensures r.revision == revision, r.delta == delta

@fn RevisionedTextDelta::new
@args revision delta
@props C01 C02
@spec
ensures r.revision == revision, r.delta == delta

@fn FileTextDelta::new
@args file_path delta
@props C09
@spec
ensures r.file_path == file_path, r.delta == delta

@fn <IntoIterator for TextDelta>::into_iter
@props C01 C02 C03 C04
@spec
ensures IteratorSpec::remaining(&r) == self.0@, IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::decrease(&r) is Some

@fn <IntoIterator for EditorTextDelta>::into_iter
@props C01 C02 C04
@spec
ensures IteratorSpec::remaining(&r) == self.0@, IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::decrease(&r) is Some

@fn Range::is_empty
@props C01 C02 C04
@spec
ensures r == (self.start == self.end)

@fn Range::is_forward
@props C01 C02 C04
@spec
ensures r == (self.start.line < self.end.line || (self.start.line == self.end.line && self.start.character <= self.end.character))

@fn Range::as_relative
@args content
@props C01 C02 C04
@spec
requires range_ok(*self, content@)
ensures r.0 == lo(*self, content@), r.0 + r.1 == hi(*self, content@)
@entry
proof {
    let t = content@;
    let (s, e) = (self.start, self.end);
    if s.line < e.line || (s.line == e.line && s.character <= e.character) {
        lemma_pos_order(t, s.line as nat, s.character as nat, e.line as nat, e.character as nat);
    } else {
        lemma_pos_order(t, e.line as nat, e.character as nat, s.line as nat, s.character as nat);
    }
}

@fn Position::from_offset
@args full_offset content
@props C01 C03 C04
@spec
requires full_offset <= content@.len()
ensures position_ok(r, content@), position_offset(r, content@) == full_offset
@entry
proof {
    let t = content@;
    let l = line_of(t, full_offset as int);
    lemma_line_start_exists(t, l, full_offset as int);
    let n = choose|n: int| is_line_start(t, l, n) && n <= full_offset;
    lemma_line_of_mono(t, full_offset as int, t.len() as int);
    lemma_line_start(t, l);
    lemma_line_start_unique(t, l, n, line_start(t, l));
    lemma_line_start(t, l + 1);
    if line_start(t, l + 1) < full_offset {
        lemma_line_of_mono(t, line_start(t, l + 1), full_offset as int);
    }
    axiom_text_len(content);
}

@fn Position::is_within
@props C11 C18
@spec
ensures r == position_ok(*self, content@)
@entry
proof {
    axiom_text_len(content);
    lemma_line_start_mono(content@, self.line as nat, (self.line + 1) as nat);
}

@fn Range::is_within
@args content
@props C11 C18
@spec
ensures r == range_ok(*self, content@)

@fn Position::to_offset
@args content
@props C01 C02 C03 C04
@spec
requires position_ok(*self, content@)
ensures r == position_offset(*self, content@)
@entry
proof {
    axiom_text_len(content);
    lemma_line_start_mono(content@, self.line as nat, (self.line + 1) as nat);
}

@fn TextDelta::retain
@args n
@props C01 C02 C04
@spec
ensures
    n == 0 ==> final(self).0@ == old(self).0@,
    n != 0 ==> final(self).0@ == old(self).0@.push(TextOp::Retain(n)),
    same(final(self).ops(), old(self).ops().push(Op::Retain(n as nat))),
@entry
proof {
    lemma_ops_push(old(self).0@, TextOp::Retain(n));
    lemma_push(old(self).ops(), Op::Retain(n as nat));
    if n == 0 {
        assert forall|t: Seq<char>| t.len() >= base(old(self).ops()) implies #[trigger] out(old(self).ops(), t) == out(old(self).ops().push(Op::Retain(0)), t) by {
            lemma_pad(old(self).ops(), 0, t);
            assert(out(old(self).ops(), t) =~= out(old(self).ops().push(Op::Retain(0)), t));
        }
    }
}

@fn TextDelta::insert
@args s
@props C01 C02 C04
@spec
ensures
    s@.len() == 0 ==> final(self).0@ == old(self).0@,
    s@.len() != 0 ==> final(self).0@.len() == old(self).0@.len() + 1,
    same(final(self).ops(), old(self).ops().push(Op::Insert(s@))),
    s@.len() != 0 ==> final(self).ops() == old(self).ops().push(Op::Insert(s@)),
@entry
proof {
    lemma_push(old(self).ops(), Op::Insert(s@));
    assert forall|o: TextOp| ops_of(#[trigger] old(self).0@.push(o)) == old(self).ops().push(op_of(o)) by {
        lemma_ops_push(old(self).0@, o);
    }
    if s@.len() == 0 {
        assert(inserted(old(self).ops()) =~= inserted(old(self).ops().push(Op::Insert(s@))));
        assert forall|t: Seq<char>| t.len() >= base(old(self).ops()) implies #[trigger] out(old(self).ops(), t) == out(old(self).ops().push(Op::Insert(s@)), t) by {
            assert(out(old(self).ops(), t) =~= out(old(self).ops().push(Op::Insert(s@)), t));
        }
    }
}

@fn TextDelta::delete
@args n
@props C01 C02 C04
@spec
ensures
    n == 0 ==> final(self).0@ == old(self).0@,
    n != 0 ==> final(self).0@ == old(self).0@.push(TextOp::Delete(n)),
    same(final(self).ops(), old(self).ops().push(Op::Delete(n as nat))),
@entry
proof {
    lemma_ops_push(old(self).0@, TextOp::Delete(n));
    lemma_push(old(self).ops(), Op::Delete(n as nat));
}

@fn <From<OperationSeq> for TextDelta>::from
@props C01 C02 C04
@traitspec
open spec fn vinto_req(self) -> bool { true }
open spec fn vinto_ens(self, r: TextDelta) -> bool { same(r.ops(), self@) }
@loop 1
iter it
invariant
    same(delta.ops(), otops_of(deref_ops(it.seq()).take(it.index@))),
    otops_of(deref_ops(it.seq())) == self@,
    forall|i: int| 0 <= i < it.seq().len() ==> otop_small(*#[trigger] it.seq()[i]),
@loop 1 start
proof {
    let i = it.index@;
    let v = deref_ops(it.seq());
    lemma_otops_take(v, i);
    lemma_same_push(delta.ops(), otops_of(v.take(i)), otop_of(v[i]));
}
let ghost d0 = delta.ops();
@loop 1 end
proof {
    let i = it.index@;
    let v = deref_ops(it.seq());
    lemma_same_trans(delta.ops(), d0.push(otop_of(v[i])), otops_of(v.take(i + 1)));
}
@loop 1 before
proof { lemma_same_refl(delta.ops()); }

@fn <From<TextDelta> for OperationSeq>::from
@props C01 C02 C04
@traitspec
open spec fn vinto_req(self) -> bool { true }
open spec fn vinto_ens(self, r: OperationSeq) -> bool { same(r@, self.ops()) }
@loop 1
iter it
invariant same(op_seq@, ops_of(it.seq().take(it.index@))), it.seq() == self.0@,
@loop 1 start
proof {
    lemma_delta_take(self.0@, it.index@);
    lemma_same_push(op_seq@, ops_of(it.seq().take(it.index@)), op_of(op));
}
let ghost d0 = op_seq@;
let ghost op0 = op;
@loop 1 end
proof {
    lemma_same_trans(op_seq@, d0.push(op_of(op0)), ops_of(it.seq().take(it.index@ + 1)));
}

@fn TextDelta::compose
@args other
@props C01 C02 C04
@spec
ensures
    base(r.ops()) == base(self.ops()) + if base(other.ops()) > target(self.ops()) { base(other.ops()) - target(self.ops()) } else { 0 },
    inserted(self.ops()).len() == 0 ==> inserted(r.ops()) == inserted(other.ops()),
    forall|t: Seq<char>| t.len() >= base(r.ops()) ==> #[trigger] apply(r.ops(), t) == apply(other.ops(), apply(self.ops(), t)),
@entry
proof {
    let (a, b) = (self.ops(), other.ops());
    assert forall|a1: Seq<Op>, b1: Seq<Op>, c: Seq<Op>, t: Seq<char>|
        pads(a1, a) && pads(b1, b) && #[trigger] composed(a1, b1, c) && t.len() >= base(c) implies #[trigger] apply(c, t) == apply(b, apply(a, t)) by {
        lemma_compose(a, b, a1, b1, c, t);
    }
}

@fn TextDelta::from_ed_delta
@args ed_delta content
@props C01 C02 C04
@spec
requires edit_ok(ed_delta.0@, content@)
ensures
    ed_delta.0@.len() == 0 ==> same(r.ops(), Seq::empty()),
    ed_delta.0@.len() == 1 ==> {
        let e = ed_delta.0@[0];
        is_replacement(r.ops(), lo(e.range, content@), hi(e.range, content@), e.replacement@)
    },
    fits(r.ops(), content@), apply(r.ops(), content@) == edited(ed_delta.0@, content@),
@loop 1
iter it
invariant
    it.seq() == ed_delta.0@, it.seq().len() <= 1, edit_ok(ed_delta.0@, content@),
    it.index@ == 0 ==> delta.ops().len() == 0,
    it.index@ == 1 ==> {
        let e = ed_delta.0@[0];
        is_replacement(delta.ops(), lo(e.range, content@), hi(e.range, content@), e.replacement@)
    },
@loop 1 start
proof {
    lemma_range(ed_delta.0@[0].range, content@);
    assert(delta.ops() =~= Seq::<Op>::empty());
}
@loop 1 end
proof {
    let e = ed_delta.0@[0];
    let (a, b) = (lo(e.range, content@), hi(e.range, content@));
    let x = delta_step.ops();
    assert(base(x) <= b);
    assert(inserted(x) =~= e.replacement@);
    assert forall|t: Seq<char>| b <= t.len() implies #[trigger] apply(delta.ops(), t) == replaced(t, a, b, e.replacement@) by {
        assert(apply(Seq::<Op>::empty(), t) =~= t);
        if base(x) == b {
            assert(t.subrange(0, a) =~= t.take(a));
            assert(out(x, t) =~= t.take(a) + e.replacement@);
        } else {
            assert(base(x) == 0 && out(x, t).len() == 0 && a == b && e.replacement@.len() == 0);
        }
        assert(apply(x, t) =~= replaced(t, a, b, e.replacement@));
    }
}
@entry
proof {
    let t = content@;
    if ed_delta.0@.len() == 1 {
        lemma_range(ed_delta.0@[0].range, t);
    }
    assert(apply(Seq::<Op>::empty(), t) =~= t);
}

@fn RevisionedTextDelta::from_rev_ed_delta
@args rev_ed_delta content
@props C01 C02
@spec
requires edit_ok(rev_ed_delta.delta.0@, content@)
ensures
    r.revision == rev_ed_delta.revision,
    rev_ed_delta.delta.0@.len() == 0 ==> same(r.delta.ops(), Seq::empty()),
    rev_ed_delta.delta.0@.len() == 1 ==> {
        let e = rev_ed_delta.delta.0@[0];
        is_replacement(r.delta.ops(), lo(e.range, content@), hi(e.range, content@), e.replacement@)
    },
    fits(r.delta.ops(), content@), apply(r.delta.ops(), content@) == edited(rev_ed_delta.delta.0@, content@),

@fn EditorTextDelta::from_delta
@args delta content
@props C01 C03 C04
@spec
requires fits(delta.ops(), content@)
ensures realises(r.0@, content@, apply(delta.ops(), content@))
@entry
proof { axiom_text_len(content); }
@loop 1
iter it
invariant
    it.seq() == delta.0@, fits(delta.ops(), content@), content@.len() <= isize::MAX,
    position == base(ops_of(it.seq().take(it.index@))),
    ed_sorted(eds_of(editor_ops@, content@), content@.len() as int),
    forall|i: int| 0 <= i < editor_ops@.len() ==> range_ok(#[trigger] editor_ops@[i].range, content@),
    0 <= ed_end(eds_of(editor_ops@, content@)) <= position <= content@.len(),
    ed_upto(eds_of(editor_ops@, content@), content@, position as int) == out(ops_of(it.seq().take(it.index@)), content@),
@loop 1 start
proof {
    lemma_delta_take(delta.0@, it.index@);
    assert forall|o: EditorTextOp| eds_of(#[trigger] editor_ops@.push(o), content@) == eds_of(editor_ops@, content@).push(ed_of(o, content@)) by {
        lemma_eds_push(editor_ops@, o, content@);
    }
    let (e, t) = (eds_of(editor_ops@, content@), content@);
    let p = position as int;
    assert forall|d: Ed| #[trigger] ed_sorted(e.push(d), t.len() as int) == (ed_end(e) <= d.a <= d.b <= t.len())
        && ed_end(e.push(d)) == d.b by { lemma_ed_push(e, d, t); }
    assert forall|d: Ed, q: int| d.b == q && 0 <= q <= t.len() implies #[trigger] ed_upto(e.push(d), t, q) == ed_upto(e, t, d.a) + d.s
        && (d.s.len() == 0 ==> ed_upto(e.push(d), t, q) == ed_upto(e, t, d.a)) by {
        lemma_ed_push(e, d, t);
        if d.s.len() == 0 { assert(ed_upto(e, t, d.a) + d.s =~= ed_upto(e, t, d.a)); }
    }
    assert forall|q: int| p <= q <= t.len() implies #[trigger] ed_upto(e, t, q) == ed_upto(e, t, p) + t.subrange(p, q) by {
        lemma_ed_retain(e, t, p, q);
    }
}
@loop 1 after
proof { lemma_ed_finish(eds_of(editor_ops@, content@), content@, position as int); lemma_take_zero(delta.0@); }

@fn <From<Vec<Chunk>> for TextDelta>::from
@props C01 C04 C05 C08 C10
@traitspec
open spec fn vinto_req(self) -> bool { true }
open spec fn vinto_ens(self, r: TextDelta) -> bool { chunk_delta(r.ops(), self@) }
@entry
let ghost cs = chunks@;
let ghost t = chunks_old(cs);
@loop 1
iter it
invariant
    it.seq() == vx_it1@, vx_it1@ == cs, t == chunks_old(cs),
    chunks_old(cs.take(it.index@)).is_prefix_of(t),
    base(delta.ops()) == chunks_old(cs.take(it.index@)).len(),
    out(delta.ops(), t) == chunks_new(cs.take(it.index@)),
@loop 1 start
proof { lemma_chunk(cs, it.index@); }
@loop 1 after
proof { assert(cs.take(cs.len() as int) =~= cs); assert(t.skip(t.len() as int) =~= Seq::<char>::empty()); }
