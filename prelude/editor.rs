// Meaning of edits as editors send and receive them.

pub open spec fn start_of(r: Range, t: Seq<char>) -> int { pos_offset(t, r.start.line as nat, r.start.character as nat) }
pub open spec fn end_of(r: Range, t: Seq<char>) -> int { pos_offset(t, r.end.line as nat, r.end.character as nat) }

pub open spec fn position_ok(p: Position, t: Seq<char>) -> bool { pos_ok(t, p.line as nat, p.character as nat) }
pub open spec fn position_offset(p: Position, t: Seq<char>) -> int { pos_offset(t, p.line as nat, p.character as nat) }

pub open spec fn range_ok(r: Range, t: Seq<char>) -> bool { position_ok(r.start, t) && position_ok(r.end, t) }

pub open spec fn lo(r: Range, t: Seq<char>) -> int { if start_of(r, t) <= end_of(r, t) { start_of(r, t) } else { end_of(r, t) } }
pub open spec fn hi(r: Range, t: Seq<char>) -> int { if start_of(r, t) <= end_of(r, t) { end_of(r, t) } else { start_of(r, t) } }

/// Replacing the characters from `a` to `b` by `s`.
pub open spec fn replaced(t: Seq<char>, a: int, b: int, s: Seq<char>) -> Seq<char> { t.take(a) + s + t.skip(b) }

/// The steps `ops` do exactly that replacement, on any text that is long enough.
pub open spec fn is_replacement(ops: Seq<Op>, a: int, b: int, s: Seq<char>) -> bool {
    &&& 0 <= a <= b
    &&& base(ops) <= b
    &&& inserted(ops) == s
    &&& forall|t: Seq<char>| b <= t.len() ==> #[trigger] apply(ops, t) == replaced(t, a, b, s)
}

/// An edit message an editor may send when its text is `t` (at most one replacement, as documented).
pub open spec fn edit_ok(d: Seq<EditorTextOp>, t: Seq<char>) -> bool {
    d.len() <= 1 && (d.len() == 1 ==> range_ok(d[0].range, t))
}

/// The editor's text after its own edit.
pub open spec fn edited(d: Seq<EditorTextOp>, t: Seq<char>) -> Seq<char> {
    if d.len() == 0 { t } else { replaced(t, lo(d[0].range, t), hi(d[0].range, t), d[0].replacement@) }
}

pub proof fn lemma_line_start_mono(t: Seq<char>, a: nat, b: nat)
    requires a <= b, b <= line_count(t),
    ensures 0 <= line_start(t, a) <= line_start(t, b) <= t.len(),
{
    lemma_line_start(t, a);
    lemma_line_start(t, b);
    let x = line_start(t, a);
    let y = line_start(t, b);
    if x > y && a != line_count(t) && b != line_count(t) {
        lemma_line_of_mono(t, y, x - 1);
        lemma_line_of_mono(t, y, x);
    }
}

pub proof fn lemma_pos_order(t: Seq<char>, l1: nat, c1: nat, l2: nat, c2: nat)
    requires pos_ok(t, l1, c1), pos_ok(t, l2, c2), l1 < l2 || (l1 == l2 && c1 <= c2),
    ensures 0 <= pos_offset(t, l1, c1) <= pos_offset(t, l2, c2) <= t.len(),
{
    lemma_line_start_mono(t, l1, l1 + 1);
    lemma_line_start_mono(t, l2, l2 + 1);
    if l1 < l2 {
        lemma_line_start_mono(t, l1 + 1, l2);
    }
}

/// Simultaneous edits as offsets.
pub ghost struct Ed { pub a: int, pub b: int, pub s: Seq<char> }

pub open spec fn ed_end(e: Seq<Ed>) -> int { if e.len() == 0 { 0 } else { e.last().b } }

/// In order, not overlapping, inside the text.
pub open spec fn ed_sorted(e: Seq<Ed>, n: int) -> bool
    decreases e.len(),
{
    if e.len() == 0 { 0 <= n } else {
        ed_sorted(e.drop_last(), n) && ed_end(e.drop_last()) <= e.last().a <= e.last().b <= n
    }
}

pub open spec fn ed_out(e: Seq<Ed>, t: Seq<char>) -> Seq<char>
    decreases e.len(),
{
    if e.len() == 0 { Seq::empty() } else {
        ed_out(e.drop_last(), t) + t.subrange(ed_end(e.drop_last()), e.last().a) + e.last().s
    }
}

/// The text after all edits, whose ranges all refer to `t`.
pub open spec fn ed_apply(e: Seq<Ed>, t: Seq<char>) -> Seq<char> { ed_out(e, t) + t.skip(ed_end(e)) }

/// What the edits turn the first `p` characters of `t` into.
pub open spec fn ed_upto(e: Seq<Ed>, t: Seq<char>, p: int) -> Seq<char> { ed_out(e, t) + t.subrange(ed_end(e), p) }

/// Text between two offsets is kept.
pub proof fn lemma_ed_retain(e: Seq<Ed>, t: Seq<char>, p: int, q: int)
    requires 0 <= ed_end(e) <= p <= q <= t.len(),
    ensures ed_upto(e, t, q) == ed_upto(e, t, p) + t.subrange(p, q),
{
    assert(ed_upto(e, t, q) =~= ed_upto(e, t, p) + t.subrange(p, q));
}

pub proof fn lemma_ed_push(e: Seq<Ed>, d: Ed, t: Seq<char>)
    ensures
        ed_end(e.push(d)) == d.b,
        ed_sorted(e.push(d), t.len() as int) == (ed_sorted(e, t.len() as int) && ed_end(e) <= d.a <= d.b <= t.len()),
        0 <= d.b <= t.len() ==> ed_upto(e.push(d), t, d.b) == ed_upto(e, t, d.a) + d.s,
{
    assert(e.push(d).drop_last() =~= e);
    if 0 <= d.b <= t.len() {
        assert(t.subrange(d.b, d.b) =~= Seq::<char>::empty());
        assert(ed_upto(e.push(d), t, d.b) =~= ed_upto(e, t, d.a) + d.s);
    }
}

pub proof fn lemma_ed_finish(e: Seq<Ed>, t: Seq<char>, p: int)
    requires 0 <= ed_end(e) <= p <= t.len(),
    ensures ed_upto(e, t, p) + t.skip(p) == ed_apply(e, t),
{
    assert(ed_upto(e, t, p) + t.skip(p) =~= ed_apply(e, t));
}

pub open spec fn ed_of(o: EditorTextOp, t: Seq<char>) -> Ed {
    Ed { a: start_of(o.range, t), b: end_of(o.range, t), s: o.replacement@ }
}

pub open spec fn eds_of(v: Seq<EditorTextOp>, t: Seq<char>) -> Seq<Ed> { v.map_values(|o: EditorTextOp| ed_of(o, t)) }

/// Applying the message `v` to `t` in an editor yields `u`.
pub open spec fn realises(v: Seq<EditorTextOp>, t: Seq<char>, u: Seq<char>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> range_ok(#[trigger] v[i].range, t)
    &&& ed_sorted(eds_of(v, t), t.len() as int)
    &&& ed_apply(eds_of(v, t), t) == u
}

pub proof fn lemma_eds_push(v: Seq<EditorTextOp>, o: EditorTextOp, t: Seq<char>)
    ensures
        eds_of(v.push(o), t) == eds_of(v, t).push(ed_of(o, t)),
        eds_of(v.push(o), t).drop_last() == eds_of(v, t),
{
    assert(eds_of(v.push(o), t) =~= eds_of(v, t).push(ed_of(o, t)));
    assert(eds_of(v.push(o), t).drop_last() =~= eds_of(v, t));
}

pub proof fn lemma_range(r: Range, t: Seq<char>)
    requires range_ok(r, t),
    ensures 0 <= lo(r, t) <= hi(r, t) <= t.len(),
        r.start == r.end ==> lo(r, t) == hi(r, t),
{
    let (s, e) = (r.start, r.end);
    if s.line < e.line || (s.line == e.line && s.character <= e.character) {
        lemma_pos_order(t, s.line as nat, s.character as nat, e.line as nat, e.character as nat);
    } else {
        lemma_pos_order(t, e.line as nat, e.character as nat, s.line as nat, s.character as nat);
    }
}

/// How far text behind the edits has moved.
pub open spec fn ed_shift(e: Seq<Ed>, t: Seq<char>) -> int { ed_out(e, t).len() - ed_end(e) }

/// Doing one more of the edits, at its place in the text changed so far.
pub proof fn lemma_ed_step(e: Seq<Ed>, t: Seq<char>, i: int)
    requires 0 <= i < e.len(), ed_sorted(e, t.len() as int),
    ensures
        ed_sorted(e.take(i), t.len() as int), ed_sorted(e.take(i + 1), t.len() as int),
        ({
            let (x, d, s) = (ed_apply(e.take(i), t), e[i], ed_shift(e.take(i), t));
            &&& 0 <= d.a <= d.b <= t.len()
            &&& 0 <= d.a + s <= d.b + s <= x.len()
            &&& ed_apply(e.take(i + 1), t) == x.take(d.a + s) + d.s + x.skip(d.b + s)
            &&& ed_shift(e.take(i + 1), t) == s - (d.b - d.a) + d.s.len()
            &&& -t.len() <= s <= ed_apply(e, t).len()
            &&& d.a + s <= ed_apply(e, t).len()
            &&& -t.len() <= s - (d.b - d.a)
            &&& -t.len() <= ed_shift(e.take(i + 1), t) <= ed_apply(e, t).len()
        }),
{
    lemma_ed_prefix(e, t, i);
    lemma_ed_prefix(e, t, i + 1);
    assert(e.take(i + 1) =~= e.take(i).push(e[i]));
    assert(e.take(i).push(e[i]).drop_last() =~= e.take(i));
    let (x, d, s) = (ed_apply(e.take(i), t), e[i], ed_shift(e.take(i), t));
    assert(x.take(d.a + s) =~= ed_out(e.take(i), t) + t.subrange(ed_end(e.take(i)), d.a));
    assert(x.skip(d.b + s) =~= t.skip(d.b));
    assert(ed_apply(e.take(i + 1), t) =~= x.take(d.a + s) + d.s + x.skip(d.b + s));
}

/// The first edits are in order, too, and what they make is a beginning of the whole.
pub proof fn lemma_ed_prefix(e: Seq<Ed>, t: Seq<char>, i: int)
    requires 0 <= i <= e.len(), ed_sorted(e, t.len() as int),
    ensures
        ed_sorted(e.take(i), t.len() as int), 0 <= ed_end(e.take(i)) <= ed_end(e) <= t.len(),
        ed_out(e.take(i), t).len() <= ed_out(e, t).len(),
    decreases e.len(),
{
    if i == e.len() {
        assert(e.take(i) =~= e);
        if e.len() > 0 {
            lemma_ed_prefix(e.drop_last(), t, i - 1);
        }
    } else {
        assert(e.drop_last().take(i) =~= e.take(i));
        lemma_ed_prefix(e.drop_last(), t, i);
    }
}
