// What the effects of patches mean (C09).
pub type Texts = Map<Seq<char>, Seq<char>>;

/// One effect of a message on the shared texts. Names that peers use are those of files.
pub open spec fn effect_step(g: Texts, e: PatchEffect, h: Texts) -> bool {
    match e {
        PatchEffect::FileChange(d) => {
            let k = d.file_path.text();
            &&& normal(k) && h == g.insert(k, h[k])
            &&& (g.dom().contains(k) && fits(d.delta.ops(), g[k]) && h[k] == apply(d.delta.ops(), g[k]))
                || (d.delta.ops().len() == 0 && h[k].len() == 0)
        },
        PatchEffect::FileRemoval(p) => normal(p.text()) && h == g.remove(p.text()),
        PatchEffect::CursorChange(c) => !is_abs(c.file_path.text()) && h == g,
        PatchEffect::NoEffect => h == g,
    }
}

pub open spec fn effect_chain(es: Seq<PatchEffect>, gs: Seq<Texts>, f0: Texts, f1: Texts) -> bool {
    &&& gs.len() == es.len() + 1 && gs[0] == f0 && gs.last() == f1
    &&& forall|i: int| 0 <= i < es.len() ==> effect_step(gs[i], #[trigger] es[i], gs[i + 1])
}

/// These effects lead from one state of the shared texts to another.
pub open spec fn effects_tell(es: Seq<PatchEffect>, f0: Texts, f1: Texts) -> bool {
    exists|gs: Seq<Texts>| #[trigger] effect_chain(es, gs, f0, f1)
}

pub open spec fn changes(es: Seq<PatchEffect>) -> Seq<FileTextDelta>
    decreases es.len(),
{
    if es.len() == 0 { Seq::empty() } else {
        let p = changes(es.drop_last());
        match es.last() { PatchEffect::FileChange(d) => p.push(d), _ => p }
    }
}

pub open spec fn moves(es: Seq<PatchEffect>) -> Seq<CursorState>
    decreases es.len(),
{
    if es.len() == 0 { Seq::empty() } else {
        let p = moves(es.drop_last());
        match es.last() { PatchEffect::CursorChange(c) => p.push(c), _ => p }
    }
}

pub open spec fn removed(es: Seq<PatchEffect>) -> Set<Seq<char>>
    decreases es.len(),
{
    if es.len() == 0 { Set::empty() } else {
        let p = removed(es.drop_last());
        match es.last() { PatchEffect::FileRemoval(x) => p.insert(x.text()), _ => p }
    }
}

/// An effect says what a patch says.
pub open spec fn right_effect(p: Patch, e: PatchEffect) -> bool {
    &&& forall|g: Texts, h: Texts| #[trigger] patch_step(g, p, h) ==> effect_step(g, e, h)
    &&& match patch_cursor(p) { Some(c) => e == PatchEffect::CursorChange(c), None => !(e is CursorChange) }
}

/// Patches that such a document gives.
pub open spec fn usual(p: Patch) -> bool { exists|g: Texts, h: Texts| #[trigger] patch_step(g, p, h) }

pub mod patchlem {
    use super::*;
    pub proof fn lemma_usual(v: Seq<Patch>, f0: Texts, f1: Texts)
        requires patches_tell(v, f0, f1),
        ensures forall|i: int| 0 <= i < v.len() ==> usual(#[trigger] v[i]),
    {
        let gs = choose|gs: Seq<Texts>| #[trigger] patch_chain(v, gs, f0, f1);
        assert forall|i: int| 0 <= i < v.len() implies usual(#[trigger] v[i]) by { assert(patch_step(gs[i], v[i], gs[i + 1])); }
    }

    pub proof fn lemma_effects(v: Seq<Patch>, es: Seq<PatchEffect>)
        requires es.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> right_effect(v[i], #[trigger] es[i]),
        ensures
            moves(es) == told_cursors(v),
            forall|f0: Texts, f1: Texts| #[trigger] patches_tell(v, f0, f1) ==> effects_tell(es, f0, f1),
        decreases v.len(),
    {
        if v.len() > 0 {
            let (w, ds) = (v.drop_last(), es.drop_last());
            assert forall|i: int| 0 <= i < w.len() implies right_effect(w[i], #[trigger] ds[i]) by { assert(right_effect(v[i], es[i])); }
            lemma_effects(w, ds);
            assert(right_effect(v[v.len() - 1], es[v.len() - 1]));
        }
        assert forall|f0: Texts, f1: Texts| #[trigger] patches_tell(v, f0, f1) implies effects_tell(es, f0, f1) by {
            let gs = choose|gs: Seq<Texts>| #[trigger] patch_chain(v, gs, f0, f1);
            assert forall|i: int| 0 <= i < es.len() implies effect_step(gs[i], #[trigger] es[i], gs[i + 1]) by {
                assert(right_effect(v[i], es[i]));
                assert(patch_step(gs[i], v[i], gs[i + 1]));
            }
            assert(effect_chain(es, gs, f0, f1));
        }
    }

    pub proof fn lemma_splice(d: Seq<Op>, e: Seq<Op>, i: nat, s: Seq<char>, t: Seq<char>)
        requires i <= t.len(), same(d, seq![Op::Retain(i)]), same(e, d.push(Op::Insert(s))),
        ensures fits(e, t), apply(e, t) == t.take(i as int) + s + t.skip(i as int),
    {
        lemma_retain(i, t);
        lemma_push(d, Op::Insert(s));
        assert(out(e, t) == out(d.push(Op::Insert(s)), t));
        assert(out(d, t) == t.take(i as int));
    }

    pub proof fn lemma_cut(d: Seq<Op>, e: Seq<Op>, i: nat, n: nat, t: Seq<char>)
        requires i + n <= t.len(), same(d, seq![Op::Retain(i)]), same(e, d.push(Op::Delete(n))),
        ensures fits(e, t), apply(e, t) == t.take(i as int) + t.skip((i + n) as int),
    {
        lemma_retain(i, t);
        lemma_push(d, Op::Delete(n));
        assert(out(e, t) == out(d.push(Op::Delete(n)), t));
        assert(out(d, t) == t.take(i as int));
    }

    pub proof fn lemma_splices(e: Seq<Op>, i: nat, s: Seq<char>)
        requires exists|d: Seq<Op>, z: Seq<Op>| z.len() == 0 && #[trigger] same(d, z.push(Op::Retain(i))) && #[trigger] same(e, d.push(Op::Insert(s))),
        ensures forall|t: Seq<char>| i <= t.len() ==> #[trigger] fits(e, t) && apply(e, t) == t.take(i as int) + s + t.skip(i as int),
    {
        let (d, z) = choose|d: Seq<Op>, z: Seq<Op>| z.len() == 0 && #[trigger] same(d, z.push(Op::Retain(i))) && #[trigger] same(e, d.push(Op::Insert(s)));
        assert(z.push(Op::Retain(i)) =~= seq![Op::Retain(i)]);
        assert forall|t: Seq<char>| i <= t.len() implies #[trigger] fits(e, t) && apply(e, t) == t.take(i as int) + s + t.skip(i as int) by { lemma_splice(d, e, i, s, t); }
    }

    pub proof fn lemma_cuts(e: Seq<Op>, i: nat, n: nat)
        requires exists|d: Seq<Op>, z: Seq<Op>| z.len() == 0 && #[trigger] same(d, z.push(Op::Retain(i))) && #[trigger] same(e, d.push(Op::Delete(n))),
        ensures forall|t: Seq<char>| i + n <= t.len() ==> #[trigger] fits(e, t) && apply(e, t) == t.take(i as int) + t.skip((i + n) as int),
    {
        let (d, z) = choose|d: Seq<Op>, z: Seq<Op>| z.len() == 0 && #[trigger] same(d, z.push(Op::Retain(i))) && #[trigger] same(e, d.push(Op::Delete(n)));
        assert(z.push(Op::Retain(i)) =~= seq![Op::Retain(i)]);
        assert forall|t: Seq<char>| i + n <= t.len() implies #[trigger] fits(e, t) && apply(e, t) == t.take(i as int) + t.skip((i + n) as int) by { lemma_cut(d, e, i, n, t); }
    }

    proof fn lemma_retain(i: nat, t: Seq<char>)
        requires i <= t.len(),
        ensures base(seq![Op::Retain(i)]) == i, out(seq![Op::Retain(i)], t) == t.take(i as int),
    {
        let o = seq![Op::Retain(i)];
        assert(o =~= Seq::<Op>::empty().push(Op::Retain(i)));
        lemma_push(Seq::empty(), Op::Retain(i));
        assert(o.drop_last() =~= Seq::<Op>::empty());
        assert(base(Seq::<Op>::empty()) == 0);
        assert(out(Seq::<Op>::empty(), t) =~= Seq::<char>::empty());
        assert(t.subrange(0, i as int) =~= t.take(i as int));
        assert(out(o, t) == out(Seq::<Op>::empty(), t) + t.subrange(0, i as int));
        assert(out(o, t) =~= t.take(i as int));
    }
}
