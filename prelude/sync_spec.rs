// What a synchronization message does (C09, C11, C18).
/// The editors no longer have these files open.
pub open spec fn forgot_at(c0: (EditorConnection, EditorWriter), c1: (EditorConnection, EditorWriter), s: Set<Seq<char>>) -> bool {
    c1.1 == c0.1 && c1.0.inv() && c1.0.same_editor(c0.0) && c1.0.open() == c0.0.open().remove_keys(s)
}

pub open spec fn forgot(m0: Editors, m1: Editors, s: Set<Seq<char>>) -> bool {
    &&& m1.dom() == m0.dom()
    &&& forall|e: int| #[trigger] m0.dom().contains(e) ==> forgot_at(m0[e], m1[e], s)
}

pub open spec fn removable(base: Seq<char>, k: Seq<char>) -> bool { inside(base, file_loc(base, k)) && can_remove(file_loc(base, k)->0) }

/// These files are gone from the directory, and no others.
pub open spec fn cleared(base: Seq<char>, s: Set<Seq<char>>, w0: VWorld, w1: VWorld) -> bool {
    &&& forall|loc: Names| #[trigger] same_file(w0, w1, loc)
            || (!w1.files@.dom().contains(loc) && exists|k: Seq<char>| #[trigger] s.contains(k) && file_loc(base, k) == Some(loc))
    &&& forall|k: Seq<char>| #[trigger] s.contains(k) && removable(base, k) ==> !w1.files@.dom().contains(file_loc(base, k)->0)
}

pub open spec fn cleared_one(base: Seq<char>, k: Seq<char>, w0: VWorld, w1: VWorld) -> bool {
    let loc = file_loc(base, k);
    if removable(base, k) && w0.files@.dom().contains(loc->0) { w1.gone(w0, loc->0) } else { w1 == w0 }
}

pub open spec fn edit_told(d: FileTextDelta, m: ComponentMessage) -> bool {
    m is Edit && m->Edit_file_path == d.file_path && m->delta == d.delta
}

pub open spec fn move_told(c: CursorState, m: ComponentMessage) -> bool {
    m is Cursor && m->cursor_id@ == c.cursor_id@ && same_name(c.name, m->name) && m->Cursor_file_path == c.file_path && m->ranges@ == c.ranges@
}

/// Something is told to all editors, one after the other.
pub open spec fn told_in_turn(ms: Seq<Editors>, v: Seq<ComponentMessage>, m0: Editors, m1: Editors) -> bool {
    &&& ms.len() == v.len() + 1 && ms[0] == m0 && ms.last() == m1
    &&& forall|i: int| 0 <= i < v.len() ==> all_told(ms[i], ms[i + 1], None, #[trigger] v[i])
}

/// Editors are brought to the shared text.
pub open spec fn caught_up_in_turn(ms: Seq<Editors>, v: Seq<(int, Seq<char>)>, base: Seq<char>, s: Set<Seq<char>>, f: Texts, m0: Editors, m1: Editors) -> bool {
    &&& ms.len() == v.len() + 1 && ms[0] == m0 && ms.last() == m1
    &&& forall|i: int| 0 <= i < v.len() ==> caught_up(ms[i], ms[i + 1], (#[trigger] v[i]).0, base, v[i].1, f) && s.contains(v[i].1)
}

pub struct SyncRun {
    pub patches: Seq<Patch>,
    pub es: Seq<PatchEffect>,
    pub left: Editors, pub disk: VWorld,
    pub told: Seq<Editors>, pub edits: Seq<ComponentMessage>,
    pub up: Seq<Editors>, pub who: Seq<(int, Seq<char>)>,
    pub moved: Seq<Editors>, pub cursors: Seq<ComponentMessage>,
}

/// Removed files are forgotten and removed; changed ones are written unless an editor owns them; all
/// editors hear of all changes in order and end up with the shared text; then of cursors.
pub open spec fn sync_run(a0: DocumentActor, a1: DocumentActor, w0: VWorld, w1: VWorld, x: SyncRun) -> bool {
    let (base, f) = (a0.base(), a1.shared());
    let (ds, cs) = (changes(x.es), moves(x.es));
    &&& a1.base_dir == a0.base_dir && a1.save_fully == a0.save_fully
    &&& a1.crdt_doc.doc.covered() == a0.crdt_doc.doc.covered() && a1.crdt_doc.doc.actor() == a0.crdt_doc.doc.actor()
    &&& patches_tell(x.patches, a0.shared(), f) && effects_tell(x.es, a0.shared(), f) && cs == told_cursors(x.patches)
    &&& forgot(a0.editors(), x.left, removed(x.es)) && cleared(base, removed(x.es), w0, x.disk)
    &&& all_written(x.left, f, base, delta_files(ds), x.disk, w1)
    &&& x.edits.len() == ds.len() && forall|i: int| 0 <= i < ds.len() ==> edit_told(#[trigger] ds[i], x.edits[i])
    &&& told_in_turn(x.told, x.edits, x.left, x.up[0])
    &&& caught_up_in_turn(x.up, x.who, base, delta_files(ds), f, x.up[0], x.moved[0])
    &&& x.cursors.len() == cs.len() && forall|i: int| 0 <= i < cs.len() ==> move_told(#[trigger] cs[i], x.cursors[i])
    &&& told_in_turn(x.moved, x.cursors, x.moved[0], a1.editors())
}

pub open spec fn syncs(a0: DocumentActor, a1: DocumentActor, w0: VWorld, w1: VWorld) -> bool {
    exists|x: SyncRun| #[trigger] sync_run(a0, a1, w0, w1, x)
}

// ---- the way there

pub open spec fn agree_at(a: Texts, b: Texts, q: Seq<char>) -> bool {
    a.dom().contains(q) == b.dom().contains(q) && (a.dom().contains(q) ==> a[q] == b[q])
}

pub open spec fn agree(a: Texts, b: Texts, rem: Set<Seq<char>>) -> bool {
    forall|q: Seq<char>| !rem.contains(q) ==> #[trigger] agree_at(a, b, q)
}

/// A change as seen by those who don't have the removed files.
pub open spec fn told_step(t: Texts, d: FileTextDelta, u: Texts, rem: Set<Seq<char>>) -> bool {
    let k = d.file_path.text();
    &&& normal(k)
    &&& !rem.contains(k) ==> u.dom().contains(k)
        && ((t.dom().contains(k) && fits(d.delta.ops(), t[k]) && u[k] == apply(d.delta.ops(), t[k])) || (d.delta.ops().len() == 0 && u[k].len() == 0))
    &&& forall|q: Seq<char>| q != k && !rem.contains(q) ==> #[trigger] agree_at(t, u, q)
}

pub open spec fn told_steps(ds: Seq<FileTextDelta>, ts: Seq<Texts>, rem: Set<Seq<char>>) -> bool {
    &&& ts.len() == ds.len() + 1
    &&& forall|i: int| 0 <= i < ds.len() ==> told_step(ts[i], #[trigger] ds[i], ts[i + 1], rem)
}

pub open spec fn trail(es: Seq<PatchEffect>, gs: Seq<Texts>, n: nat) -> Seq<Texts>
    decreases n,
{
    if n == 0 { seq![gs[0]] } else {
        let p = trail(es, gs, (n - 1) as nat);
        match es[n - 1] { PatchEffect::FileChange(_) => p.push(gs[n as int]), _ => p }
    }
}

/// The shared text so far begins an editor's text; it is all of it for files not changed so far.
pub open spec fn heard_at(c: EditorConnection, t: Texts, done: Set<Seq<char>>, rem: Set<Seq<char>>) -> bool {
    forall|k: Seq<char>| #[trigger] c.open().dom().contains(k) ==> !rem.contains(k) && t.dom().contains(k)
        && t[k].is_prefix_of(c.open()[k].current_content@) && (done.contains(k) || t[k] == c.open()[k].current_content@)
}

pub open spec fn heard(m: Editors, t: Texts, done: Set<Seq<char>>, rem: Set<Seq<char>>) -> bool {
    forall|e: int| #[trigger] m.dom().contains(e) ==> heard_at(m[e].0, t, done, rem)
}

/// Editors have the shared text, but for these files.
pub open spec fn level_at(c: EditorConnection, f: Texts, but: Set<Seq<char>>) -> bool {
    forall|k: Seq<char>| #[trigger] c.open().dom().contains(k) ==> f.dom().contains(k) && (but.contains(k) || c.open()[k].current_content@ == f[k])
}

pub open spec fn level(m: Editors, f: Texts, but: Set<Seq<char>>) -> bool {
    forall|e: int| #[trigger] m.dom().contains(e) ==> level_at(m[e].0, f, but)
}

/// Files still to be looked at.
pub open spec fn left_over(ds: Seq<FileTextDelta>, i: int) -> Set<Seq<char>> {
    delta_files(ds).difference(delta_files(ds.take(i)))
}

pub mod synclem {
    use super::*;

    pub proof fn lemma_changes(es: Seq<PatchEffect>, i: int)
        requires 0 <= i < es.len(),
        ensures
            changes(es.take(i + 1)) == (match es[i] { PatchEffect::FileChange(d) => changes(es.take(i)).push(d), _ => changes(es.take(i)) }),
            moves(es.take(i + 1)) == (match es[i] { PatchEffect::CursorChange(c) => moves(es.take(i)).push(c), _ => moves(es.take(i)) }),
            removed(es.take(i + 1)) == (match es[i] { PatchEffect::FileRemoval(x) => removed(es.take(i)).insert(x.text()), _ => removed(es.take(i)) }),
    {
        assert(es.take(i + 1).drop_last() =~= es.take(i));
    }

    pub proof fn lemma_removed(es: Seq<PatchEffect>, i: int, k: Seq<char>)
        requires 0 <= i <= es.len(), removed(es.take(i)).contains(k),
        ensures removed(es).contains(k),
        decreases es.len() - i,
    {
        if i < es.len() {
            lemma_changes(es, i);
            lemma_removed(es, i + 1, k);
        } else {
            assert(es.take(i) =~= es);
        }
    }

    pub proof fn lemma_trail(es: Seq<PatchEffect>, gs: Seq<Texts>, f0: Texts, f1: Texts, n: nat)
        requires effect_chain(es, gs, f0, f1), n <= es.len(),
        ensures
            told_steps(changes(es.take(n as int)), trail(es, gs, n), removed(es)),
            trail(es, gs, n)[0] == f0,
            agree(trail(es, gs, n).last(), gs[n as int], removed(es)),
        decreases n,
    {
        let rem = removed(es);
        if n > 0 {
            let i = (n - 1) as nat;
            lemma_trail(es, gs, f0, f1, i);
            lemma_changes(es, i as int);
            let (ds, ts) = (changes(es.take(i as int)), trail(es, gs, i));
            let (g, h) = (gs[i as int], gs[i as int + 1]);
            assert(effect_step(g, es[i as int], h));
            match es[i as int] {
                PatchEffect::FileChange(d) => {
                    let k = d.file_path.text();
                    let us = ts.push(h);
                    assert forall|q: Seq<char>| q != k && !rem.contains(q) implies #[trigger] agree_at(ts.last(), h, q) by {
                        assert(agree_at(ts.last(), g, q));
                    }
                    if !rem.contains(k) { assert(agree_at(ts.last(), g, k)); }
                    assert(told_step(ts.last(), d, h, rem));
                    assert forall|j: int| 0 <= j < ds.push(d).len() implies told_step(us[j], #[trigger] ds.push(d)[j], us[j + 1], rem) by {
                        if j < ds.len() { assert(told_step(ts[j], ds[j], ts[j + 1], rem)); }
                    }
                    assert forall|q: Seq<char>| !rem.contains(q) implies #[trigger] agree_at(us.last(), h, q) by {}
                },
                PatchEffect::FileRemoval(p) => {
                    lemma_removed(es, i as int + 1, p.text());
                    assert forall|q: Seq<char>| !rem.contains(q) implies #[trigger] agree_at(ts.last(), h, q) by {
                        assert(agree_at(ts.last(), g, q));
                    }
                },
                _ => {},
            }
        } else {
            assert(es.take(0).len() == 0);
            assert forall|q: Seq<char>| !rem.contains(q) implies #[trigger] agree_at(gs[0], gs[0], q) by {}
        }
    }

    pub proof fn lemma_change_normal(es: Seq<PatchEffect>, gs: Seq<Texts>, f0: Texts, f1: Texts)
        requires effect_chain(es, gs, f0, f1),
        ensures
            forall|i: int| 0 <= i < changes(es).len() ==> normal((#[trigger] changes(es)[i]).file_path.text()),
            forall|i: int| 0 <= i < moves(es).len() ==> !is_abs((#[trigger] moves(es)[i]).file_path.text()),
        decreases es.len(),
    {
        if es.len() > 0 {
            let p = es.drop_last();
            let hs = gs.drop_last();
            assert(effect_step(gs[es.len() - 1], es[es.len() - 1], gs[es.len() - 1 + 1]));
            assert forall|i: int| 0 <= i < p.len() implies effect_step(hs[i], #[trigger] p[i], hs[i + 1]) by {
                assert(effect_step(gs[i], es[i], gs[i + 1]));
            }
            assert(effect_chain(p, hs, f0, hs.last()));
            lemma_change_normal(p, hs, f0, hs.last());
            assert forall|i: int| 0 <= i < changes(es).len() implies normal((#[trigger] changes(es)[i]).file_path.text()) by {
                if i < changes(p).len() { assert(normal(changes(p)[i].file_path.text())); }
            }
            assert forall|i: int| 0 <= i < moves(es).len() implies !is_abs((#[trigger] moves(es)[i]).file_path.text()) by {
                if i < moves(p).len() { assert(!is_abs(moves(p)[i].file_path.text())); }
            }
        }
    }

    pub proof fn lemma_forgot_none(m: Editors, base: Seq<char>)
        requires conns_ok(m, base),
        ensures forgot(m, m, Set::empty()),
    {
        assert forall|e: int| #[trigger] m.dom().contains(e) implies forgot_at(m[e], m[e], Set::empty()) by {
            assert(m[e].0.open().remove_keys(Set::empty()) =~= m[e].0.open());
        }
    }

    pub proof fn lemma_forgot_more(a: Editors, b: Editors, c: Editors, s: Set<Seq<char>>, k: Seq<char>)
        requires forgot(a, b, s), c.dom() == b.dom(), forall|e: int| #[trigger] b.dom().contains(e) ==> forgot_one(b[e], c[e], k),
        ensures forgot(a, c, s.insert(k)),
    {
        assert forall|e: int| #[trigger] a.dom().contains(e) implies forgot_at(a[e], c[e], s.insert(k)) by {
            assert(b.dom().contains(e));
            assert(forgot_at(a[e], b[e], s));
            assert(a[e].0.open().remove_keys(s).remove(k) =~= a[e].0.open().remove_keys(s.insert(k)));
        }
    }

    pub proof fn lemma_cleared_more(base: Seq<char>, s: Set<Seq<char>>, k: Seq<char>, w0: VWorld, w1: VWorld, w2: VWorld)
        requires cleared(base, s, w0, w1), cleared_one(base, k, w1, w2),
        ensures cleared(base, s.insert(k), w0, w2),
    {
        let t = s.insert(k);
        assert forall|loc: Names| #[trigger] same_file(w0, w2, loc)
            || (!w2.files@.dom().contains(loc) && exists|k: Seq<char>| #[trigger] t.contains(k) && file_loc(base, k) == Some(loc)) by
        {
            if !same_file(w0, w2, loc) {
                if same_file(w0, w1, loc) {
                    assert(t.contains(k) && file_loc(base, k) == Some(loc));
                } else {
                    let j = choose|j: Seq<char>| #[trigger] s.contains(j) && file_loc(base, j) == Some(loc);
                    assert(t.contains(j));
                }
            }
        }
        assert forall|j: Seq<char>| #[trigger] t.contains(j) && removable(base, j) implies !w2.files@.dom().contains(file_loc(base, j)->0) by {
            if j != k { assert(s.contains(j)); }
        }
    }

    pub proof fn lemma_start(m0: Editors, m1: Editors, f: Texts, t: Texts, rem: Set<Seq<char>>)
        requires synced(m0, f), forgot(m0, m1, rem), t == f,
        ensures heard(m1, t, Set::empty(), rem),
    {
        assert forall|e: int| #[trigger] m1.dom().contains(e) implies heard_at(m1[e].0, t, Set::empty(), rem) by {
            assert(m0.dom().contains(e));
            assert(forgot_at(m0[e], m1[e], rem));
            assert(conn_synced(m0[e].0, f));
            assert forall|k: Seq<char>| #[trigger] m1[e].0.open().dom().contains(k) implies !rem.contains(k) && t.dom().contains(k)
                && t[k].is_prefix_of(m1[e].0.open()[k].current_content@) && t[k] == m1[e].0.open()[k].current_content@ by
            {
                assert(m0[e].0.open().dom().contains(k));
            }
        }
    }

    /// A change that fits the beginning of a text.
    pub proof fn lemma_prefix(d: Seq<Op>, p: Seq<char>, q: Seq<char>)
        requires fits(d, p), p.is_prefix_of(q),
        ensures fits(d, q), apply(d, p).is_prefix_of(apply(d, q)), p.len() == q.len() ==> apply(d, p) == apply(d, q),
    {
        lemma_out_prefix(d, p, q);
        let n = base(d) as int;
        assert(out(d, p) == out(d, q));
        let r = q.skip(p.len() as int);
        assert(q.skip(n) =~= p.skip(n) + r);
        assert(apply(d, q) =~= apply(d, p) + r);
        assert(apply(d, q).subrange(0, apply(d, p).len() as int) =~= apply(d, p));
        if p.len() == q.len() { assert(p =~= q); }
    }

    pub proof fn lemma_out_prefix(d: Seq<Op>, p: Seq<char>, q: Seq<char>)
        requires fits(d, p), p.is_prefix_of(q),
        ensures out(d, p) == out(d, q),
        decreases d.len(),
    {
        if d.len() > 0 {
            let c = d.drop_last();
            lemma_out_prefix(c, p, q);
            match d.last() {
                Op::Retain(n) => {
                    assert(p =~= q.subrange(0, p.len() as int));
                    assert(p.subrange(base(c) as int, (base(c) + n) as int) =~= q.subrange(base(c) as int, (base(c) + n) as int));
                },
                _ => {},
            }
        }
    }

    pub proof fn lemma_can_hear(m: Editors, t: Texts, u: Texts, d: FileTextDelta, done: Set<Seq<char>>, rem: Set<Seq<char>>)
        requires heard(m, t, done, rem), told_step(t, d, u, rem),
        ensures forall|x: ComponentMessage| edit_told(d, x) ==> #[trigger] all_can_hear(m, None, x),
    {
        let k = d.file_path.text();
        assert forall|x: ComponentMessage| edit_told(d, x) implies #[trigger] all_can_hear(m, None, x) by {
            assert forall|e: int| #[trigger] m.dom().contains(e) implies m[e].0.can_hear(x) by {
                assert(heard_at(m[e].0, t, done, rem));
                if m[e].0.open().dom().contains(k) {
                    if t.dom().contains(k) && fits(d.delta.ops(), t[k]) {
                        lemma_prefix(d.delta.ops(), t[k], m[e].0.open()[k].current_content@);
                    }
                }
            }
        }
    }

    pub proof fn lemma_heard(m: Editors, m1: Editors, t: Texts, u: Texts, d: FileTextDelta, x: ComponentMessage, done: Set<Seq<char>>, rem: Set<Seq<char>>)
        requires heard(m, t, done, rem), told_step(t, d, u, rem), edit_told(d, x), all_told(m, m1, None, x),
        ensures heard(m1, u, done.insert(d.file_path.text()), rem),
    {
        let k = d.file_path.text();
        assert forall|e: int| #[trigger] m1.dom().contains(e) implies heard_at(m1[e].0, u, done.insert(k), rem) by {
            assert(m.dom().contains(e));
            assert(told(m, m1, e, x));
            assert(heard_at(m[e].0, t, done, rem));
            let r = choose|r: Seq<EditorProtocolMessageToEditor>| #[trigger] hears(m[e].0, m1[e].0, x, r) && m1[e].1 == m[e].1.after(requests(r));
            let (c, c1) = (m[e].0, m1[e].0);
            assert forall|q: Seq<char>| #[trigger] c1.open().dom().contains(q) implies !rem.contains(q) && u.dom().contains(q)
                && u[q].is_prefix_of(c1.open()[q].current_content@) && (done.insert(k).contains(q) || u[q] == c1.open()[q].current_content@) by
            {
                assert(c.open().dom().contains(q));
                if q != k {
                    assert(agree_at(t, u, q));
                } else {
                    let ops = d.delta.ops();
                    let (s, s1) = (c.open()[q], c1.open()[q]);
                    assert(crdt_step(s, s1, ops, rev_of(r[0])));
                    if t.dom().contains(k) && fits(ops, t[k]) && u[k] == apply(ops, t[k]) {
                        lemma_prefix(ops, t[k], s.current_content@);
                    }
                }
            }
        }
    }

    pub proof fn lemma_level(m: Editors, t: Texts, f: Texts, done: Set<Seq<char>>, rem: Set<Seq<char>>)
        requires heard(m, t, done, rem), agree(t, f, rem),
        ensures level(m, f, done),
    {
        assert forall|e: int| #[trigger] m.dom().contains(e) implies level_at(m[e].0, f, done) by {
            assert(heard_at(m[e].0, t, done, rem));
            assert forall|k: Seq<char>| #[trigger] m[e].0.open().dom().contains(k) implies f.dom().contains(k) && (done.contains(k) || m[e].0.open()[k].current_content@ == f[k]) by {
                assert(agree_at(t, f, k));
            }
        }
    }

    pub open spec fn level_one(m: Editors, f: Texts, e: int, k: Seq<char>) -> bool {
        m.dom().contains(e) && m[e].0.open().dom().contains(k) ==> m[e].0.open()[k].current_content@ == f[k]
    }

    pub proof fn lemma_caught_up(a: Editors, b: Editors, e: int, base: Seq<char>, k: Seq<char>, f: Texts, but: Set<Seq<char>>)
        requires level(a, f, but), caught_up(a, b, e, base, k, f),
        ensures
            level(b, f, but), level_one(b, f, e, k),
            forall|x: int| x != e ==> (#[trigger] b.dom().contains(x) == a.dom().contains(x)) && b[x] == a[x],
            b.dom().contains(e) ==> a.dom().contains(e),
    {
        if f.dom().contains(k) && a.dom().contains(e) {
            let (c, r) = choose|c: EditorConnection, r: Seq<EditorProtocolMessageToEditor>| #[trigger] brought_to(a[e].0.open(), c.open(), base, k, f[k], r)
                && c.inv() && c.same_editor(a[e].0) && sends(a.insert(e, (c, a[e].1)), b, e, requests(r));
            assert(level_at(a[e].0, f, but));
            assert(level_at(c, f, but));
        }
        if a.dom().contains(e) { assert(level_at(a[e].0, f, but)); }
        assert forall|x: int| #[trigger] b.dom().contains(x) implies level_at(b[x].0, f, but) by {
            if x != e { assert(a.dom().contains(x)); assert(level_at(a[x].0, f, but)); }
        }
    }

    /// All of these have been brought to the shared text of a file.
    pub proof fn lemma_all_caught_up(m: Editors, m0: Editors, v: Seq<usize>, ds: Seq<FileTextDelta>, j: int, f: Texts)
        requires
            0 <= j < ds.len(), level(m, f, left_over(ds, j)), keys_of(v, m0),
            forall|e: int| #[trigger] m.dom().contains(e) ==> m0.dom().contains(e),
            forall|i: int| 0 <= i < v.len() ==> level_one(m, f, #[trigger] v[i] as int, ds[j].file_path.text()),
        ensures level(m, f, left_over(ds, j + 1)),
    {
        let k = ds[j].file_path.text();
        assert forall|e: int| #[trigger] m.dom().contains(e) implies level_at(m[e].0, f, left_over(ds, j + 1)) by {
            assert(m0.dom().contains(e));
            assert(key_order(m0).contains(e));
            let i = choose|i: int| 0 <= i < key_order(m0).len() && key_order(m0)[i] == e;
            assert(level_one(m, f, v[i] as int, k));
            assert(level_at(m[e].0, f, left_over(ds, j)));
            lemma_delta_files(ds, j);
        }
    }

    pub proof fn lemma_delta_files(ds: Seq<FileTextDelta>, j: int)
        requires 0 <= j < ds.len(),
        ensures
            delta_files(ds.take(j + 1)) == delta_files(ds.take(j)).insert(ds[j].file_path.text()),
            delta_files(ds).contains(ds[j].file_path.text()),
    {
        let g = |d: FileTextDelta| d.file_path.text();
        assert(ds.take(j + 1) =~= ds.take(j).push(ds[j]));
        seqlem::lemma_map_push(ds.take(j), g, ds[j]);
        seqlem::lemma_push_set(ds.take(j).map_values(g), ds[j].file_path.text());
        assert(ds.map_values(g)[j] == ds[j].file_path.text());
    }

    pub proof fn lemma_delta_files_ends(ds: Seq<FileTextDelta>)
        ensures
            delta_files(ds.take(0)) == Set::<Seq<char>>::empty(),
            left_over(ds, 0) == delta_files(ds), left_over(ds, ds.len() as int) == Set::<Seq<char>>::empty(),
    {
        let g = |d: FileTextDelta| d.file_path.text();
        assert(ds.take(0).map_values(g).len() == 0);
        assert(delta_files(ds.take(0)) =~= Set::<Seq<char>>::empty());
        assert(ds.take(ds.len() as int) =~= ds);
        assert(left_over(ds, 0) =~= delta_files(ds));
        assert(left_over(ds, ds.len() as int) =~= Set::<Seq<char>>::empty());
    }

    pub proof fn lemma_levelled(m: Editors, f: Texts)
        requires level(m, f, Set::empty()),
        ensures synced(m, f),
    {
        assert forall|e: int| #[trigger] m.dom().contains(e) implies conn_synced(m[e].0, f) by { assert(level_at(m[e].0, f, Set::empty())); }
    }

    pub proof fn lemma_told_more(ms: Seq<Editors>, v: Seq<ComponentMessage>, m0: Editors, m1: Editors, m2: Editors, x: ComponentMessage)
        requires told_in_turn(ms, v, m0, m1), all_told(m1, m2, None, x),
        ensures told_in_turn(ms.push(m2), v.push(x), m0, m2),
    {
        let (ns, w) = (ms.push(m2), v.push(x));
        assert forall|i: int| 0 <= i < w.len() implies all_told(ns[i], ns[i + 1], None, #[trigger] w[i]) by {
            if i < v.len() { assert(all_told(ms[i], ms[i + 1], None, v[i])); }
        }
    }

    pub proof fn lemma_up_more(ms: Seq<Editors>, v: Seq<(int, Seq<char>)>, base: Seq<char>, s: Set<Seq<char>>, f: Texts, m0: Editors, m1: Editors, m2: Editors, x: (int, Seq<char>))
        requires caught_up_in_turn(ms, v, base, s, f, m0, m1), caught_up(m1, m2, x.0, base, x.1, f), s.contains(x.1),
        ensures caught_up_in_turn(ms.push(m2), v.push(x), base, s, f, m0, m2),
    {
        let (ns, w) = (ms.push(m2), v.push(x));
        assert forall|i: int| 0 <= i < w.len() implies caught_up(ns[i], ns[i + 1], (#[trigger] w[i]).0, base, w[i].1, f) && s.contains(w[i].1) by {
            if i < v.len() { assert(caught_up(ms[i], ms[i + 1], v[i].0, base, v[i].1, f)); }
        }
    }

    /// Hearing of cursors doesn't change texts.
    pub proof fn lemma_still_synced(a: Editors, b: Editors, x: ComponentMessage, f: Texts)
        requires synced(a, f), x is Cursor, all_told(a, b, None, x),
        ensures synced(b, f),
    {
        assert forall|e: int| #[trigger] b.dom().contains(e) implies conn_synced(b[e].0, f) by {
            assert(a.dom().contains(e));
            assert(told(a, b, e, x));
            assert(conn_synced(a[e].0, f));
        }
    }
}

pub open spec fn forgot_one(c0: (EditorConnection, EditorWriter), c1: (EditorConnection, EditorWriter), k: Seq<char>) -> bool {
    c1.1 == c0.1 && c1.0.inv() && c1.0.same_editor(c0.0) && c1.0.open() == c0.0.open().remove(k)
}
