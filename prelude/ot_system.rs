// The daemon's OT server together with one editor and the messages between them.
// The editor follows the documented protocol: it applies exactly the messages addressed to the
// number of edits it has made, and sends its edits with the number of messages it has applied.

pub ghost struct World {
    pub d: OTServer,
    pub text: Seq<char>,
    pub made: int,
    pub applied: int,
    pub up: Seq<RevisionedEditorTextDelta>,
    pub down: Seq<RevisionedEditorTextDelta>,
}

/// Successive edits of the editor.
pub open spec fn edits(es: Seq<RevisionedEditorTextDelta>, t: Seq<char>) -> Seq<char>
    decreases es.len(),
{
    if es.len() == 0 { t } else { edited(es.last().delta.0@, edits(es.drop_last(), t)) }
}

pub open spec fn edits_ok(es: Seq<RevisionedEditorTextDelta>, t: Seq<char>) -> bool
    decreases es.len(),
{
    es.len() == 0 || (edits_ok(es.drop_last(), t) && edit_ok(es.last().delta.0@, edits(es.drop_last(), t)))
}

impl World {
    /// Queue entries the editor has applied.
    pub open spec fn m(self) -> int { self.applied - (self.d.daemon_revision - self.d.editor_queue@.len()) }

    pub open spec fn step_text(self, i: int) -> Seq<char> { queue_text(self.d.q(), i, self.d.last_confirmed_editor_content@) }

    /// From `k` on the messages on their way are the ones for the rest of the queue.
    pub open spec fn current_from(self, k: int) -> bool {
        &&& 0 <= k <= self.down.len()
        &&& self.down.len() - k == self.d.q().len() - self.m()
        &&& forall|i: int| 0 <= i < k ==> (#[trigger] self.down[i]).revision < self.d.editor_revision
        &&& forall|i: int| k <= i < self.down.len() ==> (#[trigger] self.down[i]).revision == self.d.editor_revision
        &&& forall|i: int| k <= i < self.down.len() ==>
            realises((#[trigger] self.down[i]).delta.0@, self.step_text(self.m() + i - k), self.step_text(self.m() + i - k + 1))
    }

    pub open spec fn inv(self) -> bool {
        &&& self.d.inv()
        &&& self.made == self.d.editor_revision + self.up.len()
        &&& 0 <= self.m() <= self.d.q().len()
        &&& forall|i: int| 0 <= i < self.up.len() ==> (#[trigger] self.up[i]).revision == self.applied
        &&& edits_ok(self.up, self.step_text(self.m()))
        &&& self.text == edits(self.up, self.step_text(self.m()))
        &&& forall|i: int| 0 <= i < self.down.len() ==> (#[trigger] self.down[i]).revision <= self.d.editor_revision
        &&& self.up.len() == 0 ==> exists|k: int| self.current_from(k)
    }
}

pub open spec fn w_init(w: World, t: Seq<char>) -> bool {
    &&& w.d.inv() && w.d.current_content@ == t && w.d.last_confirmed_editor_content@ == t
    &&& w.d.editor_revision == 0 && w.d.daemon_revision == 0 && w.d.editor_queue@.len() == 0
    &&& w.text == t && w.made == 0 && w.applied == 0 && w.up.len() == 0 && w.down.len() == 0
}

pub open spec fn w_crdt(w: World, v: World, ops: Seq<Op>, r: RevisionedEditorTextDelta) -> bool {
    crdt_step(w.d, v.d, ops, r) && v == (World { d: v.d, down: w.down.push(r), ..w })
}

pub open spec fn w_daemon(w: World, v: World, ops: Seq<Op>, ms: Seq<RevisionedEditorTextDelta>) -> bool {
    w.up.len() > 0 && editor_step(w.d, v.d, w.up[0], ops, ms) && v == (World { d: v.d, up: w.up.skip(1), down: w.down + ms, ..w })
}

pub open spec fn w_edit(w: World, v: World, e: RevisionedEditorTextDelta) -> bool {
    &&& edit_ok(e.delta.0@, w.text) && e.revision == w.applied
    &&& v == (World { text: edited(e.delta.0@, w.text), made: w.made + 1, up: w.up.push(e), ..w })
}

pub open spec fn w_receive(w: World, v: World) -> bool {
    &&& w.down.len() > 0
    &&& if w.down[0].revision == w.made {
        v == (World { text: ed_apply(eds_of(w.down[0].delta.0@, w.text), w.text), applied: w.applied + 1, down: w.down.skip(1), ..w })
    } else {
        v == (World { down: w.down.skip(1), ..w })
    }
}

pub proof fn world_init(w: World, t: Seq<char>)
    requires w_init(w, t),
    ensures w.inv(),
{
    assert(w.d.q().take(0).len() == 0);
    assert(w.current_from(0));
}

/// The preconditions of the server's methods hold whenever it is called.
pub proof fn world_preconditions(w: World)
    requires w.inv(), w.up.len() > 0,
    ensures
        w.up[0].revision <= w.d.daemon_revision,
        0 <= w.d.seen(w.up[0].revision),
        edit_ok(w.up[0].delta.0@, w.d.editor_text(w.up[0].revision)),
{
    lemma_edits_first(w.up, w.step_text(w.m()));
}

pub proof fn lemma_edits_first(es: Seq<RevisionedEditorTextDelta>, t: Seq<char>)
    requires es.len() > 0, edits_ok(es, t),
    ensures
        edit_ok(es[0].delta.0@, t),
        edits_ok(es.skip(1), edited(es[0].delta.0@, t)),
        edits(es.skip(1), edited(es[0].delta.0@, t)) == edits(es, t),
    decreases es.len(),
{
    if es.len() == 1 {
        assert(es.drop_last().len() == 0);
        assert(es.skip(1).len() == 0);
        assert(edits(es.drop_last(), t) == t);
    } else {
        lemma_edits_first(es.drop_last(), t);
        assert(es.drop_last().skip(1) =~= es.skip(1).drop_last());
        assert(es.skip(1).last() == es.last());
    }
}

pub proof fn world_crdt(w: World, v: World, ops: Seq<Op>, r: RevisionedEditorTextDelta)
    requires w.inv(), w_crdt(w, v, ops, r),
    ensures v.inv(),
{
    assert(v.d.q() =~= w.d.q().push(v.d.q().last()));
    assert forall|i: int| 0 <= i <= w.d.q().len() implies #[trigger] v.step_text(i) == w.step_text(i) by {
        assert(v.d.q().take(i) =~= w.d.q().take(i));
    }
    assert(v.m() == w.m());
    assert(v.step_text(v.m()) == w.step_text(w.m()));
    if w.up.len() == 0 {
        let k = choose|k: int| w.current_from(k);
        let n = w.d.q().len() as int;
        assert(v.step_text(n) == w.step_text(n));
        assert(w.d.q().take(n) =~= w.d.q());
        assert(v.d.q().take(n + 1) =~= v.d.q());
        assert(v.step_text(n) == w.d.current_content@);
        assert(v.step_text(n + 1) == v.d.current_content@);
        assert forall|i: int| k <= i < v.down.len() implies
            realises((#[trigger] v.down[i]).delta.0@, v.step_text(v.m() + i - k), v.step_text(v.m() + i - k + 1)) by {
            if i < w.down.len() {
                assert(v.down[i] == w.down[i]);
                assert(v.step_text(v.m() + i - k) == w.step_text(w.m() + i - k));
                assert(v.step_text(v.m() + i - k + 1) == w.step_text(w.m() + i - k + 1));
            }
        }
        assert(v.current_from(k));
    }
}

pub proof fn world_edit(w: World, v: World, e: RevisionedEditorTextDelta)
    requires w.inv(), w_edit(w, v, e),
    ensures v.inv(),
{
    assert(v.up.drop_last() =~= w.up);
    assert(v.step_text(v.m()) == w.step_text(w.m()));
}

pub proof fn world_receive(w: World, v: World)
    requires w.inv(), w_receive(w, v),
    ensures v.inv(),
{
    assert forall|i: int| 0 <= i < v.down.len() implies #[trigger] v.down[i] == w.down[i + 1] by { }
    if w.up.len() == 0 {
        let k = choose|k: int| w.current_from(k);
        if k > 0 {
            assert(w.down[0].revision < w.d.editor_revision);
            assert(v.step_text(v.m()) == w.step_text(w.m()));
            assert forall|i: int| k - 1 <= i < v.down.len() implies
                realises((#[trigger] v.down[i]).delta.0@, v.step_text(v.m() + i - (k - 1)), v.step_text(v.m() + i - (k - 1) + 1)) by {
                assert(v.down[i] == w.down[i + 1]);
                assert(v.step_text(v.m() + i - (k - 1)) == w.step_text(w.m() + i + 1 - k));
                assert(v.step_text(v.m() + i - (k - 1) + 1) == w.step_text(w.m() + i + 1 - k + 1));
            }
            assert(v.current_from(k - 1));
        } else {
            assert(w.down[0].revision == w.d.editor_revision);
            assert(realises(w.down[0].delta.0@, w.step_text(w.m() + 0 - 0), w.step_text(w.m() + 0 - 0 + 1)));
            assert(v.m() == w.m() + 1);
            assert(v.text == w.step_text(w.m() + 1));
            assert(v.step_text(v.m()) == w.step_text(w.m() + 1));
            assert forall|i: int| 0 <= i < v.down.len() implies
                realises((#[trigger] v.down[i]).delta.0@, v.step_text(v.m() + i - 0), v.step_text(v.m() + i - 0 + 1)) by {
                assert(v.down[i] == w.down[i + 1]);
                assert(v.step_text(v.m() + i - 0) == w.step_text(w.m() + (i + 1) - 0));
                assert(v.step_text(v.m() + i - 0 + 1) == w.step_text(w.m() + (i + 1) - 0 + 1));
            }
            assert(v.current_from(0));
        }
    } else {
        assert(w.down[0].revision <= w.d.editor_revision);
        assert(v.step_text(v.m()) == w.step_text(w.m()));
    }
}

pub proof fn world_daemon(w: World, v: World, ops: Seq<Op>, ms: Seq<RevisionedEditorTextDelta>)
    requires w.inv(), w_daemon(w, v, ops, ms),
    ensures v.inv(),
{
    let e = w.up[0];
    lemma_edits_first(w.up, w.step_text(w.m()));
    assert(w.d.seen(e.revision) == w.m());
    assert(w.d.editor_text(e.revision) == w.step_text(w.m()));
    assert(v.m() == 0);
    assert(v.d.q().take(0).len() == 0);
    assert(v.step_text(0) == v.d.last_confirmed_editor_content@);
    assert forall|i: int| 0 <= i < v.down.len() implies (#[trigger] v.down[i]).revision <= v.d.editor_revision by {
        if i < w.down.len() {
            assert(v.down[i] == w.down[i]);
        } else {
            assert(v.down[i] == ms[i - w.down.len()]);
        }
    }
    if v.up.len() == 0 {
        let k = w.down.len() as int;
        assert forall|i: int| k <= i < v.down.len() implies
            (#[trigger] v.down[i]).revision == v.d.editor_revision
            && realises(v.down[i].delta.0@, v.step_text(v.m() + i - k), v.step_text(v.m() + i - k + 1)) by {
            assert(v.down[i] == ms[i - k]);
        }
        assert(v.current_from(k));
    }
}

/// All messages exchanged: the texts agree.
pub proof fn world_quiescent(w: World)
    requires w.inv(), w.up.len() == 0, w.down.len() == 0,
    ensures w.text == w.d.current_content@,
{
    let k = choose|k: int| w.current_from(k);
    assert(w.d.q().take(w.m()) =~= w.d.q());
}
