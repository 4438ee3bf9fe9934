// automerge's patches. What they say about the documents of ethersync is assumed.
#[verifier::external_body]
pub struct TextValue { x: u8 }
impl View for TextValue {
    type V = Seq<char>;
    uninterp spec fn view(&self) -> Seq<char>;
}
impl TextValue {
    #[verifier::external_body]
    pub fn make_string(&self) -> (r: String)
        ensures r@ == self@,
    { unimplemented!() }
}
#[verifier::external_body]
pub struct MarkSet { x: u8 }
#[verifier::external_body]
pub struct Values { x: u8 }

pub enum PatchAction {
    PutMap { key: String, value: (Value, ObjId), conflict: bool },
    PutSeq { index: usize, value: (Value, ObjId), conflict: bool },
    Insert { index: usize, values: Values },
    SpliceText { index: usize, value: TextValue, marks: Option<MarkSet> },
    Increment { prop: Prop, value: i64 },
    Conflict { prop: Prop },
    DeleteMap { key: String },
    DeleteSeq { index: usize, length: usize },
    Mark { marks: Vec<MarkSet> },
}

pub struct Patch { pub obj: ObjId, pub path: Vec<(ObjId, Prop)>, pub action: PatchAction }

pub open spec fn at_key(p: Prop, k: Seq<char>) -> bool { p is Map && p->Map_0@ == k }

/// The file a change of a text is about.
pub open spec fn patch_file(p: Patch) -> Seq<char> { p.path@[1].1->Map_0@ }

/// What a cursor entry says, if it can be understood.
pub uninterp spec fn cursor_of(s: Seq<char>) -> Option<CursorState>;

#[verifier::external_body]
pub fn json_cursor(s: &str) -> (r: Result<CursorState, AnyhowError>)
    ensures r is Ok <==> cursor_of(s@) is Some, r is Ok ==> r->Ok_0 == cursor_of(s@)->0,
{ unimplemented!() }

pub open spec fn patch_cursor(p: Patch) -> Option<CursorState> {
    if p.path@.len() == 2 && at_key(p.path@[0].1, "states"@) && p.action is SpliceText { cursor_of(p.action->SpliceText_value@) } else { None }
}

/// One patch: what it says about the texts of files.
pub open spec fn patch_step(g: Map<Seq<char>, Seq<char>>, p: Patch, h: Map<Seq<char>, Seq<char>>) -> bool {
    let n = p.path@.len();
    if n == 0 {
        h == g && p.action is PutMap && (p.action->PutMap_key@ == "files"@ || p.action->PutMap_key@ == "states"@)
    } else if n == 1 && at_key(p.path@[0].1, "files"@) {
        match p.action {
            PatchAction::PutMap { key, .. } => normal(key@) && h == g.insert(key@, Seq::empty()),
            PatchAction::DeleteMap { key } => normal(key@) && h == g.remove(key@),
            PatchAction::Conflict { prop } => prop is Map && h == g,
            _ => false,
        }
    } else if n == 2 && at_key(p.path@[0].1, "files"@) {
        let k = patch_file(p);
        &&& p.path@[1].1 is Map && normal(k) && g.dom().contains(k)
        &&& match p.action {
            PatchAction::SpliceText { index, value, .. } => index <= g[k].len()
                && h == g.insert(k, g[k].take(index as int) + value@ + g[k].skip(index as int)),
            PatchAction::DeleteSeq { index, length } => index + length <= g[k].len()
                && h == g.insert(k, g[k].take(index as int) + g[k].skip(index + length)),
            _ => false,
        }
    } else if n == 1 && at_key(p.path@[0].1, "states"@) {
        p.action is PutMap && h == g
    } else if n == 2 && at_key(p.path@[0].1, "states"@) {
        &&& h == g && p.action is SpliceText && p.action->SpliceText_index == 0
        &&& patch_cursor(p) is Some ==> !is_abs((patch_cursor(p)->0).file_path.text())
    } else {
        false
    }
}

pub open spec fn patch_chain(v: Seq<Patch>, gs: Seq<Map<Seq<char>, Seq<char>>>, f0: Map<Seq<char>, Seq<char>>, f1: Map<Seq<char>, Seq<char>>) -> bool {
    &&& gs.len() == v.len() + 1 && gs[0] == f0 && gs.last() == f1
    &&& forall|i: int| 0 <= i < v.len() ==> patch_step(gs[i], #[trigger] v[i], gs[i + 1])
}

/// Patches lead from one state of the shared texts to another.
pub open spec fn patches_tell(v: Seq<Patch>, f0: Map<Seq<char>, Seq<char>>, f1: Map<Seq<char>, Seq<char>>) -> bool {
    exists|gs: Seq<Map<Seq<char>, Seq<char>>>| #[trigger] patch_chain(v, gs, f0, f1)
}

/// The cursors patches tell of.
pub open spec fn told_cursors(v: Seq<Patch>) -> Seq<CursorState>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else {
        let p = told_cursors(v.drop_last());
        match patch_cursor(v.last()) { Some(c) => p.push(c), None => p }
    }
}

// ---- synchronization
#[verifier::external_body]
pub struct AutomergeSyncMessage { x: u8 }
#[verifier::external_body]
pub struct SyncState { x: u8 }

pub enum TextRepresentation { Array, String }

/// Records what happens to a document.
pub struct PatchLog { pub repr: TextRepresentation, pub told: Ghost<Option<(Am, Am)>> }

impl PatchLog {
    pub fn active(repr: TextRepresentation) -> (r: PatchLog)
        ensures r.repr == repr, r.told@ is None,
    { PatchLog { repr, told: Ghost(None) } }
}

impl AutoCommit {
    #[verifier::external_body]
    pub fn sync(&mut self) -> (r: &mut AutoCommit)
        ensures *r == *old(self), *final(self) == *final(r),
    { unimplemented!() }

    /// Peers are daemons, too: what they send can be applied, and leaves the document in order.
    #[verifier::external_body]
    pub fn receive_sync_message_log_patches(&mut self, state: &mut SyncState, message: AutomergeSyncMessage, log: &mut PatchLog) -> (r: Result<(), AmError>)
        requires doc_ok(old(self)@),
        ensures
            r is Ok, doc_ok(final(self)@), final(self).covered() == old(self).covered(), final(self).actor() == old(self).actor(),
            final(log).repr == old(log).repr,
            old(log).told@ is None ==> final(log).told@ == Some((old(self)@, final(self)@)),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn make_patches(&mut self, log: &mut PatchLog) -> (r: Vec<Patch>)
        ensures
            *final(self) == *old(self),
            old(log).repr is String && old(log).told@ is Some ==> patches_tell(r@, files_of((old(log).told@->0).0), files_of((old(log).told@->0).1)),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn generate_sync_message(&mut self, state: &mut SyncState) -> (r: Option<AutomergeSyncMessage>)
        ensures final(self)@ == old(self)@, final(self).covered() == old(self).covered(), final(self).actor() == old(self).actor(),
    { unimplemented!() }
}

impl VInto<TextValue> for String {
    open spec fn vinto_req(self) -> bool { true }
    open spec fn vinto_ens(self, r: TextValue) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vinto(self) -> (r: TextValue) { unimplemented!() }
}

// ---- a change as patches of one text
/// What a patch does to the text it is about.
pub open spec fn act(a: PatchAction, t: Seq<char>) -> Option<Seq<char>> {
    match a {
        PatchAction::SpliceText { index, value, marks } => if index <= t.len() && marks is None { Some(t.take(index as int) + value@ + t.skip(index as int)) } else { None },
        PatchAction::DeleteSeq { index, length } => if index + length <= t.len() { Some(t.take(index as int) + t.skip(index + length)) } else { None },
        _ => None,
    }
}

pub open spec fn acts(v: Seq<PatchAction>, t: Seq<char>) -> Option<Seq<char>>
    decreases v.len(),
{
    if v.len() == 0 { Some(t) } else {
        match acts(v.drop_last(), t) { Some(u) => act(v.last(), u), None => None }
    }
}

/// The text while a change is under way.
pub open spec fn midway(p: Seq<Op>, t: Seq<char>) -> Seq<char> { out(p, t) + t.skip(base(p) as int) }

pub mod actlem {
    use super::*;
    /// One more step of a change.
    pub proof fn lemma_act(p: Seq<Op>, o: Op, t: Seq<char>)
        requires base(p.push(o)) <= t.len(),
        ensures
            out(p, t).len() == target(p), base(p) <= t.len(),
            match o {
                Op::Retain(n) => midway(p.push(o), t) == midway(p, t) && target(p.push(o)) == target(p) + n,
                Op::Insert(s) => midway(p.push(o), t) == midway(p, t).take(target(p) as int) + s + midway(p, t).skip(target(p) as int) && target(p.push(o)) == target(p) + s.len(),
                Op::Delete(n) => midway(p.push(o), t) == midway(p, t).take(target(p) as int) + midway(p, t).skip((target(p) + n) as int) && target(p.push(o)) == target(p) && target(p) + n <= midway(p, t).len(),
            },
    {
        let q = p.push(o);
        assert(q.drop_last() =~= p);
        lemma_out_len(p, t);
        let (a, b) = (midway(p, t), midway(q, t));
        match o {
            Op::Retain(n) => { assert(b =~= a); }
            Op::Insert(s) => { assert(b =~= a.take(target(p) as int) + s + a.skip(target(p) as int)); }
            Op::Delete(n) => { assert(b =~= a.take(target(p) as int) + a.skip((target(p) + n) as int)); }
        }
    }

    pub proof fn lemma_mono(ops: Seq<Op>, i: int)
        requires 0 <= i <= ops.len(),
        ensures base(ops.take(i)) <= base(ops), target(ops.take(i)) <= target(ops),
        decreases ops.len() - i,
    {
        if i < ops.len() { lemma_mono(ops, i + 1); assert(ops.take(i + 1).drop_last() =~= ops.take(i)); } else { assert(ops.take(i) =~= ops); }
    }

    pub proof fn lemma_step(ops: Seq<Op>, i: int)
        requires 0 <= i < ops.len(),
        ensures
            ops.take(i + 1) == ops.take(i).push(ops[i]), target(ops.take(i + 1)) <= target(ops), base(ops.take(i + 1)) <= base(ops),
    {
        assert(ops.take(i + 1) =~= ops.take(i).push(ops[i]));
        lemma_mono(ops, i + 1);
    }

    /// What was added to the patches is what the step does.
    pub proof fn lemma_stepped(ops: Seq<Op>, i: int, a: Seq<PatchAction>, b: Seq<PatchAction>)
        requires
            0 <= i < ops.len(),
            forall|t: Seq<char>| fits(ops, t) ==> #[trigger] acts(a, t) == Some(midway(ops.take(i), t)),
            match ops[i] {
                Op::Retain(n) => b == a,
                Op::Insert(s) => b.len() == a.len() + 1 && b.drop_last() == a && b.last() is SpliceText
                    && b.last()->SpliceText_index == target(ops.take(i)) && (b.last()->SpliceText_value)@ == s && b.last()->SpliceText_marks is None,
                Op::Delete(n) => b.len() == a.len() + 1 && b.drop_last() == a && b.last() is DeleteSeq
                    && b.last()->DeleteSeq_index == target(ops.take(i)) && b.last()->DeleteSeq_length == n,
            },
        ensures forall|t: Seq<char>| fits(ops, t) ==> #[trigger] acts(b, t) == Some(midway(ops.take(i + 1), t)),
    {
        lemma_step(ops, i);
        assert forall|t: Seq<char>| fits(ops, t) implies #[trigger] acts(b, t) == Some(midway(ops.take(i + 1), t)) by {
            lemma_act(ops.take(i), ops[i], t);
            assert(acts(a, t) == Some(midway(ops.take(i), t)));
        }
    }
}
