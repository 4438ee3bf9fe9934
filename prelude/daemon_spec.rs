// The document actor.

/// tokio channels.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct MpscReceiver<T> { x: std::marker::PhantomData<T> }
#[verifier::external_body]
pub struct BroadcastSender { x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OneshotSender<T> { x: std::marker::PhantomData<T> }

impl BroadcastSender {
    /// Wakes up whoever waits for changes; nothing else.
    #[verifier::external_body]
    pub fn send(&self, x: ()) -> (r: Result<usize, AnyhowError>) { unimplemented!() }
}

impl<T> OneshotSender<T> {
    #[verifier::external_body]
    pub fn send(self, x: T) -> (r: Result<(), T>) { unimplemented!() }
}

/// Whether the n-th message to this editor can be sent.
pub uninterp spec fn delivers(id: int, n: int) -> bool;

/// The sending side of the connection to an editor.
pub struct EditorWriter { pub id: Ghost<int>, pub sent: Ghost<Seq<EditorProtocolObject>> }

impl EditorWriter {
    pub open spec fn after(self, objs: Seq<EditorProtocolObject>) -> EditorWriter {
        EditorWriter { id: self.id, sent: Ghost(self.sent@ + objs) }
    }

    /// So many more can be sent.
    pub open spec fn takes(self, more: int) -> bool {
        forall|n: int| self.sent@.len() <= n < self.sent@.len() + more ==> #[trigger] delivers(self.id@, n)
    }

    #[verifier::external_body]
    pub fn send(&mut self, m: EditorProtocolObject) -> (r: Result<(), AnyhowError>)
        ensures
            r is Ok <==> delivers(old(self).id@, old(self).sent@.len() as int),
            r is Ok ==> *final(self) == old(self).after(seq![m]),
    { unimplemented!() }
}

pub type Editors = Map<int, (EditorConnection, EditorWriter)>;

/// These are sent to one editor; it is dropped when that fails.
pub open spec fn sends(m0: Editors, m1: Editors, e: int, objs: Seq<EditorProtocolObject>) -> bool {
    if !m0.dom().contains(e) {
        m1 == m0
    } else if m0[e].1.takes(objs.len() as int) {
        m1 == m0.insert(e, (m0[e].0, m0[e].1.after(objs)))
    } else {
        m1 == m0.remove(e)
    }
}

pub open spec fn requests(v: Seq<EditorProtocolMessageToEditor>) -> Seq<EditorProtocolObject> {
    v.map_values(|m: EditorProtocolMessageToEditor| EditorProtocolObject::Request(m))
}

pub open spec fn conns_ok(m: Editors, base: Seq<char>) -> bool {
    forall|e: int| #[trigger] m.dom().contains(e) ==> m[e].0.inv() && m[e].0.base_dir@ == base
}

/// No editor has the file open.
pub open spec fn unowned(m: Editors, k: Seq<char>) -> bool {
    forall|e: int| #[trigger] m.dom().contains(e) ==> !m[e].0.open().dom().contains(k)
}

impl DocumentActor {
    pub open spec fn editors(self) -> Editors { self.editor_connections@ }
    pub open spec fn shared(self) -> Map<Seq<char>, Seq<char>> { self.crdt_doc.shared() }
    pub open spec fn base(self) -> Seq<char> { self.base_dir@ }

    pub open spec fn ok(self) -> bool {
        &&& is_abs(self.base_dir@) && is_base(self.base_dir@) && self.crdt_doc.inv()
        &&& conns_ok(self.editor_connections@, self.base_dir@)
    }

    /// Everything but the editors.
    pub open spec fn same_doc(self, o: DocumentActor) -> bool {
        self.crdt_doc == o.crdt_doc && self.base_dir == o.base_dir && self.save_fully == o.save_fully
    }

    /// Everything but the document.
    pub open spec fn same_editors(self, o: DocumentActor) -> bool {
        self.editor_connections == o.editor_connections && self.base_dir == o.base_dir && self.save_fully == o.save_fully
    }
}

/// Where a shared file lives.
pub open spec fn file_loc(base: Seq<char>, k: Seq<char>) -> Option<Names> { place(cleaned(path_names(base) + path_names(k))) }
pub open spec fn parent_loc(base: Seq<char>, k: Seq<char>) -> Option<Names> { place(cleaned((path_names(base) + path_names(k)).drop_last())) }

/// The daemon can write this file.
pub open spec fn writable(base: Seq<char>, k: Seq<char>) -> bool {
    &&& path_names(base).len() + path_names(k).len() > 0
    &&& inside(base, file_loc(base, k)) && inside(base, parent_loc(base, k))
    &&& can_mkdir(parent_loc(base, k)->0) && can_write(file_loc(base, k)->0)
}

/// Directories may have come into being.
pub open spec fn same_files(w0: VWorld, w1: VWorld) -> bool { w1.files@ == w0.files@ }

/// "on disk": what follows for the files on disk if `k` is to be written out.
pub open spec fn written(m: Editors, f: Map<Seq<char>, Seq<char>>, base: Seq<char>, k: Seq<char>, w0: VWorld, w1: VWorld) -> bool {
    if !unowned(m, k) || !f.dom().contains(k) {
        w1 == w0
    } else if writable(base, k) {
        w1.files@ == w0.files@.insert(file_loc(base, k)->0, utf8(f[k]))
    } else if inside(base, file_loc(base, k)) {
        w1.files@.remove(file_loc(base, k)->0) == w0.files@.remove(file_loc(base, k)->0)
    } else {
        w1.files@ == w0.files@
    }
}

/// How many messages an editor gets.
pub open spec fn hear_count(c: EditorConnection, m: ComponentMessage) -> int {
    match m {
        ComponentMessage::Edit { file_path, .. } => if c.open().dom().contains(file_path.text()) { 1 } else { 0 },
        ComponentMessage::Cursor { .. } => 1,
        _ => 0,
    }
}

/// One editor has been told, or is dropped because that was not possible.
pub open spec fn told(m0: Editors, m1: Editors, e: int, m: ComponentMessage) -> bool {
    if m0[e].1.takes(hear_count(m0[e].0, m)) {
        m1.dom().contains(e) && exists|r: Seq<EditorProtocolMessageToEditor>| #[trigger] hears(m0[e].0, m1[e].0, m, r) && m1[e].1 == m0[e].1.after(requests(r))
    } else {
        !m1.dom().contains(e)
    }
}

pub open spec fn same_at(m0: Editors, m1: Editors, e: int) -> bool { m1.dom().contains(e) && m1[e] == m0[e] }

/// All editors but one are told.
pub open spec fn all_told(m0: Editors, m1: Editors, but: Option<usize>, m: ComponentMessage) -> bool {
    &&& forall|e: int| #[trigger] m0.dom().contains(e) ==> if but is Some && but->0 == e { same_at(m0, m1, e) } else { told(m0, m1, e, m) }
    &&& forall|e: int| #[trigger] m1.dom().contains(e) ==> m0.dom().contains(e)
}

/// On the way there.
pub open spec fn telling(m0: Editors, m1: Editors, e: int, but: Option<usize>, m: ComponentMessage, done: bool) -> bool {
    if !done || (but is Some && but->0 == e) { same_at(m0, m1, e) } else { told(m0, m1, e, m) }
}

pub open spec fn all_can_hear(m0: Editors, but: Option<usize>, m: ComponentMessage) -> bool {
    forall|e: int| #[trigger] m0.dom().contains(e) && !(but is Some && but->0 == e) ==> m0[e].0.can_hear(m)
}

pub mod actorlem {
    use super::*;
    pub broadcast proof fn lemma_sends_more(a: Editors, b: Editors, c: Editors, e: int, x: Seq<EditorProtocolObject>, o: EditorProtocolObject)
        requires #[trigger] sends(a, b, e, x), #[trigger] sends(b, c, e, seq![o]),
        ensures sends(a, c, e, x.push(o)),
    {
        broadcast use maplem::group_map;
        if a.dom().contains(e) && a[e].1.takes(x.len() as int) {
            assert(a[e].1.sent@ + x + seq![o] =~= a[e].1.sent@ + x.push(o));
            assert(a[e].1.after(x).after(seq![o]) == a[e].1.after(x.push(o)));
            if a[e].1.takes(x.push(o).len() as int) {
            } else {
                assert(!delivers(a[e].1.id@, (a[e].1.sent@.len() + x.len()) as int));
            }
        }
        if a.dom().contains(e) && !a[e].1.takes(x.len() as int) {
            assert(!a[e].1.takes(x.push(o).len() as int));
        }
    }
    pub broadcast proof fn lemma_sends_none(a: Editors, e: int, x: Seq<EditorProtocolObject>)
        requires x.len() == 0,
        ensures #[trigger] sends(a, a, e, x),
    {
        broadcast use maplem::group_map;
        if a.dom().contains(e) {
            assert(a[e].1.sent@ + x =~= a[e].1.sent@);
        }
    }
    pub broadcast proof fn lemma_written_more(m: Editors, f: Map<Seq<char>, Seq<char>>, base: Seq<char>, s: Set<Seq<char>>, k: Seq<char>, w0: VWorld, w1: VWorld, w2: VWorld)
        requires #[trigger] all_written(m, f, base, s, w0, w1), #[trigger] written(m, f, base, k, w1, w2),
        ensures all_written(m, f, base, s.insert(k), w0, w2),
    {
        let t = s.insert(k);
        let kl = file_loc(base, k);
        assert forall|loc: Names| w2.files@.dom().contains(loc) != w1.files@.dom().contains(loc) || w2.files@[loc] != w1.files@[loc] implies
            writes(m, f, k) && kl == Some(loc) by
        {
            if !writes(m, f, k) {
            } else if writable(base, k) {
            } else if inside(base, kl) {
                if loc != kl->0 {
                    let (x, y) = (w2.files@.remove(kl->0), w1.files@.remove(kl->0));
                    assert(x == y);
                    assert(x.dom().contains(loc) == w2.files@.dom().contains(loc));
                    assert(y.dom().contains(loc) == w1.files@.dom().contains(loc));
                    assert(x[loc] == w2.files@[loc]);
                    assert(y[loc] == w1.files@[loc]);
                }
            }
        }
        assert forall|loc: Names| #[trigger] same_file(w0, w2, loc) || exists|k: Seq<char>| #[trigger] t.contains(k) && writes(m, f, k) && file_loc(base, k) == Some(loc) by {
            if !same_file(w0, w2, loc) {
                if same_file(w0, w1, loc) {
                    assert(t.contains(k));
                } else {
                    let j = choose|j: Seq<char>| #[trigger] s.contains(j) && writes(m, f, j) && file_loc(base, j) == Some(loc);
                    assert(t.contains(j));
                }
            }
        }
        assert forall|j: Seq<char>| #[trigger] t.contains(j) && writes(m, f, j) && writable(base, j) && alone(base, t, j) implies
            w2.files@.dom().contains(file_loc(base, j)->0) && w2.files@[file_loc(base, j)->0] == utf8(f[j]) by
        {
            if j != k {
                assert(t.contains(k));
                assert(alone(base, s, j)) by {
                    assert forall|i: Seq<char>| #[trigger] s.contains(i) && i != j implies file_loc(base, i) != file_loc(base, j) by { assert(t.contains(i)); }
                }
            }
        }
    }
    pub broadcast proof fn lemma_written_none(m: Editors, f: Map<Seq<char>, Seq<char>>, base: Seq<char>, s: Set<Seq<char>>, w: VWorld)
        requires s == Set::<Seq<char>>::empty(),
        ensures #[trigger] all_written(m, f, base, s, w, w),
    {
        assert(forall|loc: Names| #[trigger] same_file(w, w, loc));
    }
    pub broadcast group group_actor { lemma_sends_more, lemma_sends_none, lemma_written_more, lemma_written_none }

    /// A listed file is where its shared name says.
    pub proof fn lemma_entry(v: Seq<Result<DirEntry, IoError>>, i: int, base: Seq<char>, w: VWorld)
        requires is_abs(base), walk_is(v, base, w, false), 0 <= i < v.len(), v[i] is Ok, (v[i]->Ok_0).kind.file(),
        ensures
            is_abs((v[i]->Ok_0).path@),
            strictly_below(path_names(base), cleaned(path_names((v[i]->Ok_0).path@))),
            shareable(base, w, path_names((v[i]->Ok_0).path@), false),
            file_loc(base, entry_name(v[i], base)) == denotes((v[i]->Ok_0).path@),
            forall|rel: Seq<char>| #[trigger] normal(rel) && rel_of(base, cleaned(path_names((v[i]->Ok_0).path@)), rel) ==>
                rel == entry_name(v[i], base) && file_loc(base, rel) == denotes((v[i]->Ok_0).path@),
    {
        let p = path_names((v[i]->Ok_0).path@);
        assert(is_listed_file(v[i], p));
        assert(listed(v, p));
        let b = path_names(base);
        let rest = p.skip(b.len() as int);
        assert(p =~= b + rest);
        lemma_cleaned_append(b, rest);
        let rest = cleaned(p).skip(cleaned(b).len() as int);
        axiom_names((v[i]->Ok_0).path@);
        lemma_cleaned_names(p);
        axiom_rel_text(rest);
        lemma_round_trip(base, p, rel_text(rest), b + rest);
        assert forall|rel: Seq<char>| #[trigger] normal(rel) && rel_of(base, cleaned(p), rel) implies
            rel == entry_name(v[i], base) && file_loc(base, rel) == denotes((v[i]->Ok_0).path@) by
        {
            lemma_round_trip(base, p, rel, b + path_names(rel));
        }
    }

    pub proof fn lemma_walk_step(v: Seq<Result<DirEntry, IoError>>, i: int, f0: Map<Seq<char>, Seq<char>>, f1: Map<Seq<char>, Seq<char>>, f2: Map<Seq<char>, Seq<char>>, base: Seq<char>, w: VWorld)
        requires
            is_abs(base), walk_is(v, base, w, false), 0 <= i < v.len(), walked(v, i, f0, f1, base, w),
            ({
                let k = entry_name(v[i], base);
                let t = disk_text(base, k, w);
                if v[i] is Ok && (v[i]->Ok_0).kind.file() && t is Some { f2 == f1.insert(k, t->0) } else { f2 == f1 }
            }),
        ensures walked(v, i + 1, f0, f2, base, w),
    {
        let k = entry_name(v[i], base);
        if f2 != f1 || v[i] is Ok && (v[i]->Ok_0).kind.file() && disk_text(base, k, w) is Some {
            lemma_entry(v, i, base, w);
            assert(found(base, path_names((v[i]->Ok_0).path@), w));
        }
        assert forall|j: int| #![trigger v[j]] 0 <= j < i + 1 implies walked_one(v[j], f2, base, w) by {
            if j < i { assert(walked_one(v[j], f1, base, w)); }
        }
        assert forall|q: Seq<char>| #[trigger] f2.dom().contains(q) implies
            (f0.dom().contains(q) && f2[q] == f0[q]) || exists|n: Names| #[trigger] found(base, n, w) && found_name(base, n) == q && f2[q] == disk_text(base, q, w)->0 by
        {
            if q == k && f2 != f1 {
                let n = path_names((v[i]->Ok_0).path@);
                assert(found(base, n, w) && found_name(base, n) == q);
            } else {
                assert(f1.dom().contains(q));
            }
        }
    }

    pub proof fn lemma_scanned(fs: Seq<RelativePath>, names: Set<Seq<char>>,
        f0: Map<Seq<char>, Seq<char>>, f1: Map<Seq<char>, Seq<char>>, f2: Map<Seq<char>, Seq<char>>, base: Seq<char>, w: VWorld)
        requires
            all_walked(f0, f1, base, w), pruned(fs, fs.len() as int, f1, f2, base, w),
            f1.dom().subset_of(names),
            forall|k: Seq<char>| names.contains(k) ==> exists|i: int| 0 <= i < fs.len() && #[trigger] fs[i].text() == k,
        ensures as_on_disk(f0, f2, base, w),
    {
        let v = choose|v: Seq<Result<DirEntry, IoError>>| walk_is(v, base, w, false) && #[trigger] walked(v, v.len() as int, f0, f1, base, w);
        assert forall|n: Names| #[trigger] found(base, n, w) implies
            f2.dom().contains(found_name(base, n)) && f2[found_name(base, n)] == disk_text(base, found_name(base, n), w)->0 by
        {
            assert(listed(v, n));
            let i = choose|i: int| 0 <= i < v.len() && is_listed_file(#[trigger] v[i], n);
            assert(walked_one(v[i], f1, base, w));
            assert(on_disk(base, found_name(base, n), w));
        }
        assert forall|k: Seq<char>| #[trigger] f2.dom().contains(k) implies on_disk(base, k, w) by {
            assert(f1.dom().contains(k));
            let i = choose|i: int| 0 <= i < fs.len() && #[trigger] fs[i].text() == k;
        }
    }

    pub proof fn lemma_told(m0: Editors, a: Editors, b: Editors, c: Editors, e: int, m: ComponentMessage, r: Seq<EditorProtocolMessageToEditor>)
        requires
            m0.dom().contains(e), same_at(m0, a, e), hears(a[e].0, b[e].0, m, r),
            b == a.insert(e, (b[e].0, a[e].1)), sends(b, c, e, requests(r)),
        ensures told(m0, c, e, m),
    {
        assert(requests(r).len() == r.len());
        assert(r.len() == hear_count(a[e].0, m));
        if b[e].1.takes(r.len() as int) {
            assert(hears(m0[e].0, c[e].0, m, r));
        }
    }

    pub proof fn lemma_telling(m0: Editors, a: Editors, b: Editors, v: Seq<usize>, i: int, but: Option<usize>, m: ComponentMessage)
        requires
            keys_of(v, m0), 0 <= i < v.len(),
            forall|j: int| 0 <= j < v.len() ==> telling(m0, a, #[trigger] v[j] as int, but, m, j < i),
            b == a || b == a.remove(v[i] as int) || b == a.insert(v[i] as int, b[v[i] as int]),
            telling(m0, b, v[i] as int, but, m, true),
        ensures
            forall|j: int| 0 <= j < v.len() ==> telling(m0, b, #[trigger] v[j] as int, but, m, j < i + 1),
    {
        assert forall|j: int| 0 <= j < v.len() implies telling(m0, b, #[trigger] v[j] as int, but, m, j < i + 1) by {
            if j != i {
                let e = v[j] as int;
                assert(key_order(m0)[j] != key_order(m0)[i]);
                assert(e != v[i] as int);
                assert(a.dom().contains(e) == b.dom().contains(e));
                assert(a[e] == b[e]);
            }
        }
    }

    pub proof fn lemma_named(v: Seq<&RelativePath>, d: Seq<FileTextDelta>, i: int)
        requires
            names_in(v) == delta_files(d), 0 <= i < v.len(),
            forall|i: int| 0 <= i < d.len() ==> normal((#[trigger] d[i]).file_path.text()),
        ensures normal(v[i].text()),
    {
        let f = |p: &RelativePath| p.text();
        let g = |d: FileTextDelta| d.file_path.text();
        assert(v.map_values(f)[i] == v[i].text());
        assert(names_in(v).contains(v[i].text()));
        let ds = d.map_values(g);
        let j = choose|j: int| 0 <= j < ds.len() && ds[j] == v[i].text();
        assert(d[j].file_path.text() == v[i].text());
    }
}

/// A `HashSet` of paths: a list without the promise of an order.
pub open spec fn names_in(v: Seq<&RelativePath>) -> Set<Seq<char>> { v.map_values(|p: &RelativePath| p.text()).to_set() }

#[verifier::external_body]
pub fn path_set<'a>() -> (r: Vec<&'a RelativePath>)
    ensures r@.len() == 0,
{ unimplemented!() }

pub trait VInsert<T> {
    spec fn inserted(&self, x: T, after: &Self) -> bool;
    fn vinsert(&mut self, x: T) -> (r: bool)
        ensures old(self).inserted(x, final(self));
}

impl<'a> VInsert<&'a RelativePath> for Vec<&'a RelativePath> {
    open spec fn inserted(&self, x: &'a RelativePath, after: &Self) -> bool { names_in(after@) == names_in(self@).insert(x.text()) }
    #[verifier::external_body]
    fn vinsert(&mut self, x: &'a RelativePath) -> (r: bool) { unimplemented!() }
}

/// These files may be written out.
pub open spec fn writes(m: Editors, f: Map<Seq<char>, Seq<char>>, k: Seq<char>) -> bool { unowned(m, k) && f.dom().contains(k) }

pub open spec fn same_file(w0: VWorld, w1: VWorld, loc: Names) -> bool {
    w1.files@.dom().contains(loc) == w0.files@.dom().contains(loc) && w1.files@[loc] == w0.files@[loc]
}

/// No other of these files is at the same place.
pub open spec fn alone(base: Seq<char>, s: Set<Seq<char>>, k: Seq<char>) -> bool {
    forall|j: Seq<char>| #[trigger] s.contains(j) && j != k ==> file_loc(base, j) != file_loc(base, k)
}

pub open spec fn all_written(m: Editors, f: Map<Seq<char>, Seq<char>>, base: Seq<char>, s: Set<Seq<char>>, w0: VWorld, w1: VWorld) -> bool {
    &&& forall|loc: Names| #[trigger] same_file(w0, w1, loc) || exists|k: Seq<char>| #[trigger] s.contains(k) && writes(m, f, k) && file_loc(base, k) == Some(loc)
    &&& forall|k: Seq<char>| #[trigger] s.contains(k) && writes(m, f, k) && writable(base, k) && alone(base, s, k) ==>
            w1.files@.dom().contains(file_loc(base, k)->0) && w1.files@[file_loc(base, k)->0] == utf8(f[k])
}

/// The text a file on disk has, if any.
pub open spec fn disk_text(base: Seq<char>, k: Seq<char>, w: VWorld) -> Option<Seq<char>> {
    let loc = file_loc(base, k)->0;
    if inside(base, file_loc(base, k)) && w.files@.dom().contains(loc) && can_read(loc) { utf8_text(w.files@[loc]) } else { None }
}

pub open spec fn delta_files(v: Seq<FileTextDelta>) -> Set<Seq<char>> { v.map_values(|d: FileTextDelta| d.file_path.text()).to_set() }

/// One editor is brought to the shared text of a file.
pub open spec fn caught_up(m0: Editors, m1: Editors, e: int, base: Seq<char>, k: Seq<char>, f: Map<Seq<char>, Seq<char>>) -> bool {
    if !f.dom().contains(k) || !m0.dom().contains(e) {
        m1 == m0
    } else {
        exists|c: EditorConnection, r: Seq<EditorProtocolMessageToEditor>| #[trigger] brought_to(m0[e].0.open(), c.open(), base, k, f[k], r)
            && c.inv() && c.same_editor(m0[e].0)
            && sends(m0.insert(e, (c, m0[e].1)), m1, e, requests(r))
    }
}

/// "an identity unique to that daemon and editor connection".
pub open spec fn cursor_name(actor: Seq<char>, e: int) -> Seq<char> { actor + "-"@ + decimal(e) }

/// Tells that a cursor is nowhere any more.
pub open spec fn cursor_gone(m: ComponentMessage, id: Seq<char>) -> bool {
    m is Cursor && m->cursor_id@ == id && m->name is None && m->ranges@.len() == 0
}


/// What a message does to the document, and to the files that follow it.
pub open spec fn doc_takes(d0: Document, d1: Document, m: Editors, base: Seq<char>, msg: ComponentMessage, w0: VWorld, w1: VWorld) -> bool {
    &&& d1.inv() && d1.doc.actor() == d0.doc.actor() && d1.doc.covered() == d0.doc.covered()
    &&& match msg {
        ComponentMessage::Open { file_path } => {
            let k = file_path.text();
            let t = disk_text(base, k, w0);
            &&& w1 == w0 && d1.cursors() == d0.cursors()
            &&& d1.shared() == (if d0.shared().dom().contains(k) { d0.shared() } else { d0.shared().insert(k, if t is Some { t->0 } else { Seq::empty() }) })
        },
        ComponentMessage::Close { file_path } => {
            &&& d1.shared() == d0.shared() && d1.cursors() == d0.cursors()
            &&& written(m, d1.shared(), base, file_path.text(), w0, w1)
        },
        ComponentMessage::Edit { file_path, delta } => {
            let k = file_path.text();
            &&& d1.shared() == d0.shared().insert(k, apply(delta.ops(), d0.shared()[k])) && d1.cursors() == d0.cursors()
            &&& written(m, d1.shared(), base, k, w0, w1)
        },
        ComponentMessage::Cursor { cursor_id, name, file_path, ranges } => {
            &&& w1 == w0 && d1.shared() == d0.shared()
            &&& d1.cursors() == d0.cursors().insert(cursor_id@, cursor_json(cursor_id@, opt_text(name), file_path.text(), ranges@))
        },
    }
}

/// All editors have the shared text of what they have open.
pub open spec fn conn_synced(c: EditorConnection, f: Map<Seq<char>, Seq<char>>) -> bool {
    forall|k: Seq<char>| #[trigger] c.open().dom().contains(k) ==> f.dom().contains(k) && c.open()[k].current_content@ == f[k]
}

pub open spec fn synced(m: Editors, f: Map<Seq<char>, Seq<char>>) -> bool {
    forall|e: int| #[trigger] m.dom().contains(e) ==> conn_synced(m[e].0, f)
}

/// A message from an editor is passed on to the others, who follow; the one who opens a file gets its text.
pub open spec fn passed_on(m1: Editors, m3: Editors, e: usize, base: Seq<char>, out: ComponentMessage, f: Map<Seq<char>, Seq<char>>) -> bool {
    exists|m2: Editors| #[trigger] all_told(m1, m2, Some(e), out)
        && (if out is Open { caught_up(m2, m3, e as int, base, out->Open_file_path.text(), f) } else { m3 == m2 })
}

pub open spec fn reacts(a0: DocumentActor, a1: DocumentActor, w0: VWorld, w1: VWorld, e: usize, msg: EditorProtocolMessageFromEditor) -> bool {
    exists|c: EditorConnection, out: ComponentMessage, back: Seq<EditorProtocolMessageToEditor>, m3: Editors|
        #[trigger] reacts_so(a0, a1, w0, w1, e, msg, c, out, back, m3)
}

pub open spec fn reacts_so(a0: DocumentActor, a1: DocumentActor, w0: VWorld, w1: VWorld, e: usize, msg: EditorProtocolMessageFromEditor,
    c: EditorConnection, out: ComponentMessage, back: Seq<EditorProtocolMessageToEditor>, m3: Editors) -> bool
{
    let m0 = a0.editors();
    let m1 = m0.insert(e as int, (c, m0[e as int].1));
    let w = if msg is Open { w1 } else { w0 };
    &&& carries_out(m0[e as int].0, c, w0, w, msg, out, back) && c.inv() && c.same_editor(m0[e as int].0)
    &&& doc_takes(a0.crdt_doc, a1.crdt_doc, m1, a0.base(), out, w, w1)
    &&& passed_on(m1, m3, e, a0.base(), out, a1.shared())
    &&& sends(m3, a1.editors(), e as int, requests(back))
}


/// What editors send, as read by serde.
pub uninterp spec fn request_of(s: Seq<char>) -> Option<JSONRPCFromEditor>;

#[verifier::external_body]
pub fn json_request(s: &str) -> (r: Result<JSONRPCFromEditor, AnyhowError>)
    ensures r is Ok <==> request_of(s@) is Some, r is Ok ==> r->Ok_0 == request_of(s@)->0,
{ unimplemented!() }

/// A refused request changes nothing; an attempt to open may have created the file.
pub open spec fn refused(a0: DocumentActor, a1: DocumentActor, w0: VWorld, w1: VWorld, e: usize, msg: EditorProtocolMessageFromEditor) -> bool {
    let (m0, m1) = (a0.editors(), a1.editors());
    &&& a1.same_doc(a0)
    &&& m1 == m0.insert(e as int, m1[e as int]) && m1[e as int].1 == m0[e as int].1
    &&& m1[e as int].0.open() == m0[e as int].0.open() && m1[e as int].0.same_editor(m0[e as int].0)
    &&& w1 == w0 || msg is Open && only_inside(a0.base(), message_uri(msg).skip(7), w0, w1)
}

pub open spec fn reacts_or_refuses(a0: DocumentActor, a1: DocumentActor, w0: VWorld, w1: VWorld, e: usize, msg: EditorProtocolMessageFromEditor) -> bool {
    if accepts(a0.editors()[e as int].0, w0, msg) { reacts(a0, a1, w0, w1, e, msg) } else { refused(a0, a1, w0, w1, e, msg) }
}

/// The response to a request.
pub open spec fn answers(o: EditorProtocolObject, id: Option<usize>, ok: bool) -> bool {
    o is Response && match o->Response_0 {
        JSONRPCResponse::RequestSuccess { id: i, .. } => ok && id == Some(i),
        JSONRPCResponse::RequestError { id: i, .. } => !ok && id == i,
    }
}

/// One response and nothing else.
pub open spec fn responds(a0: DocumentActor, a1: DocumentActor, e: usize, id: Option<usize>, ok: bool) -> bool {
    a1.same_doc(a0) && exists|o: EditorProtocolObject| answers(o, id, ok) && #[trigger] sends(a0.editors(), a1.editors(), e as int, seq![o])
}

pub open spec fn handles_request(a0: DocumentActor, a1: DocumentActor, w0: VWorld, w1: VWorld, e: usize, text: Seq<char>) -> bool {
    if !a0.editors().dom().contains(e as int) {
        a1 == a0 && w1 == w0
    } else {
        match request_of(text) {
            None => responds(a0, a1, e, None, false) && w1 == w0,
            Some(JSONRPCFromEditor::Notification { payload }) => reacts_or_refuses(a0, a1, w0, w1, e, payload),
            Some(JSONRPCFromEditor::Request { id, payload }) => exists|a: DocumentActor| #[trigger] reacts_or_refuses(a0, a, w0, w1, e, payload)
                && responds(a, a1, e, Some(id), accepts(a0.editors()[e as int].0, w0, payload)),
        }
    }
}


pub open spec fn event_path(e: WatcherEvent) -> Seq<char> {
    match e {
        WatcherEvent::Created { file_path } => file_path@,
        WatcherEvent::Removed { file_path } => file_path@,
        WatcherEvent::Changed { file_path } => file_path@,
    }
}

/// The shared file a path on disk stands for.
pub open spec fn watched(base: Seq<char>, path: Seq<char>) -> Seq<char> {
    rel_text(cleaned(path_names(path)).skip(cleaned(path_names(base)).len() as int))
}

/// What the file at this path says.
pub open spec fn path_text(base: Seq<char>, path: Seq<char>, w: VWorld) -> Option<Seq<char>> {
    let loc = denotes(path)->0;
    if can_act(base, path) && w.files@.dom().contains(loc) && can_read(loc) { utf8_text(w.files@[loc]) } else { None }
}

/// The shared texts after an event on disk.
pub open spec fn follows_disk(m: Editors, f: Map<Seq<char>, Seq<char>>, base: Seq<char>, e: WatcherEvent, w: VWorld) -> Map<Seq<char>, Seq<char>> {
    let k = watched(base, event_path(e));
    let t = path_text(base, event_path(e), w);
    if !unowned(m, k) {
        f
    } else {
        match e {
            WatcherEvent::Created { .. } => if f.dom().contains(k) || t is None { f } else { f.insert(k, t->0) },
            WatcherEvent::Removed { .. } => f.remove(k),
            WatcherEvent::Changed { .. } => if t is None { f } else { f.insert(k, t->0) },
        }
    }
}

/// `Path::new(&path)`.
pub fn path_ref(p: &PathBuf) -> (r: &PathBuf)
    ensures *r == *p,
{ p }

pub type VWalk = Vec<Result<DirEntry, IoError>>;

/// There is a file at the place of a shared file.
pub open spec fn on_disk(base: Seq<char>, k: Seq<char>, w: VWorld) -> bool {
    inside(base, file_loc(base, k)) && w.there(file_loc(base, k)->0)
}

/// The shared name of a file found below the project directory.
pub open spec fn found_name(base: Seq<char>, n: Names) -> Seq<char> { rel_text(cleaned(n).skip(cleaned(path_names(base)).len() as int)) }

/// A shareable text file.
pub open spec fn found(base: Seq<char>, n: Names, w: VWorld) -> bool {
    shareable(base, w, n, false) && disk_text(base, found_name(base, n), w) is Some
}

/// "the directory is the source of truth"
pub open spec fn as_on_disk(f0: Map<Seq<char>, Seq<char>>, f1: Map<Seq<char>, Seq<char>>, base: Seq<char>, w: VWorld) -> bool {
    &&& forall|n: Names| #[trigger] found(base, n, w) ==>
            f1.dom().contains(found_name(base, n)) && f1[found_name(base, n)] == disk_text(base, found_name(base, n), w)->0
    &&& forall|k: Seq<char>| #[trigger] f1.dom().contains(k) ==> on_disk(base, k, w)
            && ((f0.dom().contains(k) && f1[k] == f0[k]) || exists|n: Names| #[trigger] found(base, n, w) && found_name(base, n) == k)
    &&& forall|k: Seq<char>| #[trigger] f0.dom().contains(k) && on_disk(base, k, w) ==> f1.dom().contains(k)
}

/// The first `i` files of a walk have been taken in.
pub open spec fn walked(v: Seq<Result<DirEntry, IoError>>, i: int, f0: Map<Seq<char>, Seq<char>>, f1: Map<Seq<char>, Seq<char>>, base: Seq<char>, w: VWorld) -> bool {
    &&& forall|j: int| #![trigger v[j]] 0 <= j < i ==> walked_one(v[j], f1, base, w)
    &&& forall|k: Seq<char>| #[trigger] f1.dom().contains(k) ==>
            (f0.dom().contains(k) && f1[k] == f0[k]) || exists|n: Names| #[trigger] found(base, n, w) && found_name(base, n) == k && f1[k] == disk_text(base, k, w)->0
    &&& forall|k: Seq<char>| #[trigger] f0.dom().contains(k) ==> f1.dom().contains(k)
}

pub open spec fn entry_name(x: Result<DirEntry, IoError>, base: Seq<char>) -> Seq<char> { found_name(base, path_names((x->Ok_0).path@)) }

pub open spec fn walked_one(x: Result<DirEntry, IoError>, f1: Map<Seq<char>, Seq<char>>, base: Seq<char>, w: VWorld) -> bool {
    let k = entry_name(x, base);
    x is Ok && (x->Ok_0).kind.file() && disk_text(base, k, w) is Some ==> f1.dom().contains(k) && f1[k] == disk_text(base, k, w)->0
}

pub open spec fn all_normal(s: Set<Seq<char>>) -> bool { forall|k: Seq<char>| #[trigger] s.contains(k) ==> normal(k) }

/// Of the names seen so far, only those on disk are left.
pub open spec fn pruned(v: Seq<RelativePath>, i: int, f0: Map<Seq<char>, Seq<char>>, f1: Map<Seq<char>, Seq<char>>, base: Seq<char>, w: VWorld) -> bool {
    &&& forall|k: Seq<char>| #[trigger] f1.dom().contains(k) ==> f0.dom().contains(k) && f1[k] == f0[k]
    &&& forall|k: Seq<char>| #[trigger] f0.dom().contains(k) && on_disk(base, k, w) ==> f1.dom().contains(k)
    &&& forall|j: int| #![trigger v[j]] 0 <= j < i && f1.dom().contains(v[j].text()) ==> on_disk(base, v[j].text(), w)
}

pub open spec fn all_walked(f0: Map<Seq<char>, Seq<char>>, f1: Map<Seq<char>, Seq<char>>, base: Seq<char>, w: VWorld) -> bool {
    exists|v: Seq<Result<DirEntry, IoError>>| walk_is(v, base, w, false) && #[trigger] walked(v, v.len() as int, f0, f1, base, w)
}

/// Where the document is kept between runs.
pub open spec fn state_loc(base: Seq<char>) -> Option<Names> { place(cleaned(path_names(base) + path_names(".ethersync/doc"@))) }

pub open spec fn has_state(base: Seq<char>, w: VWorld) -> bool { inside(base, state_loc(base)) && w.there(state_loc(base)->0) }

/// The kept document.
pub open spec fn state(base: Seq<char>, w: VWorld) -> Am { am_loads(w.files@[state_loc(base)->0])->0 }

/// What was kept comes from a daemon.
pub open spec fn sound_state(base: Seq<char>, w: VWorld) -> bool {
    has_state(base, w) && am_loads(w.files@[state_loc(base)->0]) is Some ==> doc_ok(state(base, w)) && all_normal(names_of(state(base, w)))
}

/// Texts that stay keep their history.
pub open spec fn continued(v0: Am, v1: Am) -> bool {
    forall|k: Seq<char>| #[trigger] files_of(v1).dom().contains(k) && files_of(v0).dom().contains(k) ==> v1.maps[files_id(v1)][k] == v0.maps[files_id(v0)][k]
}

pub open spec fn starts(a: DocumentActor, base: Seq<char>, init: bool, host: bool, w: VWorld) -> bool {
    &&& a.ok() && a.base() == base && a.save_fully && a.editors() == Map::<int, (EditorConnection, EditorWriter)>::empty()
    &&& if has_state(base, w) && !init {
        as_on_disk(files_of(state(base, w)), a.shared(), base, w) && continued(state(base, w), a.crdt_doc.doc@)
    } else if has_state(base, w) || host {
        as_on_disk(Map::empty(), a.shared(), base, w)
    } else {
        a.shared() == Map::<Seq<char>, Seq<char>>::empty()
    }
}

/// Saving, the first time in a run and later.
pub open spec fn saved(a0: DocumentActor, a1: DocumentActor, w0: VWorld, w1: VWorld) -> bool {
    let loc = state_loc(a0.base())->0;
    &&& a1.editors() == a0.editors() && a1.base_dir == a0.base_dir && a1.crdt_doc.doc@ == a0.crdt_doc.doc@ && a1.crdt_doc.doc.actor() == a0.crdt_doc.doc.actor()
    &&& a1.crdt_doc.doc.covered() == a1.crdt_doc.doc@
    &&& inside(a0.base(), state_loc(a0.base())) && w1.only_at(w0, loc) && w1.files@.dom().contains(loc)
    &&& a0.save_fully || am_loads(w0.files@[loc]) == Some(a0.crdt_doc.doc.covered()) ==> am_loads(w1.files@[loc]) == Some(a1.crdt_doc.doc@)
}

pub open spec fn handles(a0: DocumentActor, a1: DocumentActor, w0: VWorld, w1: VWorld, m: DocMessage) -> bool {
    match m {
        DocMessage::GetContent { .. } => a1 == a0 && w1 == w0,
        DocMessage::FromEditor(e, text) => handles_request(a0, a1, w0, w1, e, text@),
        DocMessage::FromWatcher(ev) => w1 == w0 && a1.same_editors(a0) && a1.crdt_doc.same_meta(a0.crdt_doc)
            && a1.shared() == follows_disk(a0.editors(), a0.shared(), a0.base(), ev, w0),
        DocMessage::Persist => saved(a0, a1, w0, w1),
        DocMessage::RandomEdit => true,
        DocMessage::ReceiveSyncMessage { .. } => syncs(a0, a1, w0, w1),
        DocMessage::GenerateSyncMessage { .. } => w1 == w0 && a1.same_editors(a0) && a1.crdt_doc.doc@ == a0.crdt_doc.doc@,
        DocMessage::NewEditorConnection(e, writer) => {
            &&& w1 == w0 && a1.same_doc(a0)
            &&& exists|c: EditorConnection| #[trigger] a1.editors() == a0.editors().insert(e as int, (c, writer)) && c.inv()
                && c.id@ == cursor_name(a0.crdt_doc.doc.actor(), e as int) && c.open() == Map::<Seq<char>, OTServer>::empty() && c.base_dir@ == a0.base()
        },
        DocMessage::CloseEditorConnection(e) => {
            &&& w1 == w0 && a1.shared() == a0.shared() && a1.base_dir == a0.base_dir && a1.save_fully == a0.save_fully
            &&& exists|g: ComponentMessage| cursor_gone(g, cursor_name(a0.crdt_doc.doc.actor(), e as int))
                && #[trigger] all_told(a0.editors().remove(e as int), a1.editors(), None, g)
        },
    }
}

/// `TEST_FILE_PATH`: only for instrumentation.
#[verifier::external_body]
pub fn test_file_path() -> (r: &'static str) { unimplemented!() }
