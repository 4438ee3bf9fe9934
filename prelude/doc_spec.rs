// What a `Document` holds.

pub open spec fn files_key() -> Seq<char> { "files"@ }
pub open spec fn states_key() -> Seq<char> { "states"@ }

pub proof fn lemma_keys()
    ensures files_key() != states_key(),
{
    reveal_strlit("files");
    reveal_strlit("states");
    assert(files_key().len() != states_key().len());
}

pub open spec fn top_map(v: Am, k: Seq<char>) -> Option<int> {
    if v.has(0, k) && v.maps[0][k] is Map { Some(v.maps[0][k]->Map_0) } else { None }
}

pub open spec fn files_id(v: Am) -> int { top_map(v, files_key())->0 }
pub open spec fn states_id(v: Am) -> int { top_map(v, states_key())->0 }

/// The texts hanging in map `m`.
pub open spec fn texts_in(v: Am, m: int) -> Map<Seq<char>, Seq<char>> {
    Map::new(v.maps[m].dom().filter(|k: Seq<char>| v.has(m, k) && v.maps[m][k] is Text), |k: Seq<char>| v.texts[v.maps[m][k]->Text_0])
}

pub open spec fn doc_ok(v: Am) -> bool {
    v.wf() && top_map(v, files_key()) is Some && top_map(v, states_key()) is Some
}

/// The shared files.
pub open spec fn files_of(v: Am) -> Map<Seq<char>, Seq<char>> { texts_in(v, files_id(v)) }
/// What is stored about cursors.
pub open spec fn cursors_of(v: Am) -> Map<Seq<char>, Seq<char>> { texts_in(v, states_id(v)) }

/// All keys in the file map.
pub open spec fn names_of(v: Am) -> Set<Seq<char>> { v.maps[files_id(v)].dom() }

/// Replacing the text of an object.
pub proof fn lemma_set_text(v: Am, w: Am, k: Seq<char>, i: int, t: Seq<char>)
    requires
        doc_ok(v), w.maps == v.maps, w.texts == v.texts.insert(i, t),
        v.has(files_id(v), k), v.maps[files_id(v)][k] == Entry::Text(i),
    ensures
        doc_ok(w), files_of(w) == files_of(v).insert(k, t), cursors_of(w) == cursors_of(v), names_of(w) == names_of(v),
{
    lemma_keys();
    let (f, s) = (files_id(v), states_id(v));
    assert(v.has(0, files_key()) && v.has(0, states_key()));
    assert(f != s);
    assert forall|m: int, q: Seq<char>| #[trigger] w.has(m, q) == v.has(m, q) by {}
    assert(w.wf());
    assert forall|q: Seq<char>| #[trigger] v.has(f, q) && v.maps[f][q] is Text && q != k implies v.maps[f][q]->Text_0 != i by {
        assert(v.has(f, k));
    }
    assert forall|q: Seq<char>| #[trigger] v.has(s, q) && v.maps[s][q] is Text implies v.maps[s][q]->Text_0 != i by {
        assert(v.has(f, k));
    }
    assert(files_of(w) =~= files_of(v).insert(k, t));
    assert(cursors_of(w) =~= cursors_of(v));
}

/// Hanging a new text into map `m`.
pub proof fn lemma_new_text(v: Am, w: Am, m: int, k: Seq<char>, i: int, t: Seq<char>)
    requires
        doc_ok(v), m == files_id(v) || m == states_id(v),
        !v.maps.dom().contains(i), !v.texts.dom().contains(i),
        w.maps == v.maps.insert(m, v.maps[m].insert(k, Entry::Text(i))), w.texts == v.texts.insert(i, t),
    ensures
        doc_ok(w), files_id(w) == files_id(v), states_id(w) == states_id(v), files_id(v) != states_id(v),
        texts_in(w, m) == texts_in(v, m).insert(k, t),
        m == files_id(v) ==> cursors_of(w) == cursors_of(v) && names_of(w) == names_of(v).insert(k),
        m == states_id(v) ==> files_of(w) == files_of(v) && names_of(w) == names_of(v),
{
    lemma_keys();
    let (f, s) = (files_id(v), states_id(v));
    assert(v.has(0, files_key()) && v.has(0, states_key()));
    assert(f != s);
    assert(m != 0);
    assert forall|a: int, q: Seq<char>| #[trigger] w.has(a, q) == (v.has(a, q) || (a == m && q == k)) by {}
    assert forall|a: int, q: Seq<char>| #[trigger] v.has(a, q) implies entry_id(v.maps[a][q]) != Some(i) by {}
    assert(w.maps[0] == v.maps[0]);
    assert(w.wf()) by {
        assert forall|a: int, q: Seq<char>, b: int, l: Seq<char>| #[trigger] w.has(a, q) && #[trigger] w.has(b, l)
            && entry_id(w.maps[a][q]) is Some && entry_id(w.maps[a][q]) == entry_id(w.maps[b][l]) implies a == b && q == l by {
            assert(v.has(a, q) || (a == m && q == k));
            assert(v.has(b, l) || (b == m && l == k));
        }
    }
    assert forall|q: Seq<char>| #[trigger] v.has(f, q) && v.maps[f][q] is Text implies v.maps[f][q]->Text_0 != i by {}
    assert forall|q: Seq<char>| #[trigger] v.has(s, q) && v.maps[s][q] is Text implies v.maps[s][q]->Text_0 != i by {}
    assert(texts_in(w, m) =~= texts_in(v, m).insert(k, t));
    if m == f {
        assert(cursors_of(w) =~= cursors_of(v));
        assert(names_of(w) =~= names_of(v).insert(k));
    } else {
        assert(files_of(w) =~= files_of(v));
    }
}

/// Removing a key from the file map.
pub proof fn lemma_remove(v: Am, w: Am, k: Seq<char>)
    requires doc_ok(v), w.texts == v.texts, w.maps == v.maps.insert(files_id(v), v.maps[files_id(v)].remove(k)),
    ensures doc_ok(w), files_of(w) == files_of(v).remove(k), cursors_of(w) == cursors_of(v), names_of(w) == names_of(v).remove(k),
{
    lemma_keys();
    let (f, s) = (files_id(v), states_id(v));
    assert(v.has(0, files_key()) && v.has(0, states_key()));
    assert(f != s && f != 0);
    assert forall|a: int, q: Seq<char>| #[trigger] w.has(a, q) == (v.has(a, q) && !(a == f && q == k)) by {}
    assert(w.maps[0] == v.maps[0]);
    assert(w.wf());
    assert(files_of(w) =~= files_of(v).remove(k));
    assert(cursors_of(w) =~= cursors_of(v));
    assert(names_of(w) =~= names_of(v).remove(k));
}

pub mod doclem {
    use super::*;

    /// Creating a text and filling it.
    pub broadcast proof fn lemma_filled(v: Am, w: Am, x: Am, m: int, k: Seq<char>, i: int, t: Seq<char>)
        requires doc_ok(v), m == files_id(v) || m == states_id(v), #[trigger] am_put(v, w, m, k, i), #[trigger] am_splice(w, x, i, 0, 0, t),
        ensures
            doc_ok(x), files_id(x) == files_id(v), states_id(x) == states_id(v), files_id(v) != states_id(v),
            m == files_id(v) ==> files_of(x) == files_of(v).insert(k, t) && cursors_of(x) == cursors_of(v) && names_of(x) == names_of(v).insert(k),
            m == states_id(v) ==> cursors_of(x) == cursors_of(v).insert(k, t) && files_of(x) == files_of(v) && names_of(x) == names_of(v),
    {
        assert(w.texts[i].take(0) + t + w.texts[i].skip(0) =~= t);
        assert(x.texts =~= v.texts.insert(i, t));
        lemma_new_text(v, x, m, k, i, t);
    }

    pub broadcast proof fn lemma_deleted(v: Am, w: Am, m: int, k: Seq<char>)
        requires doc_ok(v), m == files_id(v), #[trigger] am_del(v, w, m, k),
        ensures doc_ok(w), files_of(w) == files_of(v).remove(k), cursors_of(w) == cursors_of(v), names_of(w) == names_of(v).remove(k),
    {
        lemma_remove(v, w, k);
    }

    pub broadcast proof fn lemma_spliced(v: Am, w: Am, k: Seq<char>, i: int, p: int, n: int, s: Seq<char>)
        requires
            doc_ok(v), #[trigger] am_splice(v, w, i, p, n, s), #[trigger] v.has(files_id(v), k),
            v.maps[files_id(v)][k] == Entry::Text(i),
        ensures
            doc_ok(w), files_id(w) == files_id(v),
            files_of(w) == files_of(v).insert(k, files_of(v)[k].take(p) + s + files_of(v)[k].skip(p + n)),
            cursors_of(w) == cursors_of(v), names_of(w) == names_of(v),
    {
        lemma_set_text(v, w, k, i, v.texts[i].take(p) + s + v.texts[i].skip(p + n));
    }

    pub broadcast group group_doc { lemma_filled, lemma_deleted, lemma_spliced }
}

pub open spec fn texts_of(v: Seq<RelativePath>) -> Seq<Seq<char>> { v.map_values(|p: RelativePath| p.text()) }

impl AmKey for &RelativePath {
    open spec fn key(self) -> Seq<char> { self.text() }
    fn prop(self) -> (r: Prop) { self.vinto() }
}

impl Document {
    pub open spec fn inv(self) -> bool { doc_ok(self.doc@) }
    pub open spec fn shared(self) -> Map<Seq<char>, Seq<char>> { files_of(self.doc@) }
    pub open spec fn cursors(self) -> Map<Seq<char>, Seq<char>> { cursors_of(self.doc@) }
    pub open spec fn names(self) -> Set<Seq<char>> { names_of(self.doc@) }

    /// The objects behind the shared files: keeping one means that the history of the text goes on.
    pub open spec fn entries(self) -> Map<Seq<char>, Entry> { self.doc@.maps[files_id(self.doc@)] }

    /// Nothing but the shared files may have changed.
    pub open spec fn same_meta(self, o: Document) -> bool {
        self.inv() && self.doc.covered() == o.doc.covered() && self.doc.actor() == o.doc.actor() && self.cursors() == o.cursors()
    }
}

/// The stored form of a cursor.
pub uninterp spec fn cursor_json(id: Seq<char>, name: Option<Seq<char>>, path: Seq<char>, ranges: Seq<Range>) -> Seq<char>;

pub open spec fn opt_text(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }

/// `serde_json::to_string` of a cursor state.
#[verifier::external_body]
pub fn cursor_to_json(c: &CursorState) -> (r: Result<String, AmError>)
    ensures r is Ok, r->Ok_0@ == cursor_json(c.cursor_id@, opt_text(c.name), c.file_path.text(), c.ranges@),
{ unimplemented!() }
