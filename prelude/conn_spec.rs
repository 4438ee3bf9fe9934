// What an editor connection does (C10, C11, C13, C18).
/// A URI of this file.
pub open spec fn uri_for(base: Seq<char>, rel: Seq<char>, uri: Seq<char>) -> bool {
    exists|t: Seq<char>| uri == #[trigger] (file_prefix() + t) && is_abs(t) && path_names(t) == path_names(base) + path_names(rel)
}

/// The shared file an editor means by a URI.
pub open spec fn editor_file(base: Seq<char>, uri: Seq<char>) -> Option<Seq<char>> {
    let file = cleaned(path_names(uri.skip(7)));
    if is_file_uri(uri) && strictly_below(path_names(base), file) {
        Some(rel_text(file.skip(cleaned(path_names(base)).len() as int)))
    } else {
        None
    }
}

/// A server that has just been started with this text.
pub open spec fn fresh_server(s: OTServer, text: Seq<char>) -> bool {
    &&& s.inv() && s.current_content@ == text && s.last_confirmed_editor_content@ == text
    &&& s.editor_revision == 0 && s.daemon_revision == 0 && s.editor_queue@.len() == 0 && s.operations@.len() == 0
}

/// Edit messages as edits with revisions.
pub open spec fn revs_of(v: Seq<EditorProtocolMessageToEditor>) -> Seq<RevisionedEditorTextDelta> {
    v.map_values(|m: EditorProtocolMessageToEditor| rev_of(m))
}

pub open spec fn rev_of(m: EditorProtocolMessageToEditor) -> RevisionedEditorTextDelta {
    RevisionedEditorTextDelta { revision: m->Edit_revision, delta: m->Edit_delta }
}

/// All are edits of this file.
pub open spec fn edits_of(v: Seq<EditorProtocolMessageToEditor>, base: Seq<char>, rel: Seq<char>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Edit && uri_for(base, rel, v[i]->Edit_uri@)
}

pub open spec fn same_name(a: Option<String>, b: Option<String>) -> bool {
    (a is Some <==> b is Some) && (a is Some ==> (a->0)@ == (b->0)@)
}

pub open spec fn servers_ok(m: Map<Seq<char>, OTServer>) -> bool {
    forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> normal(k) && m[k].inv()
}

impl EditorConnection {
    /// The open files.
    pub open spec fn open(self) -> Map<Seq<char>, OTServer> { self.ot_servers@ }

    pub open spec fn inv(self) -> bool {
        &&& is_abs(self.base_dir@) && is_base(self.base_dir@)
        &&& servers_ok(self.ot_servers@)
    }

    /// Everything but the open files is as before.
    pub open spec fn same_editor(self, o: EditorConnection) -> bool { self.id@ == o.id@ && self.base_dir@ == o.base_dir@ }

    /// The message can be passed to the editor.
    pub open spec fn can_hear(self, m: ComponentMessage) -> bool {
        match m {
            ComponentMessage::Edit { file_path, delta } => normal(file_path.text())
                && (self.open().dom().contains(file_path.text()) ==> fits(delta.ops(), self.open()[file_path.text()].current_content@)),
            ComponentMessage::Cursor { file_path, .. } => !is_abs(file_path.text()),
            _ => true,
        }
    }
}

/// The editor is brought from what it is known to have to `text`; `r` goes to the editor.
pub open spec fn brought_to(m0: Map<Seq<char>, OTServer>, m1: Map<Seq<char>, OTServer>, base: Seq<char>, k: Seq<char>, text: Seq<char>, r: Seq<EditorProtocolMessageToEditor>) -> bool {
    if m0.dom().contains(k) {
        let (s0, s1) = (m0[k], m1[k]);
        &&& m1 == m0.insert(k, s1)
        &&& s1.current_content@ == text && edits_of(r, base, k)
        &&& s0.current_content@ == text ==> r.len() == 0 && s1 == s0
        &&& s0.current_content@ != text ==> r.len() == 1
            && exists|d: Seq<Op>| fits(d, s0.current_content@) && #[trigger] crdt_step(s0, s1, d, rev_of(r[0]))
    } else {
        m1 == m0 && r.len() == 0
    }
}

/// A connection is told what happened elsewhere; `r` goes to the editor.
pub open spec fn hears(c0: EditorConnection, c1: EditorConnection, m: ComponentMessage, r: Seq<EditorProtocolMessageToEditor>) -> bool {
    &&& c1.inv() && c1.same_editor(c0)
    &&& match m {
        ComponentMessage::Edit { file_path, delta } => {
            let k = file_path.text();
            if c0.open().dom().contains(k) {
                &&& r.len() == 1 && edits_of(r, c0.base_dir@, k)
                &&& c1.open() == c0.open().insert(k, c1.open()[k])
                &&& crdt_step(c0.open()[k], c1.open()[k], delta.ops(), rev_of(r[0]))
            } else {
                c1.open() == c0.open() && r.len() == 0
            }
        },
        ComponentMessage::Cursor { cursor_id, name, file_path, ranges } => {
            &&& c1.open() == c0.open() && r.len() == 1 && r[0] is Cursor
            &&& r[0]->Cursor_userid@ == cursor_id@ && same_name(r[0]->Cursor_name, name) && r[0]->ranges@ == ranges@
            &&& uri_for(c0.base_dir@, file_path.text(), r[0]->Cursor_uri@)
        },
        _ => c1.open() == c0.open() && r.len() == 0,
    }
}

/// An editor asked for; None if that is refused whatever the state.
pub open spec fn message_uri(m: EditorProtocolMessageFromEditor) -> Seq<char> {
    match m {
        EditorProtocolMessageFromEditor::Open { uri } => uri@,
        EditorProtocolMessageFromEditor::Close { uri } => uri@,
        EditorProtocolMessageFromEditor::Edit { uri, .. } => uri@,
        EditorProtocolMessageFromEditor::Cursor { uri, .. } => uri@,
    }
}

/// The world after making sure that the file exists.
pub open spec fn with_file(w: VWorld, loc: Names) -> VWorld {
    if w.there(loc) { w } else { VWorld { files: Ghost(w.files@.insert(loc, Seq::empty())), dirs: w.dirs, pings: w.pings } }
}

/// "Files .. excluded by ignore rules" are refused, as are those that aren't texts.
pub open spec fn openable(base: Seq<char>, path: Seq<char>, w: VWorld) -> bool {
    let loc = denotes(path)->0;
    let w1 = with_file(w, loc);
    &&& can_act(base, path)
    &&& w.there(loc) || can_write(loc)
    &&& shared_file(base, w1, loc)
    &&& w1.files@.dom().contains(loc) && can_read(loc) && utf8_text(w1.files@[loc]) is Some
}

/// The request is carried out.
pub open spec fn accepts(c: EditorConnection, w: VWorld, m: EditorProtocolMessageFromEditor) -> bool {
    let f = editor_file(c.base_dir@, message_uri(m));
    &&& f is Some
    &&& match m {
        EditorProtocolMessageFromEditor::Open { uri } => openable(c.base_dir@, uri@.skip(7), w),
        EditorProtocolMessageFromEditor::Edit { uri, revision, delta } =>
            c.open().dom().contains(f->0) && c.open()[f->0].takes(RevisionedEditorTextDelta { revision, delta }),
        _ => true,
    }
}

/// The effects of an accepted request; `out` goes to the document, `back` to the editor.
pub open spec fn carries_out(
    c0: EditorConnection, c1: EditorConnection, w0: VWorld, w1: VWorld, m: EditorProtocolMessageFromEditor,
    out: ComponentMessage, back: Seq<EditorProtocolMessageToEditor>,
) -> bool {
    let k = editor_file(c0.base_dir@, message_uri(m))->0;
    &&& normal(k)
    &&& match m {
        EditorProtocolMessageFromEditor::Open { uri } => {
            let loc = denotes(uri@.skip(7))->0;
            &&& w1 == with_file(w0, loc)
            &&& c1.open() == c0.open().insert(k, c1.open()[k])
            &&& fresh_server(c1.open()[k], utf8_text(w1.files@[loc])->0)
            &&& out is Open && out->Open_file_path.text() == k && back.len() == 0
        },
        EditorProtocolMessageFromEditor::Close { uri } => {
            &&& w1 == w0 && c1.open() == c0.open().remove(k)
            &&& out is Close && out->Close_file_path.text() == k && back.len() == 0
        },
        EditorProtocolMessageFromEditor::Edit { uri, revision, delta } => {
            &&& w1 == w0 && c1.open() == c0.open().insert(k, c1.open()[k])
            &&& out is Edit && out->Edit_file_path.text() == k
            &&& edits_of(back, c0.base_dir@, k)
            &&& editor_step(c0.open()[k], c1.open()[k], RevisionedEditorTextDelta { revision, delta }, out->delta.ops(), revs_of(back))
        },
        EditorProtocolMessageFromEditor::Cursor { uri, ranges } => {
            &&& w1 == w0 && c1.open() == c0.open()
            &&& out is Cursor && out->Cursor_file_path.text() == k && out->cursor_id@ == c0.id@ && out->ranges@ == ranges@ && back.len() == 0
        },
    }
}
