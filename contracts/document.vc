@source daemon/src/document.rs

@fn Document::load | partial
@args bytes
@props C05 C20
@spec
ensures am_loads(bytes@) == Some(r.doc@), r.doc.covered() == r.doc@, r.doc@.wf()

@fn Document::save
@props C20
@spec
ensures
    final(self).doc@ == old(self).doc@, am_loads(r@) == Some(old(self).doc@), final(self).doc.covered() == old(self).doc@,
    final(self).doc.actor() == old(self).doc.actor(),

@fn Document::save_incremental
@props C20
@spec
ensures
    final(self).doc@ == old(self).doc@, final(self).doc.covered() == old(self).doc@, final(self).doc.actor() == old(self).doc.actor(),
    forall|a: Seq<u8>| am_loads(a) == Some(old(self).doc.covered()) ==> am_loads(#[trigger] (a + r@)) == Some(old(self).doc@),

@fn Document::actor_id
@props C21
@spec
ensures r@ == self.doc.actor()

@fn Document::top_level_map_obj
@args name
@props C05 C09 C21
@spec
requires self.doc@.wf()
ensures r is Ok <==> top_map(self.doc@, name@) is Some, r is Ok ==> r->Ok_0@ == top_map(self.doc@, name@)->0

@fn Document::text_obj
@args file_path
@props C05 C09
@spec
requires self.inv()
ensures
    r is Ok <==> self.shared().contains_key(file_path.text()),
    r is Ok ==> self.doc@.has(files_id(self.doc@), file_path.text())
        && self.doc@.maps[files_id(self.doc@)][file_path.text()] == Entry::Text(r->Ok_0@) && self.doc@.texts.dom().contains(r->Ok_0@),

@fn Document::current_file_content
@args file_path
@props C05 C08 C09
@spec
requires self.inv()
ensures
    r is Ok <==> self.shared().contains_key(file_path.text()),
    r is Ok ==> r->Ok_0@ == self.shared()[file_path.text()],

@fn Document::file_exists
@args file_path
@props C05 C14
@spec
requires self.inv()
ensures r == self.shared().contains_key(file_path.text())

@fn Document::initialize_text
@args text file_path
@props C05 C14
@spec
requires old(self).inv()
ensures
    final(self).same_meta(*old(self)),
    final(self).shared() == old(self).shared().insert(file_path.text(), text@),
    final(self).names() == old(self).names().insert(file_path.text()),
    final(self).entries() == old(self).entries().insert(file_path.text(), final(self).entries()[file_path.text()]),

@fn Document::apply_delta_to_doc
@args delta file_path
@props C05 C09
@spec
requires
    old(self).inv(), old(self).shared().contains_key(file_path.text()),
    fits(delta.ops(), old(self).shared()[file_path.text()]),
    apply(delta.ops(), old(self).shared()[file_path.text()]).len() <= isize::MAX,
ensures
    final(self).same_meta(*old(self)), final(self).names() == old(self).names(), final(self).entries() == old(self).entries(),
    final(self).shared() == old(self).shared().insert(file_path.text(), apply(delta.ops(), old(self).shared()[file_path.text()])),
@entry
let ghost d0 = *self;
let ghost t0 = old(self).shared()[file_path.text()];
let ghost k0 = file_path.text();
@loop 1
iter it
invariant
    d0 == *old(self), d0.inv(), k0 == file_path.text(), t0 == d0.shared()[k0], d0.shared().contains_key(k0), text@ == t0,
    self.same_meta(d0), self.names() == d0.names(), files_id(self.doc@) == files_id(d0.doc@), self.doc@.maps == d0.doc@.maps,
    d0.doc@.has(files_id(d0.doc@), k0), d0.doc@.maps[files_id(d0.doc@)][k0] == Entry::Text(text_obj@),
    realises(ed_delta.0@, t0, apply(delta.ops(), t0)), apply(delta.ops(), t0).len() <= isize::MAX, t0.len() <= isize::MAX,
    it.seq().len() == ed_delta.0@.len(),
    forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == ed_delta.0@[i],
    offset == ed_shift(eds_of(ed_delta.0@, t0).take(it.index@), t0),
    self.shared() == d0.shared().insert(k0, ed_apply(eds_of(ed_delta.0@, t0).take(it.index@), t0)),
@loop 1 before
proof {
    axiom_string_len(text);
    assert(eds_of(ed_delta.0@, t0).take(0) =~= Seq::<Ed>::empty());
    assert(ed_apply(Seq::<Ed>::empty(), t0) =~= t0);
    assert(d0.shared().insert(k0, t0) =~= d0.shared());
}
@loop 1 start
proof {
    let i = it.index@;
    let e = eds_of(ed_delta.0@, t0);
    axiom_string_len(op.replacement);
    assert(*op == ed_delta.0@[i]);
    assert(range_ok(op.range, t0));
    lemma_ed_step(e, t0, i);
    assert(self.doc@.has(files_id(self.doc@), k0));
    assert(self.shared()[k0] == self.doc@.texts[text_obj@]);
    let f = self.shared();
    assert forall|x: Seq<char>| #[trigger] f.insert(k0, x) == d0.shared().insert(k0, x) by {
        assert(f.insert(k0, x) =~= d0.shared().insert(k0, x));
    }
}
@loop 1 after
proof {
    let e = eds_of(ed_delta.0@, t0);
    assert(e.take(e.len() as int) =~= e);
}

@fn Document::update_text
@args desired_text file_path
@props C05 C08 C14
@spec
requires old(self).inv()
ensures
    final(self).same_meta(*old(self)),
    final(self).shared() == old(self).shared().insert(file_path.text(), desired_text@),
    final(self).names() == old(self).names().insert(file_path.text()),
    final(self).entries() == old(self).entries().insert(file_path.text(), final(self).entries()[file_path.text()]),
    old(self).shared().contains_key(file_path.text()) ==> final(self).entries() == old(self).entries(),
@entry
proof {
    axiom_text_len(desired_text);
    let (f, k) = (old(self).shared(), file_path.text());
    if f.contains_key(k) {
        assert(f.insert(k, f[k]) =~= f);
        assert(old(self).names().insert(k) =~= old(self).names());
    }
    assert forall|c: Seq<Chunk<'_>>| c.len() == 0 implies #[trigger] chunks_old(c) == chunks_new(c) by {}
    assert forall|c: Seq<Chunk<'_>>| c.len() == 1 && c[0] is Equal implies #[trigger] chunks_old(c) == chunks_new(c) by {
        reveal_with_fuel(chunks_old, 2);
        reveal_with_fuel(chunks_new, 2);
    }
}

@fn Document::remove_text
@args file_path
@props C05 C09 C14
@spec
requires old(self).inv()
ensures
    final(self).same_meta(*old(self)),
    final(self).shared() == old(self).shared().remove(file_path.text()),
    final(self).entries() == old(self).entries() || final(self).entries() == old(self).entries().remove(file_path.text()),
    old(self).shared().contains_key(file_path.text()) ==> final(self).names() == old(self).names().remove(file_path.text()),
    !old(self).shared().contains_key(file_path.text()) ==> final(self).names() == old(self).names(),
@entry
proof {
    assert(!self.shared().contains_key(file_path.text()) ==> self.shared().remove(file_path.text()) =~= self.shared());
}

@fn Document::files
@props C05 C14
@spec
requires self.inv()
ensures
    forall|i: int| 0 <= i < r@.len() ==> self.names().contains(#[trigger] r@[i].text()),
    forall|k: Seq<char>| self.names().contains(k) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i].text() == k,
@loop 1
iter it
invariant
    self.inv(), is_keys(it.seq(), self.names()), texts_of(vx_vec1@).len() == it.index@, vx_vec1@.len() == it.index@,
    forall|i: int| 0 <= i < it.index@ ==> (#[trigger] vx_vec1@[i]).text() == it.seq()[i]@,
    forall|k: Seq<char>| self.names().contains(k) ==> exists|i: int| 0 <= i < it.seq().len() && #[trigger] it.seq()[i]@ == k
        && (i < it.index@ ==> vx_vec1@[i].text() == k),

@fn Document::store_cursor_position
@args cursor_id name file_path ranges
@props C05 C21
@spec
requires old(self).inv()
ensures
    final(self).inv(), final(self).doc.covered() == old(self).doc.covered(), final(self).doc.actor() == old(self).doc.actor(),
    final(self).shared() == old(self).shared(), final(self).names() == old(self).names(),
    final(self).cursors() == old(self).cursors().insert(cursor_id@, cursor_json(cursor_id@, opt_text(name), file_path.text(), ranges@)),

@fn Document::get_valid_file_path
@props C21
@spec
requires self.inv()
ensures
    r is Some ==> self.names().contains((r->Some_0).text()),

@fn Document::maybe_delete_cursor_position
@args cursor_id
@props C05 C21
@spec
requires old(self).inv()
ensures
    final(self).inv(), final(self).doc.covered() == old(self).doc.covered(), final(self).doc.actor() == old(self).doc.actor(),
    final(self).shared() == old(self).shared(), final(self).names() == old(self).names(),
    final(self).cursors() == old(self).cursors()
        || exists|p: Seq<char>| #[trigger] final(self).cursors() == old(self).cursors().insert(cursor_id@, cursor_json(cursor_id@, None, p, Seq::empty())),

@fn Document::generate_sync_message
@args peer_state
@props C09 C20
@spec
ensures final(self).doc@ == old(self).doc@, final(self).doc.covered() == old(self).doc.covered(), final(self).doc.actor() == old(self).doc.actor()

@fn Document::receive_sync_message_log_patches
@args message peer_state
@props C09 C20
@spec
requires old(self).inv()
ensures
    final(self).inv(), final(self).doc.covered() == old(self).doc.covered(), final(self).doc.actor() == old(self).doc.actor(),
    patches_tell(r@, old(self).shared(), final(self).shared()),
