@source daemon/src/daemon.rs

@fn DocumentActor::owns | loops=for
@args file_path
@props C08
@spec
requires normal(file_path.text())
ensures *final(self) == *old(self), r == unowned(old(self).editors(), file_path.text())
@loop 1
iter it
invariant_except_break
    !vx_any1,
    forall|i: int| 0 <= i < it.index@ ==> !(#[trigger] it.seq()[i]).0.open().dom().contains(file_path.text()),
invariant
    *self == *old(self), normal(file_path.text()), values_of(it.seq(), self.editor_connections@),
ensures
    vx_any1 == !unowned(self.editor_connections@, file_path.text()),

@fn DocumentActor::send_to_editor_client
@args editor_id message
@props C10 C11 C19
@spec
ensures
    final(self).same_doc(*old(self)),
    sends(old(self).editors(), final(self).editors(), *editor_id as int, seq![message]),

@fn DocumentActor::absolute_path_for_file_path
@args file_path
@props C08 C09
@spec
requires is_abs(self.base_dir@), !is_abs(file_path.text())
ensures path_names(r.text()) == path_names(self.base_dir@) + path_names(file_path.text()), r.inv()

@fn DocumentActor::current_file_content
@args file_path
@props C05 C08
@spec
requires self.crdt_doc.inv()
ensures
    r is Ok <==> self.shared().dom().contains(file_path.text()),
    r is Ok ==> r->Ok_0@ == self.shared()[file_path.text()],

@fn DocumentActor::maybe_write_file
@args file_path
@props C08 C09
@spec
requires old(self).ok(), normal(file_path.text())
ensures
    *final(self) == *old(self),
    written(old(self).editors(), old(self).shared(), old(self).base(), file_path.text(), *old(vx_w), *final(vx_w)),

@fn DocumentActor::maybe_write_files_changed_in_file_deltas
@args file_deltas
@props C08 C09
@spec
requires
    old(self).ok(),
    forall|i: int| 0 <= i < file_deltas@.len() ==> normal((#[trigger] file_deltas@[i]).file_path.text()),
ensures
    *final(self) == *old(self),
    all_written(old(self).editors(), old(self).shared(), old(self).base(), delta_files(file_deltas@), *old(vx_w), *final(vx_w)),
@loop 1
iter it
invariant
    it.seq().len() == file_deltas@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == file_deltas@[i],
    *self == *old(self), *vx_w == *old(vx_w),
    names_in(file_paths@) == delta_files(file_deltas@.take(it.index@)),
    forall|i: int| 0 <= i < file_deltas@.len() ==> normal((#[trigger] file_deltas@[i]).file_path.text()),
@loop 2
iter it
invariant
    *self == *old(self), self.ok(), names_in(it.seq()) == delta_files(file_deltas@),
    forall|i: int| 0 <= i < file_deltas@.len() ==> normal((#[trigger] file_deltas@[i]).file_path.text()),
    all_written(self.editors(), self.shared(), self.base(), names_in(it.seq().take(it.index@)), *old(vx_w), *vx_w),
@loop 2 start
proof { actorlem::lemma_named(it.seq(), file_deltas@, it.index@); }

@fn DocumentActor::inside_message_to_doc
@args message
@props C05 C08 C10 C21
@spec
requires
    old(self).ok(),
    match *message {
        ComponentMessage::Edit { file_path, delta } => normal(file_path.text()) && old(self).shared().dom().contains(file_path.text())
            && fits(delta.ops(), old(self).shared()[file_path.text()])
            && apply(delta.ops(), old(self).shared()[file_path.text()]).len() <= isize::MAX,
        ComponentMessage::Open { file_path } => normal(file_path.text()),
        ComponentMessage::Close { file_path } => normal(file_path.text()),
        _ => true,
    },
ensures
    final(self).ok(), final(self).same_editors(*old(self)),
    doc_takes(old(self).crdt_doc, final(self).crdt_doc, old(self).editors(), old(self).base(), *message, *old(vx_w), *final(vx_w)),

@fn DocumentActor::broadcast_to_editors
@args exclude_id message
@props C09 C10 C19 C21
@spec
requires old(self).ok(), all_can_hear(old(self).editors(), exclude_id, *message)
ensures
    final(self).ok(), final(self).same_doc(*old(self)),
    all_told(old(self).editors(), final(self).editors(), exclude_id, *message),
@loop 1
iter it
invariant
    self.ok(), self.same_doc(*old(self)), all_can_hear(old(self).editors(), exclude_id, *message),
    keys_of(it.seq(), old(self).editors()),
    forall|e: int| #[trigger] self.editors().dom().contains(e) ==> old(self).editors().dom().contains(e),
    forall|i: int| 0 <= i < it.seq().len() ==> telling(old(self).editors(), self.editors(), #[trigger] it.seq()[i] as int, exclude_id, *message, i < it.index@),
@loop 1 start
let ghost before = self.editors();
@loop 1 end
proof { actorlem::lemma_telling(old(self).editors(), before, self.editors(), it.seq(), it.index@, exclude_id, *message); }
@loop 2 before
let ghost mid = self.editors();
@loop 2 after
proof { actorlem::lemma_told(old(self).editors(), before, mid, self.editors(), editor_id as int, *message, vx_it2@); }
@loop 2
iter it
invariant
    self.same_doc(*old(self)), it.seq() == vx_it2@,
    sends(mid, self.editors(), editor_id as int, requests(it.seq().take(it.index@))),

@fn DocumentActor::catch_up_editor
@args editor_id file_path
@props C01 C08 C10 C19
@spec
requires old(self).ok(), normal(file_path.text())
ensures
    final(self).ok(), final(self).same_doc(*old(self)),
    caught_up(old(self).editors(), final(self).editors(), editor_id as int, old(self).base(), file_path.text(), old(self).shared()),
@loop 1 before
let ghost mid = self.editors();
@loop 1
iter it
invariant
    self.same_doc(*old(self)), it.seq() == vx_it1@,
    sends(mid, self.editors(), editor_id as int, requests(it.seq().take(it.index@))),

@fn DocumentActor::cursor_id
@args editor_id
@props C21
@spec
ensures r@ == cursor_name(self.crdt_doc.doc.actor(), editor_id as int)

@fn DocumentActor::maybe_delete_cursor_position
@args cursor_id
@props C21
@entry
proof { reveal_strlit(""); assert(old(self).editors() == self.editor_connections@); }
@spec
requires old(self).ok()
ensures
    final(self).ok(), final(self).shared() == old(self).shared(),
    final(self).save_fully == old(self).save_fully, final(self).base_dir == old(self).base_dir,
    exists|m: ComponentMessage| cursor_gone(m, cursor_id@) && #[trigger] all_told(old(self).editors(), final(self).editors(), None, m),

@fn DocumentActor::react_to_message_from_editor
@args editor_id message
@props C08 C10 C11 C13 C18 C19 C21
@spec
requires
    old(self).ok(), synced(old(self).editors(), old(self).shared()), old(self).editors().dom().contains(editor_id as int),
ensures
    final(self).ok(), synced(final(self).editors(), final(self).shared()),
    final(self).base_dir == old(self).base_dir, final(self).save_fully == old(self).save_fully,
    r is Ok <==> accepts(old(self).editors()[editor_id as int].0, *old(vx_w), *message),
    r is Ok ==> reacts(*old(self), *final(self), *old(vx_w), *final(vx_w), editor_id, *message),
    r is Err ==> refused(*old(self), *final(self), *old(vx_w), *final(vx_w), editor_id, *message),
@entry
proof {
    assert forall|s: String| (#[trigger] s@).len() <= isize::MAX by { axiom_string_len(s); }
}
@after message_from_editor
let ghost c = self.editors()[editor_id as int].0;
@loop 1 after
proof {
    assert(reacts_so(*old(self), *self, *old(vx_w), *vx_w, editor_id, *message, c, inside_message, vx_it1@, mid));
}
@loop 1 before
let ghost mid = self.editors();
let ghost before = *self;
@loop 1
iter it
invariant
    it.seq() == vx_it1@,
    self.crdt_doc == before.crdt_doc, self.base_dir == before.base_dir, self.save_fully == before.save_fully,
    sends(mid, self.editors(), editor_id as int, requests(it.seq().take(it.index@))),

@fn DocumentActor::handle_message_from_editor
@args editor_id message
@props C08 C10 C11 C13 C18 C19 C21
@spec
requires old(self).ok(), synced(old(self).editors(), old(self).shared()),
ensures
    final(self).ok(), synced(final(self).editors(), final(self).shared()),
    final(self).base_dir == old(self).base_dir, final(self).save_fully == old(self).save_fully,
    handles_request(*old(self), *final(self), *old(vx_w), *final(vx_w), editor_id, message@),
@after react_to_message_from_editor
assert(reacts_or_refuses(*old(self), *self, *old(vx_w), *vx_w, editor_id, payload));

@fn DocumentActor::handle_watcher_event
@args watcher_event
@props C08 C13 C19
@spec
requires
    old(self).ok(), synced(old(self).editors(), old(self).shared()),
    is_abs(event_path(watcher_event)), strictly_below(path_names(old(self).base()), cleaned(path_names(event_path(watcher_event)))),
ensures
    final(self).ok(), synced(final(self).editors(), final(self).shared()),
    final(self).same_editors(*old(self)), *final(vx_w) == *old(vx_w),
    final(self).crdt_doc.cursors() == old(self).crdt_doc.cursors(),
    final(self).crdt_doc.doc.covered() == old(self).crdt_doc.doc.covered(), final(self).crdt_doc.doc.actor() == old(self).crdt_doc.doc.actor(),
    final(self).shared() == follows_disk(old(self).editors(), old(self).shared(), old(self).base(), watcher_event, *old(vx_w)),

@fn DocumentActor::build_walk
@props C13 C14
@spec
requires is_abs(old(self).base()), is_base(old(self).base())
ensures *final(self) == *old(self), *final(vx_w) == *old(vx_w), walk_is(r@, old(self).base(), *old(vx_w), false)
@closure 1
&DirEntry -> (vx_b: bool)
requires path_names(vx_c.path@).len() > 0 && path_names(vx_c.path@).last() != dotdot()
ensures vx_b == name_ok(path_names(vx_c.path@).last(), false)

@fn DocumentActor::read_current_content_from_dir
@args init
@props C13 C14
@spec
requires old(self).ok(), all_normal(old(self).crdt_doc.names()),
ensures
    final(self).ok(), final(self).same_editors(*old(self)), *final(vx_w) == *old(vx_w), all_normal(final(self).crdt_doc.names()),
    final(self).crdt_doc.same_meta(old(self).crdt_doc), !init ==> continued(old(self).crdt_doc.doc@, final(self).crdt_doc.doc@),
    as_on_disk(old(self).shared(), final(self).shared(), old(self).base(), *old(vx_w)),
@loop 1
iter it
invariant
    !init ==> continued(old(self).crdt_doc.doc@, self.crdt_doc.doc@),
    it.seq() == vx_it1@, walk_is(vx_it1@, old(self).base(), *old(vx_w), false),
    self.ok(), self.same_editors(*old(self)), self.crdt_doc.same_meta(old(self).crdt_doc), all_normal(self.crdt_doc.names()), *vx_w == *old(vx_w),
    walked(it.seq(), it.index@, old(self).shared(), self.shared(), old(self).base(), *old(vx_w)),
@loop 1 start
proof {
    let (v, i) = (vx_it1@, it.index@);
    if v[i] is Ok && (v[i]->Ok_0).kind.file() { actorlem::lemma_entry(v, i, self.base(), *vx_w); }
}
let ghost before = self.shared();
@loop 1 end
proof { actorlem::lemma_walk_step(vx_it1@, it.index@, old(self).shared(), before, self.shared(), self.base(), *vx_w); }
@loop 1 after
proof {
    assert(walked(vx_it1@, vx_it1@.len() as int, old(self).shared(), self.shared(), self.base(), *vx_w));
}
@loop 2 before
let ghost mid = *self;
@loop 2
iter it
invariant
    !init ==> continued(old(self).crdt_doc.doc@, self.crdt_doc.doc@), !init ==> continued(old(self).crdt_doc.doc@, mid.crdt_doc.doc@),
    it.seq() == vx_it2@, mid.ok(), all_normal(mid.crdt_doc.names()),
    forall|i: int| 0 <= i < it.seq().len() ==> normal((#[trigger] it.seq()[i]).text()),
    self.ok(), self.same_editors(*old(self)), self.crdt_doc.same_meta(old(self).crdt_doc), all_normal(self.crdt_doc.names()), *vx_w == *old(vx_w),
    pruned(it.seq(), it.index@, mid.shared(), self.shared(), old(self).base(), *old(vx_w)),
@loop 2 after
proof {
    actorlem::lemma_scanned(vx_it2@, mid.crdt_doc.names(), old(self).shared(), mid.shared(), self.shared(), self.base(), *vx_w);
}

@fn DocumentActor::new | partial
@args doc_message_rx doc_changed_ping_tx base_dir init is_host
@props C14 C20
@spec
requires is_abs(base_dir@), is_base(base_dir@), sound_state(base_dir@, *old(vx_w))
ensures *final(vx_w) == *old(vx_w), starts(r, base_dir@, init, is_host, *old(vx_w))
@entry
proof { reveal_strlit(".ethersync/doc"); }

@fn DocumentActor::apply_sync_message_to_doc
@args message peer_state
@props C09
@spec
requires old(self).ok()
ensures
    final(self).ok(), final(self).same_editors(*old(self)),
    final(self).crdt_doc.doc.covered() == old(self).crdt_doc.doc.covered(), final(self).crdt_doc.doc.actor() == old(self).crdt_doc.doc.actor(),
    patches_tell(r@, old(self).shared(), final(self).shared()),

@fn DocumentActor::handle_message | partial
@args message
@props C08 C09 C10 C11 C13 C18 C19 C20 C21
@spec
requires
    old(self).ok(), synced(old(self).editors(), old(self).shared()),
    match message {
        DocMessage::FromWatcher(ev) => is_abs(event_path(ev)) && strictly_below(path_names(old(self).base()), cleaned(path_names(event_path(ev)))),
        DocMessage::RandomEdit => false,
        _ => true,
    },
ensures
    final(self).ok(), synced(final(self).editors(), final(self).shared()),
    handles(*old(self), *final(self), *old(vx_w), *final(vx_w), message),
@entry
proof { reveal_strlit(".ethersync/doc"); }
@after from_crdt_patches
let ghost mut told: Seq<Editors> = Seq::empty();
let ghost mut edits: Seq<ComponentMessage> = Seq::empty();
let ghost mut up: Seq<Editors> = Seq::empty();
let ghost mut who: Seq<(int, Seq<char>)> = Seq::empty();
let ghost mut moved: Seq<Editors> = Seq::empty();
let ghost mut cursors: Seq<ComponentMessage> = Seq::empty();
let ghost mut disk = *vx_w;
let ghost mut written_out = *vx_w;
let ghost mut left = self.editors();
let ghost mut ds: Seq<FileTextDelta> = Seq::empty();
let ghost ps = patches@;
let ghost es = patch_effects@;
let ghost doc = *self;
let ghost gs = choose|gs: Seq<Texts>| #[trigger] effect_chain(es, gs, old(self).shared(), self.shared());
let ghost ts = trail(es, gs, es.len());
let ghost rem = removed(es);
proof {
    assert(effects_tell(es, old(self).shared(), self.shared()));
    synclem::lemma_trail(es, gs, old(self).shared(), self.shared(), es.len());
    synclem::lemma_change_normal(es, gs, old(self).shared(), self.shared());
    synclem::lemma_forgot_none(self.editors(), self.base());
}
@loop 1
iter it
invariant
    it.seq() == vx_it1@, vx_it1@ == es, effect_chain(es, gs, old(self).shared(), doc.shared()), old(self).ok(),
    doc.ok(), doc.same_editors(*old(self)), self.same_doc(doc), self.ok(),
    file_deltas@ == changes(es.take(it.index@)), cursor_states@ == moves(es.take(it.index@)),
    forgot(old(self).editors(), self.editors(), removed(es.take(it.index@))),
    cleared(self.base(), removed(es.take(it.index@)), *old(vx_w), *vx_w),
@loop 1 start
let ghost (i, m, w) = (it.index@, self.editors(), *vx_w);
proof {
    synclem::lemma_changes(es, i);
    assert(effect_step(gs[i], es[i], gs[i + 1]));
}
@loop 1 end
proof {
    if es[i] is FileRemoval {
        synclem::lemma_forgot_more(old(self).editors(), m, self.editors(), removed(es.take(i)), es[i]->FileRemoval_0.text());
        synclem::lemma_cleared_more(self.base(), removed(es.take(i)), es[i]->FileRemoval_0.text(), *old(vx_w), w, *vx_w);
    }
}
@loop 2
iter it
invariant
    it.seq() == vx_it2@, keys_of(vx_it2@, m), self.same_doc(doc), conns_ok(m, self.base()), self.editors().dom() == m.dom(), normal(file_path.text()),
    forall|j: int| #![trigger vx_it2@[j]] 0 <= j < vx_it2@.len() ==>
        if j < it.index@ { forgot_one(m[vx_it2@[j] as int], self.editors()[vx_it2@[j] as int], file_path.text()) }
        else { self.editors()[vx_it2@[j] as int] == m[vx_it2@[j] as int] },
@loop 3 before
proof {
    left = self.editors();
    ds = file_deltas@;
    written_out = *vx_w;
    assert(es.take(es.len() as int) =~= es);
    told = seq![self.editors()];
    synclem::lemma_start(old(self).editors(), left, old(self).shared(), ts[0], rem);
    synclem::lemma_delta_files_ends(ds);
}
@loop 1 after
proof { disk = *vx_w; }
@loop 3
iter it
invariant
    self.same_doc(doc), self.ok(), *vx_w == written_out, ds == file_deltas@, ds == changes(es),
    it.seq().len() == ds.len(), forall|i: int| 0 <= i < ds.len() ==> *(#[trigger] it.seq()[i]) == ds[i],
    told_steps(ds, ts, rem), heard(self.editors(), ts[it.index@], delta_files(ds.take(it.index@)), rem),
    told_in_turn(told, edits, left, self.editors()), edits.len() == it.index@,
    forall|i: int| 0 <= i < it.index@ ==> edit_told(#[trigger] ds[i], edits[i]),
@loop 3 start
let ghost (i, m) = (it.index@, self.editors());
proof {
    assert(told_step(ts[i], ds[i], ts[i + 1], rem));
    synclem::lemma_can_hear(m, ts[i], ts[i + 1], ds[i], delta_files(ds.take(i)), rem);
}
@loop 3 end
proof {
    synclem::lemma_delta_files(ds, i);
    synclem::lemma_heard(m, self.editors(), ts[i], ts[i + 1], ds[i], message, delta_files(ds.take(i)), rem);
    synclem::lemma_told_more(told, edits, left, m, self.editors(), message);
    told = told.push(self.editors());
    edits = edits.push(message);
}
@loop 3 after
proof {
    assert(ds.take(ds.len() as int) =~= ds);
    synclem::lemma_level(self.editors(), ts.last(), self.shared(), delta_files(ds), rem);
    up = seq![self.editors()];
}
@loop 4
iter it
invariant
    self.same_doc(doc), self.ok(), *vx_w == written_out, ds == file_deltas@, ds == changes(es),
    it.seq().len() == ds.len(), forall|i: int| 0 <= i < ds.len() ==> *(#[trigger] it.seq()[i]) == ds[i],
    forall|i: int| 0 <= i < changes(es).len() ==> normal((#[trigger] changes(es)[i]).file_path.text()),
    level(self.editors(), self.shared(), left_over(ds, it.index@)),
    up.len() > 0, up[0] == told.last(),
    caught_up_in_turn(up, who, self.base(), delta_files(ds), self.shared(), up[0], self.editors()),
@loop 4 start
let ghost (i, m) = (it.index@, self.editors());
proof { synclem::lemma_delta_files(ds, i); assert(normal(changes(es)[i].file_path.text())); }
@loop 5 after
proof { synclem::lemma_all_caught_up(self.editors(), m, vx_it5@, ds, i, self.shared()); }
@loop 5
iter it
invariant
    self.same_doc(doc), self.ok(), *vx_w == written_out, it.seq() == vx_it5@, keys_of(vx_it5@, m),
    normal(file_text_delta.file_path.text()), file_text_delta.file_path.text() == ds[i].file_path.text(),
    delta_files(ds).contains(file_text_delta.file_path.text()),
    level(self.editors(), self.shared(), left_over(ds, i)),
    forall|e: int| #[trigger] self.editors().dom().contains(e) ==> m.dom().contains(e),
    forall|j: int| 0 <= j < it.index@ ==> synclem::level_one(self.editors(), self.shared(), #[trigger] vx_it5@[j] as int, ds[i].file_path.text()),
    up.len() > 0, up[0] == told.last(),
    caught_up_in_turn(up, who, self.base(), delta_files(ds), self.shared(), up[0], self.editors()),
@loop 5 start
let ghost n = self.editors();
@loop 5 end
proof {
    let k = file_text_delta.file_path.text();
    synclem::lemma_caught_up(n, self.editors(), editor_id as int, self.base(), k, self.shared(), left_over(ds, i));
    synclem::lemma_up_more(up, who, self.base(), delta_files(ds), self.shared(), up[0], n, self.editors(), (editor_id as int, k));
    up = up.push(self.editors());
    who = who.push((editor_id as int, k));
}
@loop 4 after
proof {
    synclem::lemma_levelled(self.editors(), self.shared());
    moved = seq![self.editors()];
}
@loop 6
iter it
invariant
    self.same_doc(doc), self.ok(), *vx_w == written_out, cursor_states@ == moves(es),
    it.seq().len() == cursor_states@.len(), forall|i: int| 0 <= i < cursor_states@.len() ==> *(#[trigger] it.seq()[i]) == cursor_states@[i],
    forall|i: int| 0 <= i < moves(es).len() ==> !is_abs((#[trigger] moves(es)[i]).file_path.text()),
    synced(self.editors(), self.shared()), moved.len() > 0, moved[0] == up.last(),
    told_in_turn(moved, cursors, moved[0], self.editors()), cursors.len() == it.index@,
    forall|i: int| 0 <= i < it.index@ ==> move_told(#[trigger] cursor_states@[i], cursors[i]),
@loop 6 start
let ghost (i, m) = (it.index@, self.editors());
proof { assert(!is_abs(moves(es)[i].file_path.text())); }
@loop 6 end
proof {
    synclem::lemma_still_synced(m, self.editors(), message, self.shared());
    synclem::lemma_told_more(moved, cursors, moved[0], m, self.editors(), message);
    moved = moved.push(self.editors());
    cursors = cursors.push(message);
}
@loop 6 after
proof {
    assert(sync_run(*old(self), *self, *old(vx_w), *vx_w, SyncRun { patches: ps, es, left, disk, told, edits, up, who, moved, cursors }));
}
