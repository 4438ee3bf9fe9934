@source daemon/src/watcher.rs

@fn Watcher::new | partial
@args dir
@props C17
@spec
ensures
    r.base_dir@ == dir@, r.out_queue@.len() == 0,
    r._watcher.watched() == Set::<(Seq<char>, bool)>::empty().insert((dir@, true)),
    r._watcher.feeds(r.notify_receiver.channel())
@closure 1
NotifyResult<notify::Event> -> (vx_b: ())
ensures was_sent(tx.channel(), vx_c)

@fn Watcher::maybe_created
@args file_path
@props C13 C17
@spec
requires is_base(self.base_dir@)
ensures
    *final(vx_w) == *old(vx_w),
    r is None <==> out_of_sight(self.base_dir@, *old(vx_w), file_path@),
    r is Some ==> seen(r->0) == Seen::Created(file_path@)

@fn Watcher::maybe_removed
@args file_path
@props C17
@spec
requires is_base(self.base_dir@)
ensures r is Some, seen(r->0) == Seen::Removed(file_path@)

@fn Watcher::maybe_modified
@args file_path
@props C13 C17
@spec
requires is_base(self.base_dir@)
ensures
    *final(vx_w) == *old(vx_w),
    r is None <==> out_of_sight(self.base_dir@, *old(vx_w), file_path@),
    r is Some ==> seen(r->0) == Seen::Changed(file_path@)

@fn Watcher::next | loops=loop
@props C13 C17
@attrs
#[verifier::exec_allows_no_decreases_clause]
@spec
requires old(self).sound()
ensures
    final(self).sound(), final(self).base_dir@ == old(self).base_dir@,
    r is Some && old(self).story() == seq![seen(r->0)] + final(self).story()
@loop 1 inv
invariant
    self.sound(), self.base_dir@ == old(self).base_dir@, self.story() == old(self).story(),
@loop 1 start
proof {
    let c = self.notify_receiver.coming();
    if self.out_queue@.len() > 0 { watchlem::lemma_pop(self.out_queue@, reported(self.base_dir@, c)); }
    if c.len() > 0 { assert(proper(self.base_dir@, c[0].1)); }
}
