@source daemon/src/daemon.rs

@fn DocumentActor::run
@props C08 C09 C10 C11 C17 C19 C20 C21
@attrs
#[verifier::exec_allows_no_decreases_clause]
@spec
ensures final(vx_w).handled@ == old(vx_w).handled@ + old(self).doc_message_rx.coming()
@loop 1 inv
invariant_except_break
    vx_w.handled@ + self.doc_message_rx.coming() == old(vx_w).handled@ + old(self).doc_message_rx.coming(),
ensures
    vx_w.handled@ == old(vx_w).handled@ + old(self).doc_message_rx.coming(),

@fn DocumentActorHandle::send_message | partial
@args message
@props C08 C09 C10 C11 C17 C19 C20 C21
@spec
ensures final(vx_w).but_sent(*old(vx_w), msg(message))

@fn DocumentActorHandle::next_editor_id
@props C10 C11 C18 C19 C21
@spec
ensures
    old(vx_w).next@ <= r < final(vx_w).next@,
    *final(vx_w) == (VWorld { next: final(vx_w).next, ..*old(vx_w) })

@fn DocumentActorHandle::subscribe_document_changes
@props C20
@spec
ensures true

@fn spawn_file_watcher | partial
@args base_dir document_handle
@props C08 C17
@attrs
#[verifier::exec_allows_no_decreases_clause]
@spec
ensures false
@loop 1 inv
invariant_except_break
    vx_w.watching@ == base_dir@, vx_w.sent@ == old(vx_w).sent@ + events(vx_w.noted@),
ensures
    false,

@fn spawn_persister | partial loops=loop
@args document_handle
@props C20
@attrs
#[verifier::exec_allows_no_decreases_clause]
@spec
ensures false
@loop 1 inv
invariant
    vx_w.sent@.len() == old(vx_w).sent@.len() + 1 + vx_w.pings@ - old(vx_w).pings@,
    forall|i: int| old(vx_w).sent@.len() <= i < vx_w.sent@.len() ==> vx_w.sent@[i] is Persist,

@source daemon/src/editor.rs

@fn accept_editor_loop | loops=loop
@args socket_path document_handle
@props C10 C11 C18 C19 C21
@attrs
#[verifier::exec_allows_no_decreases_clause]
@spec
requires old(vx_w).apart()
ensures final(vx_w).apart()
@loop 1 inv
invariant vx_w.apart()

@fn spawn_editor_connection | partial
@args stream document_handle editor_id
@props C10 C11 C18 C19 C21
@attrs
#[verifier::exec_allows_no_decreases_clause]
@spec
requires !old(vx_w).serving@.contains(editor_id as int)
ensures
    final(vx_w).sent@ == old(vx_w).sent@ + service(editor_id as int, stream.id()),
    final(vx_w).next@ == old(vx_w).next@, final(vx_w).serving@ == old(vx_w).serving@.insert(editor_id as int)
@loop 1 inv
invariant_except_break
    vx_w.sent@ == old(vx_w).sent@ + (seq![Msg::New(editor_id as int, stream.id())] + from_lines(editor_id as int, vx_w.heard@)),
    vx_w.next@ == old(vx_w).next@, vx_w.serving@ == old(vx_w).serving@.insert(editor_id as int), vx_w.hearing@ == stream.id(),
ensures
    vx_w.sent@ == old(vx_w).sent@ + (seq![Msg::New(editor_id as int, stream.id())] + from_lines(editor_id as int, lines(stream.id()))),
    vx_w.next@ == old(vx_w).next@, vx_w.serving@ == old(vx_w).serving@.insert(editor_id as int),

@source daemon/src/peer.rs

@fn SyncActor::new
@args document_handle syncer_receiver syncer_sender
@props C09
@spec
ensures r.peer_state == fresh_state(), r.document_handle == document_handle, r.syncer_receiver == syncer_receiver, r.syncer_sender == syncer_sender

@fn SyncActor::receive_sync_message | partial
@args message
@props C09
@spec
ensures
    final(vx_w).but_sent(*old(vx_w), Msg::Sync(message, old(self).peer_state, final(self).peer_state)),

@fn SyncActor::generate_sync_message
@props C09
@spec
ensures
    final(vx_w).taken@ == old(vx_w).taken@, final(vx_w).passed@ == old(vx_w).passed@, final(vx_w).pings@ == old(vx_w).pings@,
    r is Ok ==> ({
        &&& final(vx_w).sent@.len() == old(vx_w).sent@.len() + 1
        &&& final(vx_w).sent@.last() matches Msg::AskSync(before, answer)
        &&& before == old(self).peer_state && answer.0 == final(self).peer_state
        &&& final(vx_w).replies@ == (match answer.1 { Some(m) => old(vx_w).replies@.push(m), None => old(vx_w).replies@ })
    })

@fn SyncActor::run | refself partial loops=loop
@props C09
@attrs
#[verifier::exec_allows_no_decreases_clause]
@spec
requires old(vx_w).taken@ == old(vx_w).passed@
ensures final(vx_w).taken@ == final(vx_w).passed@
@loop 1 inv
invariant vx_w.taken@ == vx_w.passed@
