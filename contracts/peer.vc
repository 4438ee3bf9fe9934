@source daemon/src/peer.rs

@fn P2PActor::new
@args connection_info document_handle base_dir
@props C16
@spec
ensures r.connection_info == connection_info, r.base_dir@ == base_dir@

@fn P2PActor::get_keypair | partial
@props C15
@spec
ensures ({
    let f = key_place(self.base_dir@);
    let there = old(vx_w).modes@.dom().contains(f);
    &&& there ==> old(vx_w).modes@[f] == 0o100600 && *final(vx_w) == *old(vx_w) && key_bytes(r) == old(vx_w).data@[f]
    &&& !there ==> final(vx_w).modes@ == old(vx_w).modes@.insert(f, 0o100600) && final(vx_w).data@ == old(vx_w).data@.insert(f, key_bytes(r))
})
@entry
proof { reveal_strlit(".ethersync"); reveal_strlit("key"); }

@fn PeerConnectionInfo::from_config_file | partial
@args config_file
@props C16
@spec
ensures
    *final(vx_w) == *old(vx_w),
    r is Some <==> old(vx_w).modes@.dom().contains(at(config_file@)),
    r is Some ==> settings(r->0) == configured(old(vx_w).data@[at(config_file@)])

@fn PeerConnectionInfo::takes_precedence_over
@args other
@props C16
@spec
ensures settings(r) == over(settings(self), settings(other))

@fn PeerConnectionInfo::is_host
@props C16
@spec
ensures r == settings(*self).peer is None

@source daemon/src/editor.rs

@fn get_fallback_socket_dir | partial
@props C15
@spec
ensures
    old(vx_w).modes@.dom().contains(at(r@)) ==> *final(vx_w) == *old(vx_w),
    !old(vx_w).modes@.dom().contains(at(r@)) ==> final(vx_w).modes@.dom().contains(at(r@)) && private(final(vx_w).modes@[at(r@)]),
    r@ == fallback(), final(vx_w).kept_but(*old(vx_w), at(fallback()))

@fn is_valid_socket_name
@args socket_name
@props C15
@spec
ensures r is Ok <==> plain_name(socket_name@)

@fn get_socket_path | partial
@args socket_name
@props C15
@spec
ensures
    plain_name(socket_name@),
    path_names(r@).len() > 0, path_names(r@).last() == comps_of(socket_name@)[0]->Normal_0,
    env_value("XDG_RUNTIME_DIR"@) is Some ==> dir_of(at(r@)) == at(env_value("XDG_RUNTIME_DIR"@)->0),
    env_value("XDG_RUNTIME_DIR"@) is None ==> dir_of(at(r@)) == at(fallback()),
    final(vx_w).kept_but(*old(vx_w), at(fallback()))

@fn is_user_readable_only
@args socket_path
@props C15
@spec
requires path_names(socket_path@).len() > 0
ensures *final(vx_w) == *old(vx_w), r is Ok ==> may_bind(*old(vx_w), socket_path@)

@fn accept_editor_loop | loops=loop
@args socket_path document_handle
@props C15
@attrs
#[verifier::exec_allows_no_decreases_clause]
@spec
requires may_bind(*old(vx_w), socket_path@)
ensures final(vx_w).acts() == old(vx_w).acts()
@loop 1 inv
invariant vx_w.acts() == old(vx_w).acts()

@fn make_editor_connection | partial
@args socket_path document_handle
@props C15
@spec
requires path_names(socket_path@).len() > 0
ensures final(vx_w).acts() == old(vx_w).acts()

@source daemon/src/daemon.rs

@fn DocumentActorHandle::new
@args base_dir init is_host
@props C16
@spec
ensures
    final(vx_w).started@ == old(vx_w).started@.push(Started { base: base_dir@, init: init, host: is_host }),
    final(vx_w).offered@ == old(vx_w).offered@, final(vx_w).modes@ == old(vx_w).modes@, final(vx_w).data@ == old(vx_w).data@

@fn Daemon::new | partial
@args peer_connection_info socket_path base_dir init
@props C16
@spec
requires path_names(socket_path@).len() > 0
ensures
    final(vx_w).started@ == old(vx_w).started@.push(Started { base: base_dir@, init: init, host: settings(peer_connection_info).peer is None }),
    final(vx_w).offered@ == old(vx_w).offered@.push(Offer { settings: settings(peer_connection_info), base: base_dir@ })

@source daemon/src/main.rs

@fn main | partial
@props C16
@spec
requires config_place(project_dir()) != at(fallback())
ensures
    final(vx_w).acts() == old(vx_w).acts()
        || {
            let s = effective(*old(vx_w), project_dir());
            &&& final(vx_w).offered@ == old(vx_w).offered@.push(Offer { settings: s, base: project_dir() })
            &&& final(vx_w).started@ == old(vx_w).started@.push(Started { base: project_dir(), init: cli_init(), host: s.peer is None })
        }
@entry
proof { axiom_cli_secret(); reveal_strlit(".ethersync"); reveal_strlit("config"); }
