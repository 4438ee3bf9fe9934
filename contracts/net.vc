@source daemon/src/peer.rs

@fn P2PActor::passphrase_to_bytes
@args passphrase
@props C16
@spec
ensures r@ == key_of(passphrase@)

@fn P2PActor::spawn_peer_sync
@args stream
@props C24
@spec
ensures final(vx_w).served(*old(vx_w), self.document_handle, stream)

@fn P2PActor::run | refself partial loops=loop,for
@props C16 C24
@attrs
#[verifier::exec_allows_no_decreases_clause]
@spec
requires old(vx_w).fresh(), old(vx_w).want@ == wanted(old(self).connection_info)
ensures r is Err
@entry
proof { reveal_strlit("/ip4/0.0.0.0/tcp/"); }
@loop 1 inv
invariant vx_w.set_up()
