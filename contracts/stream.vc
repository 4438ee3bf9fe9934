@source daemon/src/peer.rs

@fn P2PActor::protocol_handler
@args stream from_peer_tx to_peer_rx
@props C24
@spec
requires old(vx_w).received(), old(vx_w).sent()
ensures final(vx_w).over()

@fn P2PActor::receive_from_peer
@args reader from_peer_tx
@props C24
@attrs
#[verifier::exec_allows_no_decreases_clause]
@spec
requires old(vx_w).received()
ensures r is Err, final(vx_w).failed@ || final(vx_w).alien@
@loop 1 inv
invariant vx_w.received()

@fn P2PActor::send_to_peer
@args writer to_peer_rx
@props C24
@attrs
#[verifier::exec_allows_no_decreases_clause]
@spec
requires old(vx_w).sent()
ensures final(vx_w).over()
@loop 1 inv
invariant_except_break vx_w.sent()
ensures vx_w.over()
