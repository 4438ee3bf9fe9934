@source daemon/src/jsonrpc_forwarder.rs

@fn connection | partial
@args socket_path
@props C12
@attrs
#[verifier::exec_allows_no_decreases_clause]
@spec
requires old(vx_w).quiet()
ensures r is Err
@loop 1 inv
invariant_except_break
    vx_w.through(),
ensures
    vx_w.through(), vx_w.socket_ended@ || vx_w.stdin_ended@,
@loop 2 inv
invariant_except_break
    vx_w.through(),
ensures
    vx_w.through(), vx_w.socket_ended@ || vx_w.stdin_ended@,
