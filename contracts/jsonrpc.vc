@source daemon/src/types.rs

@fn JSONRPCFromEditor::from_jsonrpc
@args jsonrpc
@props C11
@spec
ensures r is Ok <==> request_of(jsonrpc@) is Some, r is Ok ==> r->Ok_0 == request_of(jsonrpc@)->0
