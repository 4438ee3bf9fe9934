@source daemon/src/jsonrpc_forwarder.rs

@fn <Encoder<String>@ContentLengthCodec>::encode
@args item dst
@props C12
@ret r: Result<(), AnyhowError>
@spec
ensures r is Ok, final(dst)@ == old(dst)@ + frame(item@)
@entry
proof {
    lemma_literals();
    let (h, d) = ("Content-Length: "@, decimal(utf8(item@).len() as int));
    assert(Seq::<char>::empty() + h =~= h);
    axiom_utf8_cat(h, d);
    axiom_utf8_cat(h + d, "\r\n\r\n"@);
}
@exit
proof {
    let (h, d, e, m) = (header_start(), digits(utf8(item@).len() as int), header_end(), utf8(item@));
    assert(dst@ =~= old(dst)@ + (h + d + e + m));
}

@fn <Decoder@ContentLengthCodec>::decode
@args src
@props C12
@param +ms Ghost<Seq<Seq<char>>>
@ret r: Result<Option<String>, AnyhowError>
@spec
requires arrived(old(src)@, ms@)
ensures decoded(old(src)@, ms@, r, final(src)@)
@entry
proof {
    lemma_literals();
    if ms@.len() > 0 { lemma_arrived(src@, ms@); axiom_number(utf8(ms@[0]).len() as usize); } else { lemma_none_arrived(src@, ms@); }
}

@source daemon/src/types.rs

@fn EditorProtocolObject::to_jsonrpc
@props C10 C11
@spec
ensures r is Ok ==> (r->Ok_0)@ == message_text(*self)

@source daemon/src/editor.rs

@fn <Encoder<EditorProtocolObject>@EditorProtocolCodec>::encode
@args item dst
@props C10 C11
@ret r: Result<(), AnyhowError>
@spec
ensures r is Ok ==> final(dst)@ == old(dst)@ + utf8(message_text(item) + "\n"@), r is Err ==> final(dst)@ == old(dst)@
@entry
proof {
    let t = message_text(item);
    assert(Seq::<char>::empty() + t + "\n"@ =~= t + "\n"@);
    axiom_utf8_cat(t, "\n"@);
    let (o, a, b) = (old(dst)@, utf8(t), utf8("\n"@));
    assert(o + a + b =~= o + (a + b));
}
