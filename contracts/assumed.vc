@source daemon/src/document.rs

@fn <Default@Document>::default
@spec
ensures r.inv(), r.shared() == Map::<Seq<char>, Seq<char>>::empty(), r.names() == Set::<Seq<char>>::empty(), r.doc.covered() == r.doc@

@source daemon/src/daemon.rs

@fn DocumentActor::random_delta
@spec
