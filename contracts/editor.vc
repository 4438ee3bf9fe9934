@source daemon/src/editor_connection.rs

@fn EditorConnection::new
@args id base_dir
@props C10 C11 C18 C21
@spec
requires is_abs(base_dir@), is_base(base_dir@)
ensures r.inv(), r.open() == Map::<Seq<char>, OTServer>::empty(), r.id@ == id@, r.base_dir@ == base_dir@

@fn EditorConnection::owns
@args file_path
@props C08 C10 C18
@spec
requires normal(file_path.text())
ensures r == self.open().dom().contains(file_path.text())

@fn EditorConnection::forget
@args file_path
@props C11 C18
@spec
requires old(self).inv(), normal(file_path.text())
ensures final(self).inv(), final(self).same_editor(*old(self)), final(self).open() == old(self).open().remove(file_path.text())

@fn EditorConnection::message_from_daemon
@args message
@props C01 C09 C10 C18 C21
@spec
requires old(self).inv(), old(self).can_hear(*message)
ensures hears(*old(self), *final(self), *message, r@)

@fn EditorConnection::catch_up
@args file_path text
@props C01 C10 C18
@spec
requires old(self).inv(), normal(file_path.text())
ensures
    final(self).inv(), final(self).same_editor(*old(self)),
    brought_to(old(self).open(), final(self).open(), old(self).base_dir@, file_path.text(), text@, r@)

@fn EditorConnection::message_from_editor | loops=for
@args message
@props C01 C10 C11 C13 C18 C21
@spec
requires old(self).inv()
ensures
    final(self).inv(), final(self).same_editor(*old(self)),
    r is Ok <==> accepts(*old(self), *old(vx_w), *message),
    r is Ok ==> carries_out(*old(self), *final(self), *old(vx_w), *final(vx_w), *message, (r->Ok_0).0, (r->Ok_0).1@),
    r is Err ==> final(self).open() == old(self).open(),
    r is Err ==> *final(vx_w) == *old(vx_w)
        || message is Open && only_inside(old(self).base_dir@, message_uri(*message).skip(7), *old(vx_w), *final(vx_w)),
@loop 1
iter it
invariant
    it.seq() == vx_it1@,
    revs_of(vx_vec1@) == it.seq().take(it.index@),
    edits_of(vx_vec1@, self.base_dir@, relative_path.text()),
    uri_for(self.base_dir@, relative_path.text(), uri.text()),
