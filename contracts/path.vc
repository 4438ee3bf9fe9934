@source daemon/src/path.rs

@fn RelativePath::new
@args path
@props C05 C07 C09
@spec
ensures r.text() == path@

@fn <From<&RelativePath> for Prop>::from
@props C05 C09 C21
@traitspec
open spec fn vinto_req(self) -> bool { true }
open spec fn vinto_ens(self, r: Prop) -> bool { r is Map && r->Map_0@ == self.text() }

@fn AbsolutePath::from_parts
@args base relative_path
@props C07
@spec
ensures
    is_abs(base@) && !is_abs(relative_path.text()) ==> r is Ok && path_names((r->Ok_0).text()) == path_names(base@) + path_names(relative_path.text()),
    r is Ok ==> (r->Ok_0).inv(),

@fn AbsolutePath::to_file_uri
@props C07
@spec
requires self.inv()
ensures r.inv(), r.text() == file_prefix() + self.text()
@entry
proof {
    reveal_strlit("file://"); reveal_strlit("file:///");
    let u = Seq::<char>::empty() + "file://"@ + self.0@;
    assert("file:///"@ =~= u.subrange(0, 8));
    assert(u =~= file_prefix() + self.text());
}

@fn <TryFrom<PathBuf> for AbsolutePath>::try_from
@props C07
@traitspec
open spec fn vtry_into_req(self) -> bool { true }
open spec fn vtry_into_ens(self, r: Result<AbsolutePath, AnyhowError>) -> bool {
    &&& r is Ok <==> is_abs(self@)
    &&& r is Ok ==> (r->Ok_0).text() == self@
}

@fn <TryFrom<&str> for AbsolutePath>::try_from
@props C07
@traitspec
open spec fn vtry_into_req(self) -> bool { true }
open spec fn vtry_into_ens(self, r: Result<AbsolutePath, AnyhowError>) -> bool {
    &&& r is Ok <==> is_abs(self@)
    &&& r is Ok ==> (r->Ok_0).text() == self@
}

@fn RelativePath::try_from_absolute
@args base_dir path
@props C07
@spec
requires path.inv()
ensures
    is_abs(base_dir@) ==> {
        &&& r is Ok <==> strictly_below(path_names(base_dir@), path.file())
        &&& r is Ok ==> rel_of(base_dir@, path.file(), (r->Ok_0).text()) && normal((r->Ok_0).text())
    },

@fn RelativePath::try_from_path
@args base_dir path
@props C07
@spec
ensures
    !is_abs(path@) ==> r is Err,
    is_abs(path@) && is_abs(base_dir@) ==> {
        &&& r is Ok <==> strictly_below(path_names(base_dir@), cleaned(path_names(path@)))
        &&& r is Ok ==> rel_of(base_dir@, cleaned(path_names(path@)), (r->Ok_0).text()) && normal((r->Ok_0).text())
    },

@fn FileUri::to_absolute_path
@props C07
@spec
requires self.inv()
ensures r.inv(), r.text() == self.text().skip(7)
@entry
proof {
    reveal_strlit("file:///");
    assert forall|i: int| 0 <= i < 7 implies (#[trigger] self.0@.take(7)[i] as u32) < 128 by { assert(self.0@[i] == "file:///"@[i]); }
    assert(self.0@[7] == "file:///"@[7]);
}

@fn <TryFrom<String> for FileUri>::try_from
@props C07
@traitspec
open spec fn vtry_into_req(self) -> bool { true }
open spec fn vtry_into_ens(self, r: Result<FileUri, AnyhowError>) -> bool {
    &&& r is Ok <==> is_file_uri(self@)
    &&& r is Ok ==> (r->Ok_0).text() == self@
}
