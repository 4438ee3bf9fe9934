@source daemon/src/sandbox.rs

@fn read_file
@args absolute_base_dir absolute_file_path
@props C06
@spec
requires is_base(absolute_base_dir@)
ensures
    *final(vx_w) == *old(vx_w),
    r is Ok <==> can_act(absolute_base_dir@, absolute_file_path@) && old(vx_w).files@.dom().contains(denotes(absolute_file_path@)->0)
        && can_read(denotes(absolute_file_path@)->0),
    r is Ok ==> (r->Ok_0)@ == old(vx_w).files@[denotes(absolute_file_path@)->0],

@fn write_file
@args absolute_base_dir absolute_file_path content
@props C06
@spec
requires is_base(absolute_base_dir@)
ensures
    r is Ok <==> can_act(absolute_base_dir@, absolute_file_path@) && can_write(denotes(absolute_file_path@)->0),
    r is Ok ==> final(vx_w).set(*old(vx_w), denotes(absolute_file_path@)->0, content@),
    r is Err ==> only_inside(absolute_base_dir@, absolute_file_path@, *old(vx_w), *final(vx_w)),

@fn append_file
@args absolute_base_dir absolute_file_path content
@props C06
@spec
requires is_base(absolute_base_dir@)
ensures
    r is Ok <==> can_act(absolute_base_dir@, absolute_file_path@) && old(vx_w).files@.dom().contains(denotes(absolute_file_path@)->0)
        && can_write(denotes(absolute_file_path@)->0),
    r is Ok ==> final(vx_w).set(*old(vx_w), denotes(absolute_file_path@)->0, old(vx_w).files@[denotes(absolute_file_path@)->0] + content@),
    r is Err ==> only_inside(absolute_base_dir@, absolute_file_path@, *old(vx_w), *final(vx_w)),

@fn rename_file
@args absolute_base_dir absolute_file_path_old absolute_file_path_new
@props C06
@spec
requires is_base(absolute_base_dir@)
ensures
    r is Err ==> *final(vx_w) == *old(vx_w),
    r is Ok ==> can_act(absolute_base_dir@, absolute_file_path_old@) && can_act(absolute_base_dir@, absolute_file_path_new@)
        && final(vx_w).dirs@ == old(vx_w).dirs@
        && final(vx_w).files@ == old(vx_w).files@.remove(denotes(absolute_file_path_old@)->0)
            .insert(denotes(absolute_file_path_new@)->0, old(vx_w).files@[denotes(absolute_file_path_old@)->0]),

@fn remove_file
@args absolute_base_dir absolute_file_path
@props C06
@spec
requires is_base(absolute_base_dir@)
ensures
    r is Ok <==> can_act(absolute_base_dir@, absolute_file_path@) && old(vx_w).files@.dom().contains(denotes(absolute_file_path@)->0)
        && can_remove(denotes(absolute_file_path@)->0),
    r is Ok ==> final(vx_w).gone(*old(vx_w), denotes(absolute_file_path@)->0),
    r is Err ==> *final(vx_w) == *old(vx_w),

@fn create_dir
@args absolute_base_dir absolute_dir_path
@props C06
@spec
requires is_base(absolute_base_dir@)
ensures
    r is Err ==> *final(vx_w) == *old(vx_w),
    r is Ok ==> can_act(absolute_base_dir@, absolute_dir_path@) && final(vx_w).files@ == old(vx_w).files@
        && final(vx_w).dirs@ == old(vx_w).dirs@.insert(denotes(absolute_dir_path@)->0),

@fn create_dir_all
@args absolute_base_dir absolute_dir_path
@props C06
@spec
requires is_base(absolute_base_dir@)
ensures
    r is Ok <==> can_act(absolute_base_dir@, absolute_dir_path@) && can_mkdir(denotes(absolute_dir_path@)->0),
    can_act(absolute_base_dir@, absolute_dir_path@) ==> final(vx_w).mkdirs(*old(vx_w), denotes(absolute_dir_path@)->0),
    !can_act(absolute_base_dir@, absolute_dir_path@) ==> *final(vx_w) == *old(vx_w),

@fn exists
@args absolute_base_dir absolute_file_path
@props C06
@spec
requires is_base(absolute_base_dir@)
ensures
    *final(vx_w) == *old(vx_w),
    r is Ok <==> can_act(absolute_base_dir@, absolute_file_path@),
    r is Ok ==> (r->Ok_0) == old(vx_w).there(denotes(absolute_file_path@)->0)

@fn ignored | loops=for noisolation
@args absolute_base_dir absolute_file_path
@props C06 C13
@spec
requires is_base(absolute_base_dir@)
ensures
    *final(vx_w) == *old(vx_w),
    r is Ok <==> can_act(absolute_base_dir@, absolute_file_path@),
    r is Ok ==> ((r->Ok_0) <==> !shared_file(absolute_base_dir@, *old(vx_w), denotes(absolute_file_path@)->0)),
@closure 1
&DirEntry -> (vx_b: bool)
requires path_names(vx_c.path@).len() > 0 && path_names(vx_c.path@).last() != dotdot()
ensures vx_b == name_ok(path_names(vx_c.path@).last(), true)
@loop 1
iter it
invariant_except_break
    !vx_any1, it.seq() == walk@,
    is_abs(canonical_file_path@), denotes(absolute_file_path@) == Some(path_names(canonical_file_path@)),
    forall|i: int| 0 <= i < it.index@ ==> !is_file_of(#[trigger] it.seq()[i], denotes(absolute_file_path@)->0),
ensures
    vx_any1 <==> exists|i: int| 0 <= i < walk@.len() && is_file_of(#[trigger] walk@[i], denotes(absolute_file_path@)->0),

@fn check_inside_base_dir_and_canonicalize
@args base_dir path
@props C06
@spec
ensures
    r is Ok <==> can_act(base_dir@, path@),
    r is Ok ==> is_abs((r->Ok_0)@) && plain(path_names((r->Ok_0)@)) && Some(path_names((r->Ok_0)@)) == denotes(path@)
        && os_target((r->Ok_0)@) == denotes(path@)

@fn absolute_and_canonicalized | loops=for
@args path
@props C06
@spec
ensures
    r is Ok <==> denotes(path@) is Some,
    r is Ok ==> is_abs((r->Ok_0)@) && Some(path_names((r->Ok_0)@)) == denotes(path@) && os_target((r->Ok_0)@) == denotes(path@)
        && plain(path_names((r->Ok_0)@))
@entry
let ghost n = cleaned(path_names(path@));
proof {
    lemma_cleaned_plain(path_names(path@));
    if denotes(path@) is Some { lemma_place_fixed(n); }
}
@loop 1
iter it
invariant_except_break
    is_abs(canonical_path@), path_names(canonical_path@) == n, plain(n),
    abs_components(Seq::new(n.len() + 1, |i: int| it.seq()[n.len() - i]), n), it.seq().len() == n.len() + 1,
    it.index@ <= n.len(),
    is_abs(prefix_path@), !is_abs(suffix_path@), tidy(suffix_path@),
    path_names(prefix_path@) == n.take(n.len() - it.index@), path_names(suffix_path@) == n.skip(n.len() - it.index@),
    forall|j: int| n.len() - it.index@ < j <= n.len() ==> !#[trigger] lexists(n.take(j)),
ensures
    is_abs(prefix_path@), !is_abs(suffix_path@), tidy(suffix_path@),
    ({
        let k = path_names(prefix_path@).len();
        &&& k <= n.len()
        &&& path_names(prefix_path@) == n.take(k as int)
        &&& path_names(suffix_path@) == n.skip(k as int)
        &&& lexists(n.take(k as int))
        &&& forall|j: int| k < j <= n.len() ==> !#[trigger] lexists(n.take(j))
    }),
@loop 1 before
proof {
    assert(n.skip(n.len() as int) =~= path_names(suffix_path@));
}
@loop 1 start
proof {
    let i = it.index@;
    let m = n.len() - i;
    if m == 0 { assert(n.take(0) =~= Seq::<Seq<char>>::empty()); } else {
        let v = Seq::new(n.len() + 1, |i: int| it.seq()[n.len() - i]);
        assert(v[m] == it.seq()[i]);
        assert(v[(m - 1) + 1] == component);
        assert(n[m - 1] != dotdot());
        assert(n.take(m).drop_last() =~= n.take(m - 1));
        assert(seq![n[m - 1]] + n.skip(m) =~= n.skip(m - 1));
        if m == n.len() { assert(n.skip(m - 1) =~= seq![n[m - 1]]); }
    }
}
@loop 1 after
proof {
    lemma_place_split(n, path_names(prefix_path@).len() as int);
    let k = path_names(prefix_path@).len() as int;
    if resolved(n.take(k)) is Some && k == n.len() { assert((resolved(n.take(k))->0) + n.skip(k) =~= resolved(n.take(k))->0); }
}
