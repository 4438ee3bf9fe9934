// The file system, as a fixed tree with symbolic links (assumption: nobody changes the tree between
// the containment check and the operation it guards).

/// There is an entry of this name (symbolic links are not followed).
pub uninterp spec fn lexists(n: Names) -> bool;
/// Where an existing path leads to, all links followed; None if it cannot be resolved.
pub uninterp spec fn resolved(n: Names) -> Option<Names>;

/// Where the operating system ends up for a path of plain names: the longest existing part is
/// resolved, the missing rest is below it.
pub open spec fn place(n: Names) -> Option<Names>
    decreases n.len()
{
    if lexists(n) || n.len() == 0 {
        resolved(n)
    } else {
        match place(n.drop_last()) {
            Some(d) => Some(d.push(n.last())),
            None => None,
        }
    }
}

pub broadcast axiom fn axiom_root()
    ensures #[trigger] lexists(Seq::<Seq<char>>::empty());

/// Results of `canonicalize` are plain and lead to themselves.
pub broadcast axiom fn axiom_real(n: Names)
    ensures (#[trigger] resolved(n)) is Some ==> plain(resolved(n)->0) && lexists(resolved(n)->0) && resolved(resolved(n)->0) == resolved(n);

/// Two names of one directory have the same entries.
pub axiom fn axiom_same_entries(n: Names, x: Seq<char>)
    requires resolved(n) is Some, !lexists(n.push(x)),
    ensures !lexists((resolved(n)->0).push(x));

/// Nothing exists below something missing.
pub axiom fn axiom_below_missing(n: Names, x: Seq<char>)
    requires !lexists(n),
    ensures !lexists(n.push(x));

pub proof fn lemma_place_split(n: Names, k: int)
    requires
        0 <= k <= n.len(), lexists(n.take(k)),
        forall|j: int| k < j <= n.len() ==> !#[trigger] lexists(n.take(j)),
    ensures place(n) == (match resolved(n.take(k)) { Some(d) => Some(d + n.skip(k)), None => None }),
    decreases n.len(),
{
    broadcast use seqlem::group_seq;
    if k == n.len() {
        if resolved(n) is Some { assert((resolved(n)->0) + n.skip(k) =~= resolved(n)->0); }
    } else {
        assert(!lexists(n.take(n.len() as int)));
        let m = n.drop_last();
        assert(m.take(k) =~= n.take(k));
        assert forall|j: int| k < j <= m.len() implies !#[trigger] lexists(m.take(j)) by { assert(m.take(j) =~= n.take(j)); }
        lemma_place_split(m, k);
        if resolved(n.take(k)) is Some {
            let d = resolved(n.take(k))->0;
            assert((d + m.skip(k)).push(n.last()) =~= d + n.skip(k));
        }
    }
}

/// A place leads to itself.
pub proof fn lemma_place_fixed(n: Names)
    requires place(n) is Some, plain(n),
    ensures place(place(n)->0) == place(n), plain(place(n)->0), lexists(n) <==> lexists(place(n)->0),
    decreases n.len(),
{
    broadcast use axiom_real, axiom_root;
    if lexists(n) || n.len() == 0 {
        if n.len() == 0 { assert(n =~= Seq::<Seq<char>>::empty()); }
    } else {
        let m = n.drop_last();
        let x = n.last();
        lemma_place_fixed(m);
        let d = place(m)->0;
        assert(n =~= m.push(x));
        assert(!lexists(d.push(x))) by {
            if lexists(m) {
                axiom_same_entries(m, x);
            } else {
                axiom_below_missing(d, x);
            }
        }
        assert(d.push(x).drop_last() =~= d);
    }
}

/// Marks the directory a caller passes as project directory.
pub uninterp spec fn is_base(t: Seq<char>) -> bool;

/// What a path given to an operation of the operating system denotes.  Only paths without ".." are
/// modelled: ".." after a symbolic link does not mean what it looks like.
pub open spec fn os_target(t: Seq<char>) -> Option<Names> {
    if is_abs(t) && plain(path_names(t)) { place(path_names(t)) } else { None }
}

/// "a location really inside the project directory".
pub open spec fn inside(base: Seq<char>, loc: Option<Names>) -> bool {
    &&& loc is Some
    &&& place(cleaned(path_names(base))) is Some
    &&& (place(cleaned(path_names(base)))->0).is_prefix_of(loc->0)
}

pub open spec fn allowed(t: Seq<char>) -> bool {
    exists|b: Seq<char>| #[trigger] is_base(b) && inside(b, os_target(t))
}

/// The path denotes this location once ".." is resolved by name.
pub open spec fn denotes(t: Seq<char>) -> Option<Names> {
    if is_abs(t) { place(cleaned(path_names(t))) } else { None }
}

/// The outside world: files with their contents, directories, and pings sent on the change channel.
pub struct VWorld {
    pub files: Ghost<Map<Names, Seq<u8>>>,
    pub dirs: Ghost<Set<Names>>,
    pub pings: Ghost<nat>,
}

// Whether the operating system lets the daemon do it (assumption: does not change meanwhile).
pub uninterp spec fn can_read(loc: Names) -> bool;
pub uninterp spec fn can_write(loc: Names) -> bool;
pub uninterp spec fn can_remove(loc: Names) -> bool;
pub uninterp spec fn can_mkdir(loc: Names) -> bool;

impl VWorld {
    pub open spec fn there(self, loc: Names) -> bool { self.files@.dom().contains(loc) || self.dirs@.contains(loc) }
    /// Only this file may differ.
    pub open spec fn only_at(self, o: VWorld, loc: Names) -> bool {
        self.dirs@ == o.dirs@ && self.pings@ == o.pings@ && self.files@.remove(loc) == o.files@.remove(loc)
    }
    pub open spec fn set(self, o: VWorld, loc: Names, bytes: Seq<u8>) -> bool {
        self.dirs@ == o.dirs@ && self.pings@ == o.pings@ && self.files@ == o.files@.insert(loc, bytes)
    }
    pub open spec fn gone(self, o: VWorld, loc: Names) -> bool {
        self.dirs@ == o.dirs@ && self.pings@ == o.pings@ && self.files@ == o.files@.remove(loc)
    }
    pub open spec fn mkdirs(self, o: VWorld, loc: Names) -> bool {
        self.files@ == o.files@ && self.pings@ == o.pings@
            && forall|d: Names| #[trigger] self.dirs@.contains(d) ==> o.dirs@.contains(d) || d.is_prefix_of(loc)
    }
}

#[verifier::external_body]
pub fn fs_read<P: VAsPath>(p: P, w: &mut VWorld) -> (r: Result<Vec<u8>, IoError>)
    requires allowed(p.ptext()),
    ensures
        *final(w) == *old(w),
        ({
            let loc = os_target(p.ptext())->0;
            &&& r is Ok <==> old(w).files@.dom().contains(loc) && can_read(loc)
            &&& r is Ok ==> (r->Ok_0)@ == old(w).files@[loc]
        }),
{ unimplemented!() }

#[verifier::external_body]
pub fn fs_write<P: VAsPath>(p: P, content: &[u8], w: &mut VWorld) -> (r: Result<(), IoError>)
    requires allowed(p.ptext()),
    ensures
        r is Ok <==> can_write(os_target(p.ptext())->0),
        r is Ok ==> final(w).set(*old(w), os_target(p.ptext())->0, content@),
        r is Err ==> final(w).only_at(*old(w), os_target(p.ptext())->0),
{ unimplemented!() }

#[verifier::external_body]
pub fn fs_rename<P: VAsPath, Q: VAsPath>(p: P, q: Q, w: &mut VWorld) -> (r: Result<(), IoError>)
    requires allowed(p.ptext()), allowed(q.ptext()),
    ensures
        r is Err ==> *final(w) == *old(w),
        r is Ok ==> final(w).dirs@ == old(w).dirs@ && final(w).pings@ == old(w).pings@
            && final(w).files@ == old(w).files@.remove(os_target(p.ptext())->0).insert(os_target(q.ptext())->0, old(w).files@[os_target(p.ptext())->0]),
{ unimplemented!() }

#[verifier::external_body]
pub fn fs_remove_file<P: VAsPath>(p: P, w: &mut VWorld) -> (r: Result<(), IoError>)
    requires allowed(p.ptext()),
    ensures
        r is Ok <==> old(w).files@.dom().contains(os_target(p.ptext())->0) && can_remove(os_target(p.ptext())->0),
        r is Ok ==> final(w).gone(*old(w), os_target(p.ptext())->0),
        r is Err ==> *final(w) == *old(w),
{ unimplemented!() }

#[verifier::external_body]
pub fn fs_create_dir<P: VAsPath>(p: P, w: &mut VWorld) -> (r: Result<(), IoError>)
    requires allowed(p.ptext()),
    ensures
        r is Err ==> *final(w) == *old(w),
        r is Ok ==> final(w).files@ == old(w).files@ && final(w).pings@ == old(w).pings@
            && final(w).dirs@ == old(w).dirs@.insert(os_target(p.ptext())->0),
{ unimplemented!() }

#[verifier::external_body]
pub fn fs_create_dir_all<P: VAsPath>(p: P, w: &mut VWorld) -> (r: Result<(), IoError>)
    requires allowed(p.ptext()),
    ensures
        r is Ok <==> can_mkdir(os_target(p.ptext())->0),
        final(w).mkdirs(*old(w), os_target(p.ptext())->0),
{ unimplemented!() }

#[verifier::external_body]
pub struct FsMeta { x: u8 }

impl PathBuf {
    #[verifier::external_body]
    pub fn symlink_metadata(&self) -> (r: Result<FsMeta, IoError>)
        ensures is_abs(self@) && plain(path_names(self@)) ==> (r is Ok <==> lexists(path_names(self@))),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn exists(&self, w: &mut VWorld) -> (r: bool)
        ensures *final(w) == *old(w), os_target(self@) is Some ==> r == old(w).there(os_target(self@)->0),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn canonicalize(&self) -> (r: Result<PathBuf, IoError>)
        ensures
            is_abs(self@) && plain(path_names(self@)) && lexists(path_names(self@)) ==> {
                &&& r is Ok <==> resolved(path_names(self@)) is Some
                &&& r is Ok ==> path_names((r->Ok_0)@) == resolved(path_names(self@))->0
            },
            r is Ok ==> is_abs((r->Ok_0)@),
    { unimplemented!() }
}

pub struct OpenOptions { pub append: bool, pub truncate: bool, pub write: bool, pub create: bool }
pub struct File { pub loc: Ghost<Names>, pub append: bool }

impl OpenOptions {
    pub fn new() -> (r: Self)
        ensures !r.append && !r.truncate && !r.write && !r.create,
    { OpenOptions { append: false, truncate: false, write: false, create: false } }
    pub fn append(self, b: bool) -> (r: Self)
        ensures r == (OpenOptions { append: b, ..self }),
    { OpenOptions { append: b, ..self } }
    pub fn truncate(self, b: bool) -> (r: Self)
        ensures r == (OpenOptions { truncate: b, ..self }),
    { OpenOptions { truncate: b, ..self } }
    pub fn write(self, b: bool) -> (r: Self)
        ensures r == (OpenOptions { write: b, ..self }),
    { OpenOptions { write: b, ..self } }
    pub fn create(self, b: bool) -> (r: Self)
        ensures r == (OpenOptions { create: b, ..self }),
    { OpenOptions { create: b, ..self } }
    #[verifier::external_body]
    pub fn open<P: VAsPath>(self, p: P, w: &mut VWorld) -> (r: Result<File, IoError>)
        requires allowed(p.ptext()),
        ensures
            r is Ok ==> (r->Ok_0).loc@ == os_target(p.ptext())->0 && (r->Ok_0).append == self.append,
            if self.truncate || self.create { final(w).only_at(*old(w), os_target(p.ptext())->0) } else { *final(w) == *old(w) },
            !self.create ==> (r is Ok <==> old(w).files@.dom().contains(os_target(p.ptext())->0) && can_write(os_target(p.ptext())->0)),
    { unimplemented!() }
}

impl File {
    #[verifier::external_body]
    pub fn write_all(&mut self, content: &[u8], w: &mut VWorld) -> (r: Result<(), IoError>)
        ensures
            final(self).loc == old(self).loc,
            r is Ok <==> can_write(old(self).loc@),
            final(w).only_at(*old(w), old(self).loc@),
            r is Ok && old(self).append ==> final(w).set(*old(w), old(self).loc@, old(w).files@[old(self).loc@] + content@),
    { unimplemented!() }
}


/// Walking a directory tree with the `ignore` crate.
#[verifier::external_body]
pub struct FileType { x: u8 }
impl FileType {
    pub uninterp spec fn file(self) -> bool;
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r == self.file() { unimplemented!() }
}

pub struct DirEntry { pub path: PathBuf, pub kind: FileType }

impl DirEntry {
    pub fn path(&self) -> (r: &PathBuf) ensures *r == self.path { &self.path }
    #[verifier::external_body]
    pub fn file_type(&self) -> (r: Option<FileType>) ensures r == Some(self.kind) { unimplemented!() }
}

impl PathBuf {
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&OsStr>)
        ensures
            path_names(self@).len() > 0 && path_names(self@).last() != dotdot() ==> r is Some && (r->0)@ == path_names(self@).last(),
            path_names(self@).len() == 0 ==> r is None,
    { unimplemented!() }
}

impl OsStr {
    /// Assumption: file names are valid UTF-8.
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>)
        ensures r is Some && (r->0)@ == self@,
    { unimplemented!() }
}

/// Not excluded by ignore files, as the options of the walk have it.
pub uninterp spec fn rules_pass(base: Names, rules: Rules, hidden: bool, n: Names) -> bool;
/// Which ignore files the walk heeds.
pub struct Rules { pub parents: bool, pub ignore: bool, pub git_ignore: bool, pub git_global: bool, pub git_exclude: bool }
pub open spec fn all_rules(b: bool) -> Rules {
    Rules { parents: b, ignore: b, git_ignore: b, git_global: b, git_exclude: b }
}
/// A directory entry that is not a symbolic link.
pub uninterp spec fn direct_entry(n: Names) -> bool;

pub struct WalkBuilder { pub base: PathBuf, pub rules: Rules, pub hidden: bool }
pub struct FilteredWalk<F> { pub b: WalkBuilder, pub f: F }

impl WalkBuilder {
    #[verifier::external_body]
    pub fn new<P: VAsPath>(base: P) -> (r: Self)
        ensures r.base@ == base.ptext(), r.rules == all_rules(true), r.hidden,
    { unimplemented!() }
    pub fn standard_filters(self, b: bool) -> (r: Self)
        ensures r == (WalkBuilder { rules: all_rules(b), hidden: b, ..self }),
    { WalkBuilder { rules: Rules { parents: b, ignore: b, git_ignore: b, git_global: b, git_exclude: b }, hidden: b, ..self } }
    pub fn parents(self, b: bool) -> (r: Self)
        ensures r == (WalkBuilder { rules: Rules { parents: b, ..self.rules }, ..self }),
    { WalkBuilder { rules: Rules { parents: b, ..self.rules }, ..self } }
    pub fn ignore(self, b: bool) -> (r: Self)
        ensures r == (WalkBuilder { rules: Rules { ignore: b, ..self.rules }, ..self }),
    { WalkBuilder { rules: Rules { ignore: b, ..self.rules }, ..self } }
    pub fn git_ignore(self, b: bool) -> (r: Self)
        ensures r == (WalkBuilder { rules: Rules { git_ignore: b, ..self.rules }, ..self }),
    { WalkBuilder { rules: Rules { git_ignore: b, ..self.rules }, ..self } }
    pub fn git_global(self, b: bool) -> (r: Self)
        ensures r == (WalkBuilder { rules: Rules { git_global: b, ..self.rules }, ..self }),
    { WalkBuilder { rules: Rules { git_global: b, ..self.rules }, ..self } }
    pub fn git_exclude(self, b: bool) -> (r: Self)
        ensures r == (WalkBuilder { rules: Rules { git_exclude: b, ..self.rules }, ..self }),
    { WalkBuilder { rules: Rules { git_exclude: b, ..self.rules }, ..self } }
    pub fn hidden(self, b: bool) -> (r: Self)
        ensures r == (WalkBuilder { hidden: b, ..self }),
    { WalkBuilder { hidden: b, ..self } }
    pub fn filter_entry<F: Fn(&DirEntry) -> bool>(self, f: F) -> (r: FilteredWalk<F>)
        ensures r == (FilteredWalk { b: self, f }),
    { FilteredWalk { b: self, f } }
}

/// The filter was asked about an entry with this path and gave this answer.
pub open spec fn asked<F: Fn(&DirEntry) -> bool>(f: F, n: Names, answer: bool) -> bool {
    exists|e: DirEntry| path_names(e.path@) == n && #[trigger] call_ensures(f, (&e,), answer)
}

pub open spec fn listed(v: Seq<Result<DirEntry, IoError>>, n: Names) -> bool {
    exists|i: int| 0 <= i < v.len() && is_listed_file(#[trigger] v[i], n)
}

pub open spec fn is_listed_file(x: Result<DirEntry, IoError>, n: Names) -> bool {
    x is Ok && (x->Ok_0).kind.file() && path_names((x->Ok_0).path@) == n
}

/// A file below `base` that the ignore rules leave in, if the filter does.
pub open spec fn candidate(b: WalkBuilder, w: VWorld, n: Names) -> bool {
    let base = path_names(b.base@);
    &&& base.is_prefix_of(n) && base.len() < n.len() && plain(n.skip(base.len() as int))
    &&& place(cleaned(n)) is Some && w.files@.dom().contains(place(cleaned(n))->0) && direct_entry(n)
    &&& rules_pass(base, b.rules, b.hidden, n)
}

impl<F: Fn(&DirEntry) -> bool> FilteredWalk<F> {
    /// The entries (assumption: every directory can be read).
    #[verifier::external_body]
    pub fn build(self, w: &mut VWorld) -> (r: Vec<Result<DirEntry, IoError>>)
        requires
            is_base(self.b.base@), is_abs(self.b.base@),
            forall|e: DirEntry| path_names(e.path@).len() > 0 && path_names(e.path@).last() != dotdot() ==> #[trigger] call_requires(self.f, (&e,)),
        ensures
            *final(w) == *old(w),
            walk_facts(self.b, self.f, *old(w), r@),
    { unimplemented!() }
}

/// `[..].contains(&x)` of string literals.
pub trait VContains<T> {
    spec fn vhas(&self, x: T) -> bool;
    fn vcontains(&self, x: T) -> (r: bool)
        ensures r == self.vhas(x);
}

impl<const N: usize> VContains<&&str> for [&str; N] {
    open spec fn vhas(&self, x: &&str) -> bool { exists|i: int| 0 <= i < N && (#[trigger] self@[i])@ == x@ }
    #[verifier::external_body]
    fn vcontains(&self, x: &&str) -> (r: bool) { unimplemented!() }
}

pub trait VEndsWith<P> {
    spec fn vends(&self, p: P) -> bool;
    fn vends_with(&self, p: P) -> (r: bool)
        ensures r == self.vends(p);
}

impl VEndsWith<char> for str {
    open spec fn vends(&self, p: char) -> bool { self@.len() > 0 && self@.last() == p }
    #[verifier::external_body]
    fn vends_with(&self, p: char) -> (r: bool) { unimplemented!() }
}

/// The path denotes a location inside the project directory.
pub open spec fn can_act(base: Seq<char>, path: Seq<char>) -> bool { is_abs(base) && inside(base, denotes(path)) }

pub open spec fn only_inside(base: Seq<char>, path: Seq<char>, o: VWorld, n: VWorld) -> bool {
    if can_act(base, path) { n.only_at(o, denotes(path)->0) } else { n == o }
}

pub open spec fn is_file_of(x: Result<DirEntry, IoError>, loc: Names) -> bool {
    x is Ok && (x->Ok_0).kind.file() && denotes((x->Ok_0).path@) == Some(loc)
}

/// Some shareable file is at this location.
pub open spec fn shared_file(base: Seq<char>, w: VWorld, loc: Names) -> bool {
    exists|n: Names| #[trigger] shareable(base, w, n, true) && place(cleaned(n)) == Some(loc)
}

/// Names the daemon keeps out of the shared document.
pub open spec fn name_ok(name: Seq<char>, tilde: bool) -> bool {
    name != ".git"@ && name != ".ethersync"@ && (tilde ==> !(name.len() > 0 && name.last() == '~'))
}

pub open spec fn names_ok(base: Seq<char>, n: Names, tilde: bool) -> bool {
    forall|k: int| path_names(base).len() <= k < n.len() ==> name_ok(#[trigger] n[k], tilde)
}

/// "not under .git or .ethersync at any depth and not excluded by ignore rules".
pub open spec fn shareable(base: Seq<char>, w: VWorld, n: Names, tilde: bool) -> bool {
    let b = path_names(base);
    &&& b.is_prefix_of(n) && b.len() < n.len() && plain(n.skip(b.len() as int))
    &&& place(cleaned(n)) is Some && w.files@.dom().contains(place(cleaned(n))->0) && direct_entry(n)
    &&& rules_pass(b, all_rules(true), false, n)
    &&& names_ok(base, n, tilde)
}

/// A listed walk with the daemon's filter is exactly the shareable files.
pub open spec fn walk_is(v: Seq<Result<DirEntry, IoError>>, base: Seq<char>, w: VWorld, tilde: bool) -> bool {
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() && v[i] is Ok ==> is_abs((v[i]->Ok_0).path@)
    &&& forall|n: Names| #[trigger] listed(v, n) <==> shareable(base, w, n, tilde)
}

/// The answers of a filter are those of `name_ok`.
pub open spec fn filters_names<F: Fn(&DirEntry) -> bool>(f: F, tilde: bool) -> bool {
    forall|e: DirEntry, b: bool| path_names(e.path@).len() > 0 && path_names(e.path@).last() != dotdot() && #[trigger] call_ensures(f, (&e,), b)
        ==> b == name_ok(path_names(e.path@).last(), tilde)
}

pub broadcast proof fn lemma_walk<F: Fn(&DirEntry) -> bool>(b: WalkBuilder, f: F, w: VWorld, v: Seq<Result<DirEntry, IoError>>)
    requires #[trigger] walk_facts(b, f, w, v),
    ensures
        filters_names(f, true) && b.rules == all_rules(true) && !b.hidden ==> walk_is(v, b.base@, w, true),
        filters_names(f, false) && b.rules == all_rules(true) && !b.hidden ==> walk_is(v, b.base@, w, false),
{
    if b.rules == all_rules(true) && !b.hidden {
        if filters_names(f, true) { lemma_walk_with(b, f, w, v, true); }
        if filters_names(f, false) { lemma_walk_with(b, f, w, v, false); }
    }
}

pub proof fn lemma_walk_with<F: Fn(&DirEntry) -> bool>(b: WalkBuilder, f: F, w: VWorld, v: Seq<Result<DirEntry, IoError>>, tilde: bool)
    requires walk_facts(b, f, w, v), filters_names(f, tilde), b.rules == all_rules(true), !b.hidden,
    ensures walk_is(v, b.base@, w, tilde),
{
    let base = path_names(b.base@);
    assert forall|n: Names| #[trigger] listed(v, n) implies shareable(b.base@, w, n, tilde) by {
        assert(candidate(b, w, n));
        assert forall|k: int| base.len() <= k < n.len() implies name_ok(#[trigger] n[k], tilde) by {
            assert(asked(f, n.take(k + 1), true));
            assert(n.take(k + 1).last() == n[k]);
            assert(n.skip(base.len() as int)[k - base.len()] != dotdot());
        }
    }
    assert forall|n: Names| shareable(b.base@, w, n, tilde) implies #[trigger] listed(v, n) by {
        assert(candidate(b, w, n));
        if !listed(v, n) {
            let k = choose|k: int| base.len() < k <= n.len() && #[trigger] asked(f, n.take(k), false);
            assert(n.take(k).last() == n[k - 1]);
            assert(n.skip(base.len() as int)[k - 1 - base.len()] != dotdot());
            assert(name_ok(n[k - 1], tilde));
        }
    }
}

pub open spec fn walk_facts<F: Fn(&DirEntry) -> bool>(b: WalkBuilder, f: F, w: VWorld, v: Seq<Result<DirEntry, IoError>>) -> bool {
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() && v[i] is Ok ==> is_abs((v[i]->Ok_0).path@)
    &&& forall|n: Names| #[trigger] listed(v, n) ==> candidate(b, w, n)
        && forall|k: int| path_names(b.base@).len() < k <= n.len() ==> #[trigger] asked(f, n.take(k), true)
    &&& forall|n: Names| #[trigger] candidate(b, w, n) && !listed(v, n) ==>
        exists|k: int| path_names(b.base@).len() < k <= n.len() && #[trigger] asked(f, n.take(k), false)
}

/// Looking for a location among the listed files.
pub broadcast proof fn lemma_found(v: Seq<Result<DirEntry, IoError>>, base: Seq<char>, w: VWorld, loc: Names)
    requires #[trigger] walk_is(v, base, w, true),
    ensures (exists|i: int| 0 <= i < v.len() && is_file_of(#[trigger] v[i], loc)) <==> #[trigger] shared_file(base, w, loc),
{
    if exists|i: int| 0 <= i < v.len() && is_file_of(#[trigger] v[i], loc) {
        let i = choose|i: int| 0 <= i < v.len() && is_file_of(#[trigger] v[i], loc);
        let n = path_names((v[i]->Ok_0).path@);
        assert(is_listed_file(v[i], n));
        assert(listed(v, n));
        assert(shareable(base, w, n, true));
    }
    if shared_file(base, w, loc) {
        let n = choose|n: Names| #[trigger] shareable(base, w, n, true) && place(cleaned(n)) == Some(loc);
        assert(listed(v, n));
        let i = choose|i: int| 0 <= i < v.len() && is_listed_file(#[trigger] v[i], n);
        assert(is_file_of(v[i], loc));
    }
}

pub mod fslem {
    pub use super::{axiom_root, axiom_real, lemma_walk, lemma_found};
    use super::*;
    pub broadcast group group_fs { axiom_root, axiom_real, lemma_walk, lemma_found }
}
