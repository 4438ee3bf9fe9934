// std::path, seen as texts (assumption: file names are valid UTF-8).
#[verifier::external_body]
pub struct PathBuf { x: u8 }

impl View for PathBuf {
    type V = Seq<char>;
    uninterp spec fn view(&self) -> Seq<char>;
}

impl Clone for PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

/// The names a path consists of ("." and repeated slashes dropped, ".." kept).
pub type Names = Seq<Seq<char>>;

pub uninterp spec fn path_names(text: Seq<char>) -> Names;

pub open spec fn is_abs(text: Seq<char>) -> bool { text.len() > 0 && text[0] == '/' }

/// A relative path that does not start with "." (such a path has one component more than names).
pub uninterp spec fn tidy(text: Seq<char>) -> bool;

/// The names joined by single slashes; with a slash in front.
pub uninterp spec fn rel_text(n: Names) -> Seq<char>;
pub uninterp spec fn abs_text(n: Names) -> Seq<char>;

/// A relative path written as the daemon writes them.  Only such paths are equal exactly if their
/// texts are.
pub open spec fn normal(text: Seq<char>) -> bool { !is_abs(text) && text == rel_text(path_names(text)) }

pub open spec fn dotdot() -> Seq<char> { seq!['.', '.'] }

pub open spec fn plain(n: Names) -> bool { forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] != dotdot() }

/// An absolute path with its ".." resolved by name; ".." of the root is the root.
pub open spec fn cleaned(n: Names) -> Names
    decreases n.len()
{
    if n.len() == 0 {
        n
    } else {
        let c = cleaned(n.drop_last());
        if n.last() == dotdot() {
            if c.len() == 0 { c } else { c.drop_last() }
        } else {
            c.push(n.last())
        }
    }
}

/// Can be a part of a path: no slashes, not empty, not ".".
pub uninterp spec fn is_name(s: Seq<char>) -> bool;

pub open spec fn are_names(n: Names) -> bool { forall|i: int| 0 <= i < n.len() ==> is_name(#[trigger] n[i]) }

pub axiom fn axiom_names(text: Seq<char>)
    ensures are_names(path_names(text));

/// Joined by slashes, they are read back.
pub axiom fn axiom_rel_text(n: Names)
    requires are_names(n),
    ensures path_names(rel_text(n)) == n, !is_abs(rel_text(n));

pub proof fn lemma_cleaned_names(n: Names)
    requires are_names(n),
    ensures are_names(cleaned(n)),
    decreases n.len(),
{
    if n.len() > 0 { lemma_cleaned_names(n.drop_last()); }
}

pub proof fn lemma_cleaned_plain(n: Names)
    ensures plain(cleaned(n)),
    decreases n.len(),
{
    if n.len() > 0 { lemma_cleaned_plain(n.drop_last()); }
}

pub proof fn lemma_cleaned_append(a: Names, b: Names)
    requires plain(b),
    ensures cleaned(a + b) == cleaned(a) + b,
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(cleaned(a) + b =~= cleaned(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_cleaned_append(a, b.drop_last());
        assert((cleaned(a) + b.drop_last()).push(b.last()) =~= cleaned(a) + b);
    }
}

pub proof fn lemma_cleaned_idem(n: Names)
    requires plain(n),
    ensures cleaned(n) == n,
{
    let e = Seq::<Seq<char>>::empty();
    lemma_cleaned_append(e, n);
    assert(e + n =~= n);
}

/// `AsRef<Path>`.
pub trait VAsPath {
    spec fn ptext(&self) -> Seq<char>;
}
impl VAsPath for str { open spec fn ptext(&self) -> Seq<char> { self@ } }
impl VAsPath for String { open spec fn ptext(&self) -> Seq<char> { self@ } }
impl VAsPath for PathBuf { open spec fn ptext(&self) -> Seq<char> { self@ } }
impl VAsPath for OsStr { open spec fn ptext(&self) -> Seq<char> { self@ } }
impl<T: VAsPath + ?Sized> VAsPath for &T { open spec fn ptext(&self) -> Seq<char> { (*self).ptext() } }

#[verifier::external_body]
pub struct OsStr { x: u8 }
impl View for OsStr {
    type V = Seq<char>;
    uninterp spec fn view(&self) -> Seq<char>;
}

#[verifier::external_body]
pub fn path_new<P: VAsPath>(p: P) -> (r: PathBuf)
    ensures r@ == p.ptext(),
{ unimplemented!() }

/// `std::path::absolute`: an absolute path keeps its names; a relative one is put below the current
/// directory.
#[verifier::external_body]
pub fn path_absolute<P: VAsPath>(p: P) -> (r: Result<PathBuf, IoError>)
    ensures
        r is Ok ==> is_abs((r->Ok_0)@),
        is_abs(p.ptext()) ==> r is Ok && path_names((r->Ok_0)@) == path_names(p.ptext()),
{ unimplemented!() }

/// std::io::Error and the like: only the fact that there is an error is kept.
pub type IoError = AnyhowError;

/// `path.display()` and its `to_string`.
pub struct PathDisplay { pub text: String }

impl PathDisplay {
    pub fn to_string(&self) -> (r: String)
        ensures r@ == self.text@,
    { self.text.clone() }
}

impl VDisplay for PathDisplay {
    open spec fn vshown(&self) -> Seq<char> { self.text@ }
    fn vshow(&self) -> (r: String) { self.text.clone() }
}

/// `path.iter()`/`path.components()`.
pub enum Component<'a> { RootDir, CurDir, ParentDir, Normal(&'a OsStr) }

pub struct Components<'a> { pub v: Vec<Component<'a>> }

pub open spec fn comp_names(v: Seq<Component>) -> Names { v.map_values(|c: Component| c->Normal_0@) }

pub open spec fn single(name: Seq<char>) -> bool { path_names(name) == seq![name] && !is_abs(name) && tidy(name) }

/// `v` are the components of an absolute path with the given names.
pub open spec fn abs_components(v: Seq<Component>, n: Names) -> bool {
    &&& v.len() == n.len() + 1
    &&& v[0] is RootDir
    &&& forall|i: int| 0 <= i < n.len() ==> (if n[i] == dotdot() { (#[trigger] v[i + 1]) is ParentDir } else { v[i + 1] is Normal && (v[i + 1]->Normal_0)@ == n[i] && single(n[i]) })
}

impl<'a> Components<'a> {
    #[verifier::external_body]
    pub fn rev(self) -> (r: Vec<Component<'a>>)
        ensures
            r@.len() == self.v@.len(),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.v@[r@.len() - 1 - i],
    { unimplemented!() }

    pub fn count(self) -> (r: usize)
        ensures r == self.v@.len(),
    { self.v.len() }
}

impl PathBuf {
    #[verifier::external_body]
    pub fn new() -> (r: PathBuf)
        ensures r@ == Seq::<char>::empty(), tidy(r@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn display(&self) -> (r: PathDisplay)
        ensures r.text@ == self@,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_absolute(&self) -> (r: bool)
        ensures r == is_abs(self@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_relative(&self) -> (r: bool)
        ensures r == !is_abs(self@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf)
        ensures r == *self,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn with_file_name<P: VAsPath>(&self, p: P) -> (r: PathBuf)
        ensures is_abs(self@) && !is_abs(p.ptext()) ==> is_abs(r@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn with_extension<P: VAsPath>(&self, p: P) -> (r: PathBuf)
        ensures is_abs(r@) <==> is_abs(self@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn join<P: VAsPath>(&self, p: P) -> (r: PathBuf)
        ensures
            is_abs(p.ptext()) ==> r@ == p.ptext(),
            !is_abs(p.ptext()) ==> (is_abs(r@) <==> is_abs(self@)) && path_names(r@) == path_names(self@) + path_names(p.ptext()),
            !is_abs(self@) && tidy(self@) && !is_abs(p.ptext()) && tidy(p.ptext()) ==> tidy(r@),
    { unimplemented!() }

    /// path_clean's `clean`.
    #[verifier::external_body]
    pub fn clean(&self) -> (r: PathBuf)
        ensures is_abs(self@) ==> is_abs(r@) && path_names(r@) == cleaned(path_names(self@)) && r@ == abs_text(path_names(r@)),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn strip_prefix<P: VAsPath>(&self, p: P) -> (r: Result<PathBuf, IoError>)
        ensures
            is_abs(self@) && is_abs(p.ptext()) ==> {
                &&& r is Ok <==> path_names(p.ptext()).is_prefix_of(path_names(self@))
                &&& r is Ok ==> !is_abs((r->Ok_0)@) && tidy((r->Ok_0)@) && path_names((r->Ok_0)@) == path_names(self@).skip(path_names(p.ptext()).len() as int)
                &&& r is Ok && self@ == abs_text(path_names(self@)) ==> (r->Ok_0)@ == rel_text(path_names((r->Ok_0)@))
            },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn components<'a>(&'a self) -> (r: Components<'a>)
        ensures
            is_abs(self@) ==> abs_components(r.v@, path_names(self@)),
            !is_abs(self@) && tidy(self@) ==> r.v@.len() == path_names(self@).len(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: Components<'a>)
        ensures
            is_abs(self@) ==> abs_components(r.v@, path_names(self@)),
            !is_abs(self@) && tidy(self@) ==> r.v@.len() == path_names(self@).len(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn parent<'a>(&'a self) -> (r: Option<&'a PathBuf>)
        ensures
            is_abs(self@) ==> (r is Some <==> path_names(self@).len() > 0),
            is_abs(self@) && r is Some ==> is_abs((r->0)@) && path_names((r->0)@) == path_names(self@).drop_last(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: bool)
        ensures
            is_abs(old(self)@) ==> is_abs(final(self)@) && r == (path_names(old(self)@).len() > 0)
                && path_names(final(self)@) == (if r { path_names(old(self)@).drop_last() } else { path_names(old(self)@) }),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn vstarts_with<P: VAsPath>(&self, p: P) -> (r: bool)
        ensures is_abs(self@) && is_abs(p.ptext()) ==> r == path_names(p.ptext()).is_prefix_of(path_names(self@)),
    { unimplemented!() }
}

impl VInto<PathBuf> for &str {
    open spec fn vinto_req(self) -> bool { true }
    open spec fn vinto_ens(self, r: PathBuf) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vinto(self) -> (r: PathBuf) { unimplemented!() }
}

impl VInto<PathBuf> for &PathBuf {
    open spec fn vinto_req(self) -> bool { true }
    open spec fn vinto_ens(self, r: PathBuf) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vinto(self) -> (r: PathBuf) { unimplemented!() }
}

impl VInto<PathBuf> for String {
    open spec fn vinto_req(self) -> bool { true }
    open spec fn vinto_ens(self, r: PathBuf) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vinto(self) -> (r: PathBuf) { unimplemented!() }
}

/// A relative path of no names: the empty one; one name: the name itself.
pub broadcast axiom fn axiom_names_empty()
    ensures #[trigger] path_names(Seq::<char>::empty()).len() == 0;

pub mod pathlem {
    pub use super::axiom_names_empty;
    use super::*;
    pub broadcast group group_path { axiom_names_empty }
}

// Paths are compared name by name.
impl vstd::std_specs::cmp::PartialEqSpecImpl<str> for OsStr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &str) -> bool { self@ == o@ }
}
impl PartialEq<str> for OsStr {
    #[verifier::external_body]
    fn eq(&self, o: &str) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for PathBuf {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &PathBuf) -> bool { is_abs(self@) == is_abs(o@) && path_names(self@) == path_names(o@) }
}

impl PartialEq for PathBuf {
    #[verifier::external_body]
    fn eq(&self, o: &PathBuf) -> (r: bool) { unimplemented!() }
}
