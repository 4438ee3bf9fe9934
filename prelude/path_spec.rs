// What path.rs promises (C07).
impl std::ops::Deref for AbsolutePath {
    type Target = PathBuf;
    fn deref(&self) -> (r: &PathBuf) ensures *r == self.0 { &self.0 }
}
impl std::ops::Deref for RelativePath {
    type Target = PathBuf;
    fn deref(&self) -> (r: &PathBuf) ensures *r == self.0 { &self.0 }
}
impl std::ops::Deref for FileUri {
    type Target = String;
    fn deref(&self) -> (r: &String) ensures *r == self.0 { &self.0 }
}
impl VAsPath for AbsolutePath { open spec fn ptext(&self) -> Seq<char> { self.0@ } }
impl VAsPath for RelativePath { open spec fn ptext(&self) -> Seq<char> { self.0@ } }

impl AbsolutePath {
    pub open spec fn text(self) -> Seq<char> { self.0@ }
    pub open spec fn inv(self) -> bool { is_abs(self.0@) }
    /// The file it denotes.
    pub open spec fn file(self) -> Names { cleaned(path_names(self.0@)) }
}

impl RelativePath {
    pub open spec fn text(self) -> Seq<char> { self.0@ }
}

impl FileUri {
    pub open spec fn text(self) -> Seq<char> { self.0@ }
    pub open spec fn inv(self) -> bool { is_file_uri(self.0@) }
}

pub open spec fn file_prefix() -> Seq<char> { "file://"@ }

/// "A file URI is accepted exactly if it starts with file:///".
pub open spec fn is_file_uri(t: Seq<char>) -> bool { "file:///"@.is_prefix_of(t) }

/// "lies strictly below the project directory".
pub open spec fn strictly_below(base: Names, file: Names) -> bool {
    cleaned(base).is_prefix_of(file) && cleaned(base).len() < file.len()
}

/// `rel` is the path of `file` seen from `base`.
pub open spec fn rel_of(base: Seq<char>, file: Names, rel: Seq<char>) -> bool {
    !is_abs(rel) && path_names(rel) == file.skip(cleaned(path_names(base)).len() as int)
}

/// URI -> relative path -> URI is the same file.
pub proof fn lemma_round_trip(base: Seq<char>, p: Names, rel: Seq<char>, back: Names)
    requires
        is_abs(base), strictly_below(path_names(base), cleaned(p)), rel_of(base, cleaned(p), rel),
        back == path_names(base) + path_names(rel),
    ensures cleaned(back) == cleaned(p), path_names(rel).len() > 0, plain(path_names(rel)),
{
    lemma_cleaned_plain(p);
    let k = cleaned(path_names(base)).len() as int;
    assert(plain(path_names(rel)));
    lemma_cleaned_append(path_names(base), path_names(rel));
    assert(cleaned(path_names(base)) + cleaned(p).skip(k) =~= cleaned(p));
}

/// Different files never get the same relative path.
pub proof fn lemma_injective(base: Seq<char>, p: Names, q: Names, rel: Seq<char>)
    requires
        strictly_below(path_names(base), cleaned(p)), strictly_below(path_names(base), cleaned(q)),
        rel_of(base, cleaned(p), rel), rel_of(base, cleaned(q), rel),
    ensures cleaned(p) == cleaned(q),
{
    let k = cleaned(path_names(base)).len() as int;
    assert(cleaned(p) =~= cleaned(path_names(base)) + cleaned(p).skip(k));
    assert(cleaned(q) =~= cleaned(path_names(base)) + cleaned(q).skip(k));
}
