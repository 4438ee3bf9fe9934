// ropey 1.6 with its default line breaks: definition and assumed contracts.

/// A line ends right after character `i`.
pub open spec fn line_end_at(t: Seq<char>, i: int) -> bool {
    &&& 0 <= i < t.len()
    &&& {
        ||| t[i] == '\n'
        ||| t[i] == '\u{b}'
        ||| t[i] == '\u{c}'
        ||| t[i] == '\u{85}'
        ||| t[i] == '\u{2028}'
        ||| t[i] == '\u{2029}'
        ||| (t[i] == '\r' && !(i + 1 < t.len() && t[i + 1] == '\n'))
    }
}

/// Number of the line that character offset `n` is on.
pub open spec fn line_of(t: Seq<char>, n: int) -> nat
    decreases n,
{
    if n <= 0 { 0 } else { line_of(t, n - 1) + (if line_end_at(t, n - 1) { 1nat } else { 0nat }) }
}

pub open spec fn line_count(t: Seq<char>) -> nat { line_of(t, t.len() as int) + 1 }

/// `n` is the offset where line `l` starts; line `line_count` starts at the end of the text.
pub open spec fn is_line_start(t: Seq<char>, l: nat, n: int) -> bool {
    &&& 0 <= n <= t.len()
    &&& if l == line_count(t) { n == t.len() } else {
        line_of(t, n) == l && (n == 0 || line_end_at(t, n - 1))
    }
}


pub open spec fn line_start(t: Seq<char>, l: nat) -> int { choose|n: int| is_line_start(t, l, n) }

pub proof fn lemma_line_of_mono(t: Seq<char>, a: int, b: int)
    requires a <= b,
    ensures line_of(t, a) <= line_of(t, b),
    decreases b - a,
{
    if a < b {
        lemma_line_of_mono(t, a, b - 1);
        if b <= 0 {} else {}
    }
}

pub proof fn lemma_line_start_unique(t: Seq<char>, l: nat, a: int, b: int)
    requires is_line_start(t, l, a), is_line_start(t, l, b),
    ensures a == b,
{
    if l != line_count(t) {
        if a < b {
            lemma_line_of_mono(t, a, b - 1);
        } else if b < a {
            lemma_line_of_mono(t, b, a - 1);
        }
    }
}

pub proof fn lemma_line_start_exists(t: Seq<char>, l: nat, m: int)
    requires 0 <= m <= t.len(), l <= line_of(t, m),
    ensures exists|n: int| is_line_start(t, l, n) && n <= m,
    decreases m,
{
    if l < line_count(t) {
    }
    lemma_line_of_mono(t, m, t.len() as int);
    if m == 0 {
        assert(is_line_start(t, l, 0));
    } else if line_of(t, m - 1) >= l {
        lemma_line_start_exists(t, l, m - 1);
    } else {
        assert(is_line_start(t, l, m));
    }
}

pub proof fn lemma_line_start(t: Seq<char>, l: nat)
    requires l <= line_count(t),
    ensures is_line_start(t, l, line_start(t, l)),
{
    if l == line_count(t) {
        assert(is_line_start(t, l, t.len() as int));
    } else {
        lemma_line_start_exists(t, l, t.len() as int);
    }
}

/// A position is valid if its line exists and it lies within the line, its line break included.
pub open spec fn pos_ok(t: Seq<char>, line: nat, character: nat) -> bool {
    &&& line < line_count(t)
    &&& line_start(t, line) + character <= line_start(t, line + 1)
}

pub open spec fn pos_offset(t: Seq<char>, line: nat, character: nat) -> int {
    line_start(t, line) + character
}

#[verifier::external_body]
pub struct Rope { x: u8 }

#[verifier::external_body]
pub struct RopeSlice { x: u8 }

impl View for Rope {
    type V = Seq<char>;
    uninterp spec fn view(&self) -> Seq<char>;
}

impl View for RopeSlice {
    type V = Seq<char>;
    uninterp spec fn view(&self) -> Seq<char>;
}

impl Rope {
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Self)
        ensures r@ == s@,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn len_chars(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn len_lines(&self) -> (r: usize)
        ensures r == line_count(self@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn char_to_line(&self, n: usize) -> (r: usize)
        requires n <= self@.len(),
        ensures r == line_of(self@, n as int),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn line_to_char(&self, l: usize) -> (r: usize)
        requires l <= line_count(self@),
        ensures r == line_start(self@, l as nat),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn line(&self, l: usize) -> (r: RopeSlice)
        requires l < line_count(self@),
        ensures r@ == self@.subrange(line_start(self@, l as nat), line_start(self@, (l + 1) as nat)),
    { unimplemented!() }
}

impl RopeSlice {
    #[verifier::external_body]
    pub fn len_chars(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
}

/// A text held in memory has fewer than isize::MAX characters.
#[verifier::external_body]
pub proof fn axiom_text_len(s: &str)
    ensures s@.len() <= isize::MAX,
{ }

#[verifier::external_body]
pub proof fn axiom_string_len(s: String)
    ensures s@.len() <= isize::MAX,
{ }
