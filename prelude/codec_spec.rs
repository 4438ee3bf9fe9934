// Content-Length framing.
pub open spec fn is_ascii_text(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i] as u32) < 128 }
/// UTF-8 of an ASCII text is that text's codes.
pub axiom fn axiom_utf8_ascii(t: Seq<char>)
    requires is_ascii_text(t),
    ensures utf8(t) == ascii_bytes(t);
pub axiom fn axiom_utf8_cat(a: Seq<char>, b: Seq<char>)
    ensures utf8(a + b) == utf8(a) + utf8(b);
/// Numbers are written with digits and read back.
pub axiom fn axiom_decimal(n: int)
    requires n >= 0,
    ensures forall|i: int| 0 <= i < decimal(n).len() ==> '0' <= #[trigger] decimal(n)[i] <= '9';
pub uninterp spec fn number_of(t: Seq<char>) -> Option<usize>;
pub axiom fn axiom_number(n: usize)
    ensures number_of(decimal(n as int)) == Some(n);

/// Strings of bytes: BytesMut, slices.
#[verifier::opaque]
pub open spec fn is_at(x: Seq<u8>, n: int, e: Seq<u8>, j: int) -> bool { 0 <= j && j + n <= x.len() && x.subrange(j, j + n) == e }
pub open spec fn first_at(x: Seq<u8>, n: int, e: Seq<u8>, r: Option<usize>) -> bool {
    match r {
        Some(i) => is_at(x, n, e, i as int) && forall|j: int| j < i ==> !#[trigger] is_at(x, n, e, j),
        None => forall|j: int| !#[trigger] is_at(x, n, e, j),
    }
}
pub trait VBytes {
    spec fn seen(&self) -> Seq<u8>;
    fn vfind(&self, n: usize, e: &[u8]) -> (r: Option<usize>)
        requires n > 0,
        ensures first_at(self.seen(), n as int, e@, r);
    fn vslice_from(&self, a: usize) -> (r: &[u8])
        requires a <= self.seen().len(),
        ensures r@ == self.seen().skip(a as int);
    fn vslice_to(&self, b: usize) -> (r: &[u8])
        requires b <= self.seen().len(),
        ensures r@ == self.seen().take(b as int);
    fn vslice(&self, a: usize, b: usize) -> (r: &[u8])
        requires a <= b <= self.seen().len(),
        ensures r@ == self.seen().subrange(a as int, b as int);
}
pub struct BytesMut { b: Vec<u8> }
impl View for BytesMut { type V = Seq<u8>; closed spec fn view(&self) -> Seq<u8> { self.b@ } }
impl VBytes for BytesMut {
    open spec fn seen(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vfind(&self, n: usize, e: &[u8]) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn vslice_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vslice_to(&self, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vslice(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
}
impl VBytes for [u8] {
    open spec fn seen(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vfind(&self, n: usize, e: &[u8]) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn vslice_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vslice_to(&self, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vslice(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
}
impl BytesMut {
    #[verifier::external_body]
    pub fn extend_from_slice(&mut self, s: &[u8])
        ensures final(self)@ == old(self)@ + s@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put_slice(&mut self, s: &[u8])
        ensures final(self)@ == old(self)@ + s@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize)
        ensures final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize)
        requires n <= old(self)@.len(),
        ensures final(self)@ == old(self)@.skip(n as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: BytesMut)
        requires n <= old(self)@.len(),
        ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0),
    { unimplemented!() }
}

/// `.len()`: bytes.
pub trait VLen {
    spec fn size(&self) -> int;
    fn vlen(&self) -> (r: usize)
        ensures r == self.size();
}
impl VLen for BytesMut {
    open spec fn size(&self) -> int { self@.len() as int }
    #[verifier::external_body]
    fn vlen(&self) -> (r: usize) { unimplemented!() }
}
impl VLen for [u8] {
    open spec fn size(&self) -> int { self@.len() as int }
    #[verifier::external_body]
    fn vlen(&self) -> (r: usize) { unimplemented!() }
}
impl VLen for String {
    open spec fn size(&self) -> int { utf8(self@).len() as int }
    #[verifier::external_body]
    fn vlen(&self) -> (r: usize) { unimplemented!() }
}
impl VLen for str {
    open spec fn size(&self) -> int { utf8(self@).len() as int }
    #[verifier::external_body]
    fn vlen(&self) -> (r: usize) { unimplemented!() }
}
#[verifier::external_body]
pub fn str_from_utf8<B: VBytes + ?Sized>(b: &B) -> (r: Result<&str, AnyhowError>)
    ensures
        r is Ok <==> utf8_text(b.seen()) is Some,
        r is Ok ==> Some((r->Ok_0)@) == utf8_text(b.seen()),
{ unimplemented!() }
pub trait VParse {
    spec fn ptext(&self) -> Seq<char>;
    fn vparse(&self) -> (r: Result<usize, AnyhowError>)
        ensures r is Ok <==> number_of(self.ptext()) is Some, r is Ok ==> Some(r->Ok_0) == number_of(self.ptext());
}
impl VParse for str {
    open spec fn ptext(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vparse(&self) -> (r: Result<usize, AnyhowError>) { unimplemented!() }
}

// ---- frames
pub open spec fn header_start() -> Seq<u8> { ascii_bytes("Content-Length: "@) }
pub open spec fn header_end() -> Seq<u8> { ascii_bytes("\r\n\r\n"@) }
pub open spec fn frame(m: Seq<char>) -> Seq<u8> {
    header_start() + utf8(decimal(utf8(m).len() as int)) + header_end() + utf8(m)
}
pub open spec fn frames(ms: Seq<Seq<char>>) -> Seq<u8>
    decreases ms.len(),
{
    if ms.len() == 0 { Seq::empty() } else { frame(ms[0]) + frames(ms.skip(1)) }
}
/// `b` is what has arrived so far of the frames of `ms`.
pub open spec fn arrived(b: Seq<u8>, ms: Seq<Seq<char>>) -> bool {
    b.len() <= frames(ms).len() <= usize::MAX && b == frames(ms).take(b.len() as int)
}
/// What decoding the arrived bytes `b0` yields and leaves.
pub open spec fn decoded(b0: Seq<u8>, ms: Seq<Seq<char>>, r: Result<Option<String>, AnyhowError>, b1: Seq<u8>) -> bool {
    r is Ok && if ms.len() > 0 && b0.len() >= frame(ms[0]).len() {
        r->Ok_0 is Some && (r->Ok_0->0)@ == ms[0] && b1 == b0.skip(frame(ms[0]).len() as int)
    } else {
        r->Ok_0 is None && b1 == b0
    }
}

pub open spec fn digits(n: int) -> Seq<u8> { utf8(decimal(n)) }

pub proof fn lemma_literals()
    ensures
        header_start().len() == 16,
        header_end() == seq![13u8, 10u8, 13u8, 10u8],
        ascii_bytes("\n\n"@) == seq![10u8, 10u8],
        utf8("Content-Length: "@) == header_start(),
        utf8("\r\n\r\n"@) == header_end(),
{
    reveal_strlit("Content-Length: ");
    reveal_strlit("\r\n\r\n");
    reveal_strlit("\n\n");
    assert(header_end() =~= seq![13u8, 10u8, 13u8, 10u8]);
    assert(ascii_bytes("\n\n"@) =~= seq![10u8, 10u8]);
    axiom_utf8_ascii("Content-Length: "@);
    axiom_utf8_ascii("\r\n\r\n"@);
}

pub proof fn lemma_digits(n: int)
    requires n >= 0,
    ensures forall|i: int| 0 <= i < digits(n).len() ==> 48 <= #[trigger] digits(n)[i] <= 57,
{
    axiom_decimal(n);
    let t = decimal(n);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 128 by { }
    axiom_utf8_ascii(t);
    assert forall|i: int| 0 <= i < digits(n).len() implies 48 <= #[trigger] digits(n)[i] <= 57 by {
        assert('0' <= t[i] <= '9');
        assert(digits(n)[i] == t[i] as u8);
    }
}

pub proof fn lemma_none_arrived(b: Seq<u8>, ms: Seq<Seq<char>>)
    requires arrived(b, ms), ms.len() == 0,
    ensures b.len() == 0, forall|j: int| !#[trigger] is_at(b, 16, header_start(), j),
{
    reveal(is_at);
}

/// Where the parts of the first frame are found in what has arrived.
pub proof fn lemma_arrived(b: Seq<u8>, ms: Seq<Seq<char>>)
    requires arrived(b, ms), ms.len() > 0,
    ensures
        ({
            let n = utf8(ms[0]).len() as int;
            let d = digits(n).len() as int;
            let t = b.skip(16);
            &&& frame(ms[0]).len() == 20 + d + n
            &&& frame(ms[0]).len() <= usize::MAX
            &&& b.len() >= 16 ==> is_at(b, 16, header_start(), 0)
            &&& b.len() < 16 ==> forall|j: int| !#[trigger] is_at(b, 16, header_start(), j)
            &&& b.len() >= 20 + d ==> is_at(t, 4, header_end(), d) && (forall|j: int| j < d ==> !#[trigger] is_at(t, 4, header_end(), j)) && t.take(d) == digits(n) && b.subrange(16, 16 + d) == digits(n)
            &&& 16 <= b.len() < 20 + d ==> (forall|j: int| !#[trigger] is_at(t, 4, header_end(), j)) && (forall|j: int| !#[trigger] is_at(t, 2, ascii_bytes("\n\n"@), j))
            &&& b.len() >= frame(ms[0]).len() ==> b.skip(20 + d).take(n) == utf8(ms[0]) && b.skip(20 + d).skip(n) == b.skip(frame(ms[0]).len() as int) && b.subrange(20 + d, 20 + d + n) == utf8(ms[0])
        }),
{
    reveal(is_at);
    lemma_literals();
    let n = utf8(ms[0]).len() as int;
    lemma_digits(n);
    let dg = digits(n);
    let d = dg.len() as int;
    let t = b.skip(16);
    let f = frame(ms[0]);
    let all = frames(ms);
    assert(all == f + frames(ms.skip(1)));
    assert(forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == all[i]);
    assert(forall|i: int| 0 <= i < b.len() && i < f.len() ==> #[trigger] b[i] == f[i]);
    assert(forall|i: int| 0 <= i < d && 16 + i < b.len() ==> #[trigger] t[i] == dg[i]);
    assert(forall|i: int| d <= i < d + 4 && 16 + i < b.len() ==> #[trigger] t[i] == header_end()[i - d]);
    if b.len() >= 16 {
        assert(b.subrange(0, 16) =~= header_start());
    }
    assert forall|j: int| j < d && b.len() >= 16 implies !#[trigger] is_at(t, 4, header_end(), j) by {
        if is_at(t, 4, header_end(), j) {
            assert(t.subrange(j, j + 4)[0] == 13u8);
            assert(t[j] == dg[j]);
        }
    }
    if b.len() >= 20 + d {
        assert(t.subrange(d, d + 4) =~= header_end());
        assert(t.take(d) =~= dg);
        assert(b.subrange(16, 16 + d) =~= dg);
    }
    if 16 <= b.len() < 20 + d {
        let nn = ascii_bytes("\n\n"@);
        assert forall|j: int| !#[trigger] is_at(t, 2, nn, j) by {
            if is_at(t, 2, nn, j) {
                assert(t.subrange(j, j + 2)[0] == 10u8);
                assert(t.subrange(j, j + 2)[1] == 10u8);
                assert(t[j] == 10u8 && t[j + 1] == 10u8);
                if j < d { assert(t[j] == dg[j]); }
            }
        }
    }
    if b.len() >= f.len() {
        assert(b.skip(20 + d).take(n) =~= utf8(ms[0]));
        assert(b.skip(20 + d).skip(n) =~= b.skip(20 + d + n));
        assert(b.subrange(20 + d, 20 + d + n) =~= utf8(ms[0]));
    }
}

/// A reader appends pieces of the stream to its buffer and decodes; `k` messages are out.
pub open spec fn reading(ms: Seq<Seq<char>>, fed: int, buf: Seq<u8>, out: Seq<Seq<char>>) -> bool {
    let k = out.len() as int;
    &&& frames(ms).len() <= usize::MAX
    &&& 0 <= fed <= frames(ms).len()
    &&& k <= ms.len() && out == ms.take(k)
    &&& frames(ms.take(k)).len() <= fed
    &&& buf == frames(ms).subrange(frames(ms.take(k)).len() as int, fed)
}

pub proof fn lemma_frames_split(ms: Seq<Seq<char>>, k: int)
    requires 0 <= k <= ms.len(),
    ensures frames(ms) == frames(ms.take(k)) + frames(ms.skip(k)),
    decreases k,
{
    if k == 0 {
        assert(ms.take(0) =~= Seq::<Seq<char>>::empty());
        assert(ms.skip(0) =~= ms);
        assert(frames(ms.take(0)) + frames(ms) =~= frames(ms));
    } else {
        let tail = ms.skip(1);
        lemma_frames_split(tail, k - 1);
        assert(ms.take(k).skip(1) =~= tail.take(k - 1));
        assert(ms.skip(k) =~= tail.skip(k - 1));
        assert(frames(ms) =~= frames(ms.take(k)) + frames(ms.skip(k)));
    }
}

/// Whatever the pieces, the reader stays in step with the stream ...
pub proof fn lemma_feed(ms: Seq<Seq<char>>, fed: int, buf: Seq<u8>, out: Seq<Seq<char>>, n: int)
    requires reading(ms, fed, buf, out), n >= 0, fed + n <= frames(ms).len(),
    ensures reading(ms, fed + n, buf + frames(ms).subrange(fed, fed + n), out),
{
    let a = frames(ms.take(out.len() as int)).len() as int;
    assert(buf + frames(ms).subrange(fed, fed + n) =~= frames(ms).subrange(a, fed + n));
}

/// ... what is in the buffer has arrived of the messages still to come ...
pub proof fn lemma_reading_arrived(ms: Seq<Seq<char>>, fed: int, buf: Seq<u8>, out: Seq<Seq<char>>)
    requires reading(ms, fed, buf, out),
    ensures arrived(buf, ms.skip(out.len() as int)),
{
    let k = out.len() as int;
    lemma_frames_split(ms, k);
    assert(buf =~= frames(ms.skip(k)).take(buf.len() as int));
}

/// ... decoding gives the next message or nothing, and nothing only if it has not arrived completely.
pub proof fn lemma_decode_step(ms: Seq<Seq<char>>, fed: int, buf: Seq<u8>, out: Seq<Seq<char>>, r: Result<Option<String>, AnyhowError>, buf1: Seq<u8>)
    requires reading(ms, fed, buf, out), decoded(buf, ms.skip(out.len() as int), r, buf1),
    ensures
        r is Ok,
        r->Ok_0 is Some ==> reading(ms, fed, buf1, out.push((r->Ok_0->0)@)),
        r->Ok_0 is None ==> reading(ms, fed, buf1, out),
        r->Ok_0 is None && fed == frames(ms).len() ==> out == ms && buf1.len() == 0,
{
    let k = out.len() as int;
    lemma_frames_split(ms, k);
    let rest = ms.skip(k);
    if k < ms.len() {
        assert(rest[0] == ms[k]);
        lemma_frames_split(ms, k + 1);
        assert(frames(rest) == frame(rest[0]) + frames(rest.skip(1)));
        assert(rest.skip(1) =~= ms.skip(k + 1));
        assert(frames(ms.take(k + 1)).len() == frames(ms.take(k)).len() + frame(ms[k]).len());
        if r->Ok_0 is Some {
            assert(out.push(ms[k]) =~= ms.take(k + 1));
            assert(buf1 =~= frames(ms).subrange(frames(ms.take(k + 1)).len() as int, fed));
        }
    } else {
        assert(out =~= ms);
        assert(rest.len() == 0);
        assert(frames(rest).len() == 0);
    }
}
