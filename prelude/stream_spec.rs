// What goes over a connection to a peer, in bytes: each message after its length.

#[verifier::external_body]
pub struct SyncMessage { x: u8 }
pub uninterp spec fn enc(m: SyncMessage) -> Seq<u8>;

pub open spec fn be_value(b: Seq<u8>) -> nat {
    (b[0] as nat) * 0x1000000 + (b[1] as nat) * 0x10000 + (b[2] as nat) * 0x100 + (b[3] as nat)
}
pub uninterp spec fn be(n: u32) -> Seq<u8>;

pub open spec fn frame(m: SyncMessage) -> Seq<u8> { be(enc(m).len() as u32) + enc(m) }
pub open spec fn frames(ms: Seq<SyncMessage>) -> Seq<u8>
    decreases ms.len(),
{
    if ms.len() == 0 { Seq::empty() } else { frames(ms.drop_last()) + frame(ms.last()) }
}
/// How much of a message that has been begun with these bytes is missing, at least.
pub open spec fn missing(b: Seq<u8>) -> int {
    if b.len() < 4 { 4 - b.len() } else { 4 + be_value(b) - b.len() }
}

/// `taken`, `passed`: the bytes that were read, and the messages that were handed on.
/// `got`, `written`: the messages that were handed over, and the bytes that were written.
/// `alien`: something came that is not a message, so the other side is none of ours.
/// `given_up`: something was dropped half way, so nothing more is known about how far it came.
pub struct VWorld {
    pub taken: Ghost<Seq<u8>>,
    pub passed: Ghost<Seq<SyncMessage>>,
    pub got: Ghost<Seq<SyncMessage>>,
    pub written: Ghost<Seq<u8>>,
    pub failed: Ghost<bool>,
    pub ended: Ghost<bool>,
    pub given_up: Ghost<bool>,
    pub alien: Ghost<bool>,
}
impl VWorld {
    /// What was read since the last message that was handed on.
    pub open spec fn begun(self) -> Seq<u8> { self.taken@.skip(frames(self.passed@).len() as int) }
    pub open spec fn working(self) -> bool { !self.failed@ && !self.given_up@ }
    pub open spec fn intact(self) -> bool { self.alien@ || (self.working() && frames(self.passed@).is_prefix_of(self.taken@)) }
    pub open spec fn received(self) -> bool { self.alien@ || (self.working() && self.taken@ =~= frames(self.passed@)) }
    pub open spec fn sent(self) -> bool { self.working() && self.written@ =~= frames(self.got@) }
    /// The connection or one of the channels is no longer there, or something came that is not a message.
    pub open spec fn over(self) -> bool { self.failed@ || self.alien@ || self.ended@ || self.too_long() }
    /// A message that does not fit in front of its length.
    pub open spec fn too_long(self) -> bool { self.got@.len() > 0 && enc(self.got@.last()).len() > u32::MAX }
}

#[verifier::external_body]
pub struct Stream { x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ReadHalf<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct WriteHalf<T> { x: core::marker::PhantomData<T> }

impl Stream {
    #[verifier::external_body]
    pub fn split(self) -> (ReadHalf<Stream>, WriteHalf<Stream>) { unimplemented!() }
}

/// Something that bytes are read into, or written from.
pub trait VBuffer: Sized { spec fn bytes(self) -> Seq<u8>; }
impl<const N: usize> VBuffer for [u8; N] { open spec fn bytes(self) -> Seq<u8> { self@ } }
impl VBuffer for Vec<u8> { open spec fn bytes(self) -> Seq<u8> { self@ } }

pub trait VToVec: VBuffer {
    fn vto_vec(&self) -> (r: Vec<u8>)
        ensures r@ == self.bytes();
}
impl<const N: usize> VToVec for [u8; N] {
    #[verifier::external_body]
    fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
}
impl VToVec for Vec<u8> {
    #[verifier::external_body]
    fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
}
pub trait VExtend {
    spec fn so_far(&self) -> Seq<u8>;
    fn vextend<B: VBuffer>(&mut self, b: &B)
        ensures final(self).so_far() == old(self).so_far() + b.bytes();
}
impl VExtend for Vec<u8> {
    open spec fn so_far(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vextend<B: VBuffer>(&mut self, b: &B) { unimplemented!() }
}

pub trait VRead: Sized {
    /// Fills the buffer, or fails. Never reads into the next message, nor before the last one was handed on.
    fn read_exact<B: VBuffer>(&mut self, b: &mut B, w: &mut VWorld) -> (r: Result<(), AnyhowError>)
        requires
            old(w).intact(), old(w).alien@ || old(b).bytes().len() <= missing(old(w).begun()),
        ensures
            final(b).bytes().len() == old(b).bytes().len(),
            r is Ok ==> final(w).taken@ == old(w).taken@ + final(b).bytes() && *final(w) == (VWorld { taken: final(w).taken, ..*old(w) }),
            r is Err ==> final(w).failed@;
}
pub trait VWrite: Sized {
    fn write_all<B: VBuffer>(&mut self, b: &B, w: &mut VWorld) -> (r: Result<(), AnyhowError>)
        requires
            old(w).working(),
        ensures
            r is Ok ==> final(w).written@ == old(w).written@ + b.bytes() && *final(w) == (VWorld { written: final(w).written, ..*old(w) }),
            r is Err ==> final(w).failed@;
    fn flush(&mut self, w: &mut VWorld) -> (r: Result<(), AnyhowError>)
        ensures
            r is Ok ==> *final(w) == *old(w),
            r is Err ==> final(w).failed@;
}
impl VRead for Stream {
    #[verifier::external_body]
    fn read_exact<B: VBuffer>(&mut self, b: &mut B, w: &mut VWorld) -> (r: Result<(), AnyhowError>) { unimplemented!() }
}
impl VRead for ReadHalf<Stream> {
    #[verifier::external_body]
    fn read_exact<B: VBuffer>(&mut self, b: &mut B, w: &mut VWorld) -> (r: Result<(), AnyhowError>) { unimplemented!() }
}
impl VWrite for Stream {
    #[verifier::external_body]
    fn write_all<B: VBuffer>(&mut self, b: &B, w: &mut VWorld) -> (r: Result<(), AnyhowError>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self, w: &mut VWorld) -> (r: Result<(), AnyhowError>) { unimplemented!() }
}
impl VWrite for WriteHalf<Stream> {
    #[verifier::external_body]
    fn write_all<B: VBuffer>(&mut self, b: &B, w: &mut VWorld) -> (r: Result<(), AnyhowError>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self, w: &mut VWorld) -> (r: Result<(), AnyhowError>) { unimplemented!() }
}

#[verifier::external_body]
pub fn from_be(b: [u8; 4]) -> (r: u32)
    ensures b@ == be(r), r as nat == be_value(b@), b@.len() == 4,
{ unimplemented!() }
pub trait VBigEndian: Sized {
    spec fn number(self) -> u32;
    fn vto_be(self) -> (r: [u8; 4])
        ensures r@ == be(self.number());
}
impl VBigEndian for u32 {
    open spec fn number(self) -> u32 { self }
    #[verifier::external_body]
    fn vto_be(self) -> (r: [u8; 4]) { unimplemented!() }
}

impl SyncMessage {
    #[verifier::external_body]
    pub fn encode(self) -> (r: Vec<u8>)
        ensures r@ == enc(self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn decode(b: &Vec<u8>, w: &mut VWorld) -> (r: Result<SyncMessage, AnyhowError>)
        ensures
            r is Ok ==> enc(r->Ok_0) == b@ && *final(w) == *old(w),
            r is Err ==> final(w).alien@,
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct MessageSender<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct MessageReceiver<T> { x: core::marker::PhantomData<T> }
impl MessageSender<SyncMessage> {
    /// Only what was read may be handed on, as a whole and in order.
    #[verifier::external_body]
    pub fn send(&self, m: SyncMessage, w: &mut VWorld) -> (r: Result<(), AnyhowError>)
        requires
            old(w).alien@ || (old(w).working() && old(w).taken@ =~= frames(old(w).passed@.push(m))),
        ensures
            r is Ok ==> final(w).passed@ == old(w).passed@.push(m) && *final(w) == (VWorld { passed: final(w).passed, ..*old(w) }),
            r is Err ==> final(w).failed@,
    { unimplemented!() }
}
impl MessageReceiver<SyncMessage> {
    /// Everything that was handed over before has to be written by then.
    #[verifier::external_body]
    pub fn recv(&mut self, w: &mut VWorld) -> (r: Option<SyncMessage>)
        requires old(w).sent(),
        ensures
            match r {
                Some(m) => final(w).got@ == old(w).got@.push(m) && *final(w) == (VWorld { got: final(w).got, ..*old(w) }),
                None => final(w).ended@ && *final(w) == (VWorld { ended: final(w).ended, ..*old(w) }),
            },
    { unimplemented!() }
}

#[verifier::external_body]
pub fn vselect() -> bool { unimplemented!() }

/// Something that was not finished is dropped.
#[verifier::external_body]
pub fn vabandon(w: &mut VWorld)
    ensures final(w).given_up@, old(w).over() ==> final(w).over(),
{ unimplemented!() }

pub proof fn lemma_frames_push(ms: Seq<SyncMessage>, m: SyncMessage)
    ensures frames(ms.push(m)) == frames(ms) + frame(m),
{
    assert(ms.push(m).drop_last() =~= ms);
}
pub mod streamlem {
    pub use super::lemma_frames_push_b;
}
pub broadcast proof fn lemma_frames_push_b(ms: Seq<SyncMessage>, m: SyncMessage)
    ensures #[trigger] frames(ms.push(m)) == frames(ms) + frame(m),
{
    lemma_frames_push(ms, m);
}

pub struct P2PActor {}

#[verifier::external_body]
pub fn vvec_repeat(b: u8, n: usize) -> (r: Vec<u8>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == b,
{ unimplemented!() }

impl VTryInto<u32> for usize {
    open spec fn vtry_into_req(self) -> bool { true }
    open spec fn vtry_into_ens(self, r: Result<u32, AnyhowError>) -> bool {
        if self <= u32::MAX { r is Ok && r->Ok_0 == self } else { r is Err }
    }
    #[verifier::external_body]
    fn vtry_into(self) -> (r: Result<u32, AnyhowError>) { unimplemented!() }
}

// ---- what one side has handed on is what the other side was given
#[verifier::external_body]
pub proof fn axiom_be(n: u32)
    ensures be(n).len() == 4, be_value(be(n)) == n,
{ }

pub open spec fn fits(ms: Seq<SyncMessage>) -> bool { forall|i: int| 0 <= i < ms.len() ==> enc(#[trigger] ms[i]).len() <= u32::MAX }

proof fn lemma_frames_front(ms: Seq<SyncMessage>)
    requires ms.len() > 0,
    ensures frames(ms) == frame(ms[0]) + frames(ms.skip(1)),
    decreases ms.len(),
{
    if ms.len() == 1 {
        assert(ms.drop_last() =~= Seq::empty());
        assert(ms.skip(1) =~= Seq::empty());
        assert(frames(ms) =~= frame(ms[0]) + frames(ms.skip(1)));
    } else {
        lemma_frames_front(ms.drop_last());
        assert(ms.drop_last().skip(1) =~= ms.skip(1).drop_last());
        assert(ms.skip(1).last() == ms.last());
        assert(frames(ms) =~= frame(ms[0]) + frames(ms.skip(1)));
    }
}

/// If the bytes one side has read are the first ones the other side has written, then the messages that were
/// handed on are the first ones that were handed over, each complete and in order.
pub proof fn lemma_arrives(passed: Seq<SyncMessage>, got: Seq<SyncMessage>)
    requires fits(passed), fits(got), frames(passed).is_prefix_of(frames(got)),
    ensures passed.len() <= got.len(), forall|i: int| 0 <= i < passed.len() ==> enc(#[trigger] passed[i]) == enc(got[i]),
    decreases passed.len(),
{
    if passed.len() > 0 {
        lemma_frames_front(passed);
        axiom_be(enc(passed[0]).len() as u32);
        assert(frames(passed).len() >= 4);
        assert(got.len() > 0);
        lemma_frames_front(got);
        axiom_be(enc(got[0]).len() as u32);
        let (fp, fg) = (frames(passed), frames(got));
        let (p, g) = (enc(passed[0]), enc(got[0]));
        assert forall|i: int| 0 <= i < fp.len() implies fp[i] == fg[i] by {
            assert(fp == fg.subrange(0, fp.len() as int));
        }
        assert(be(p.len() as u32) =~= be(g.len() as u32)) by {
            assert(fp.take(4) =~= be(p.len() as u32));
            assert(fg.take(4) =~= be(g.len() as u32));
            assert(fp.take(4) =~= fg.take(4));
        }
        assert(p.len() == g.len());
        assert(p =~= g) by {
            assert forall|i: int| 0 <= i < p.len() implies p[i] == g[i] by {
                assert(fp[4 + i] == p[i]);
                assert(fg[4 + i] == g[i]);
            }
        }
        let (ps, gs) = (passed.skip(1), got.skip(1));
        let n = frame(passed[0]).len() as int;
        assert(frames(ps) =~= fp.skip(n));
        assert(frames(gs) =~= fg.skip(n));
        assert(frames(ps).is_prefix_of(frames(gs))) by {
            assert(frames(ps) =~= frames(gs).subrange(0, frames(ps).len() as int));
        }
        assert(fits(ps)) by { assert forall|i: int| 0 <= i < ps.len() implies enc(#[trigger] ps[i]).len() <= u32::MAX by { assert(ps[i] == passed[i + 1]); } }
        assert(fits(gs)) by { assert forall|i: int| 0 <= i < gs.len() implies enc(#[trigger] gs[i]).len() <= u32::MAX by { assert(gs[i] == got[i + 1]); } }
        lemma_arrives(ps, gs);
        assert forall|i: int| 0 <= i < passed.len() implies enc(#[trigger] passed[i]) == enc(got[i]) by {
            if i > 0 {
                assert(passed[i] == ps[i - 1]);
                assert(got[i] == gs[i - 1]);
            }
        }
    }
}
