/// A message to the document's task.
pub enum Msg {
    New(int, int),
    Line(int, Seq<char>),
    Close(int),
    Event(Seen),
    Persist,
    Sync(AutomergeSyncMessage, SyncState, SyncState),
    AskSync(SyncState, (SyncState, Option<AutomergeSyncMessage>)),
    Other,
}

pub open spec fn msg(m: DocMessage) -> Msg {
    match m {
        DocMessage::NewEditorConnection(id, w) => Msg::New(id as int, w.id()),
        DocMessage::FromEditor(id, t) => Msg::Line(id as int, t@),
        DocMessage::CloseEditorConnection(id) => Msg::Close(id as int),
        DocMessage::FromWatcher(e) => Msg::Event(seen(e)),
        DocMessage::Persist => Msg::Persist,
        DocMessage::ReceiveSyncMessage { message, state, response_tx } => Msg::Sync(message, state, response_tx.answer()),
        DocMessage::GenerateSyncMessage { state, response_tx } => Msg::AskSync(state, response_tx.answer()),
        _ => Msg::Other,
    }
}

/// `sent`: what the task has sent to the document's task. `handled`: what that task has dealt with.
/// `next`: the number the counter for editors will give next. `serving`: the numbers in use so far.
/// `heard`: the lines read from the connection `hearing`. `noted`: the watcher's events taken so far.
/// `taken`: the peer's messages taken from the connection. `passed`: those handed to the document.
/// `replies`: the messages given to the connection.
/// `pings`: how often the task was told that the document changed.
pub struct VWorld {
    pub sent: Ghost<Seq<Msg>>,
    pub handled: Ghost<Seq<Msg>>,
    pub next: Ghost<int>,
    pub serving: Ghost<Set<int>>,
    pub hearing: Ghost<int>,
    pub heard: Ghost<Seq<Seq<char>>>,
    pub watching: Ghost<Seq<char>>,
    pub noted: Ghost<Seq<Seen>>,
    pub taken: Ghost<Seq<AutomergeSyncMessage>>,
    pub passed: Ghost<Seq<AutomergeSyncMessage>>,
    pub replies: Ghost<Seq<AutomergeSyncMessage>>,
    pub pings: Ghost<nat>,
}

impl VWorld {
    pub open spec fn but_sent(self, o: VWorld, m: Msg) -> bool {
        &&& self.sent@ == o.sent@.push(m)
        &&& self.serving@ == (match m { Msg::New(id, _) => o.serving@.insert(id), _ => o.serving@ })
        &&& self.passed@ == (match m { Msg::Sync(x, _, _) => o.passed@.push(x), _ => o.passed@ })
        &&& self == (VWorld { sent: self.sent, serving: self.serving, passed: self.passed, ..o })
    }
    /// No number that was handed out will be handed out again.
    pub open spec fn apart(self) -> bool { forall|i: int| #[trigger] self.serving@.contains(i) ==> i < self.next@ }
}

#[verifier::external_body]
pub struct FramedRead { x: u8 }
impl FramedRead {
    #[verifier::external_body]
    pub fn new(s: ReadHalf, c: LinesCodec, w: &mut VWorld) -> (r: FramedRead)
        ensures
            final(w).hearing@ == s.id(), final(w).heard@ == Seq::<Seq<char>>::empty(),
            *final(w) == (VWorld { hearing: final(w).hearing, heard: final(w).heard, ..*old(w) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self, w: &mut VWorld) -> (r: Option<Result<String, LinesError>>)
        ensures
            r is Some && r->0 is Ok ==> final(w).heard@ == old(w).heard@.push((r->0->Ok_0)@) && *final(w) == (VWorld { heard: final(w).heard, ..*old(w) }),
            !(r is Some && r->0 is Ok) ==> *final(w) == *old(w) && old(w).heard@ == lines(old(w).hearing@),
    { unimplemented!() }
}

#[verifier::external_body]
pub struct Watcher { x: u8 }
impl Watcher {
    #[verifier::external_body]
    pub fn new(dir: &PathBuf, w: &mut VWorld) -> (r: Watcher)
        ensures
            final(w).watching@ == dir@, final(w).noted@ == Seq::<Seen>::empty(),
            *final(w) == (VWorld { watching: final(w).watching, noted: final(w).noted, ..*old(w) }),
    { unimplemented!() }
    /// As proved in `watch`.
    #[verifier::external_body]
    pub fn next(&mut self, w: &mut VWorld) -> (r: Option<WatcherEvent>)
        ensures
            r is Some, final(w).noted@ == old(w).noted@.push(seen(r->0)),
            *final(w) == (VWorld { noted: final(w).noted, ..*old(w) }),
    { unimplemented!() }
}

pub open spec fn from_lines(id: int, l: Seq<Seq<char>>) -> Seq<Msg> { l.map_values(|t: Seq<char>| Msg::Line(id, t)) }

/// What the task of one connection has to send, all in all.
pub open spec fn service(id: int, connection: int) -> Seq<Msg> {
    seq![Msg::New(id, connection)] + from_lines(id, lines(connection)) + seq![Msg::Close(id)]
}

pub open spec fn events(s: Seq<Seen>) -> Seq<Msg> { s.map_values(|e: Seen| Msg::Event(e)) }

#[verifier::external_body]
pub struct MsgSender { x: u8 }
impl MsgSender {
    #[verifier::external_body]
    pub fn send(&self, m: DocMessage, w: &mut VWorld) -> (r: Result<(), AnyhowError>)
        ensures final(w).but_sent(*old(w), msg(m)),
    { unimplemented!() }
}
impl Clone for MsgSender {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

pub mod broadcast {
    pub mod error {
        use vstd::prelude::*;
        pub enum RecvError { Closed, Lagged(u64) }
    }
}
#[verifier::external_body]
pub struct Pings { x: u8 }
impl Pings {
    /// Missed pings count as one.
    #[verifier::external_body]
    pub fn recv(&mut self, w: &mut VWorld) -> (r: Result<(), broadcast::error::RecvError>)
        ensures
            *final(w) == (VWorld { pings: final(w).pings, ..*old(w) }),
            final(w).pings@ == old(w).pings@ + 1,
    { unimplemented!() }
}
#[verifier::external_body]
pub struct PingSender { x: u8 }
impl PingSender {
    #[verifier::external_body]
    pub fn subscribe(&self) -> Pings { unimplemented!() }
}
impl Clone for PingSender {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

/// The channels between the task that talks to a peer and the connection.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct PeerReceiver<T> { x: std::marker::PhantomData<T> }
impl PeerReceiver<AutomergeSyncMessage> {
    #[verifier::external_body]
    pub fn recv(&mut self, w: &mut VWorld) -> (r: Option<AutomergeSyncMessage>)
        ensures
            r is Some ==> final(w).taken@ == old(w).taken@.push(r->0) && *final(w) == (VWorld { taken: final(w).taken, ..*old(w) }),
            r is None ==> *final(w) == *old(w),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct PeerSender<T> { x: std::marker::PhantomData<T> }
impl PeerSender<AutomergeSyncMessage> {
    #[verifier::external_body]
    pub fn send(&self, m: AutomergeSyncMessage, w: &mut VWorld) -> (r: Result<(), AnyhowError>)
        ensures
            r is Ok ==> final(w).replies@ == old(w).replies@.push(m) && *final(w) == (VWorld { replies: final(w).replies, ..*old(w) }),
            r is Err ==> *final(w) == *old(w),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vselect() -> bool { unimplemented!() }

/// An `Arc` stands for what it holds.
pub type Shared<T> = T;
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[verifier::external_body]
pub struct AtomicUsize { x: u8 }
impl AtomicUsize {
    /// Assumption: fewer than 2^64 connections.
    #[verifier::external_body]
    pub fn fetch_add(&self, n: usize, o: Ordering, w: &mut VWorld) -> (r: usize)
        ensures
            r == old(w).next@, final(w).next@ == old(w).next@ + n,
            *final(w) == (VWorld { next: final(w).next, ..*old(w) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, w: &mut VWorld) -> (r: usize)
        ensures r == old(w).next@, *final(w) == *old(w),
    { unimplemented!() }
}
impl Clone for AtomicUsize {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub struct Duration { x: u8 }
impl Duration {
    #[verifier::external_body]
    pub fn from_secs(n: u64) -> Duration { unimplemented!() }
}
#[verifier::external_body]
pub fn vsleep(d: Duration) { unimplemented!() }

/// The document's task, as far as its mailbox is concerned.
#[verifier::external_body]
pub struct MpscReceiver { x: u8 }
impl MpscReceiver {
    pub uninterp spec fn coming(self) -> Seq<Msg>;
    #[verifier::external_body]
    pub fn recv(&mut self, w: &mut VWorld) -> (r: Option<DocMessage>)
        ensures
            *final(w) == *old(w),
            old(self).coming().len() == 0 ==> r is None && final(self).coming() == old(self).coming(),
            old(self).coming().len() > 0 ==> r is Some && msg(r->0) == old(self).coming()[0] && final(self).coming() == old(self).coming().skip(1),
    { unimplemented!() }
}
pub struct DocumentActor { pub doc_message_rx: MpscReceiver }
impl DocumentActor {
    /// What handling does is proved in `daemon`; here it is only counted.
    #[verifier::external_body]
    pub fn handle_message(&mut self, m: DocMessage, w: &mut VWorld)
        ensures
            final(self).doc_message_rx == old(self).doc_message_rx,
            final(w).handled@ == old(w).handled@.push(msg(m)),
            *final(w) == (VWorld { handled: final(w).handled, ..*old(w) }),
    { unimplemented!() }
}

pub mod wirelem {
    use super::*;
    pub broadcast proof fn lemma_line(id: int, l: Seq<Seq<char>>, t: Seq<char>)
        ensures #[trigger] from_lines(id, l.push(t)) == from_lines(id, l).push(Msg::Line(id, t)),
    {
        assert(from_lines(id, l.push(t)) =~= from_lines(id, l).push(Msg::Line(id, t)));
    }
    pub broadcast proof fn lemma_event(l: Seq<Seen>, t: Seen)
        ensures #[trigger] events(l.push(t)) == events(l).push(Msg::Event(t)),
    {
        assert(events(l.push(t)) =~= events(l).push(Msg::Event(t)));
    }
    pub broadcast proof fn lemma_no_lines(id: int)
        ensures #[trigger] from_lines(id, Seq::<Seq<char>>::empty()) == Seq::<Msg>::empty(),
    {
        assert(from_lines(id, Seq::<Seq<char>>::empty()) =~= Seq::<Msg>::empty());
    }
    pub broadcast proof fn lemma_no_events(l: Seq<Seen>)
        requires l.len() == 0,
        ensures #[trigger] events(l) == Seq::<Msg>::empty(),
    {
        assert(events(l) =~= Seq::<Msg>::empty());
    }
    /// Pushing onto the second of two.
    pub broadcast proof fn lemma_push_add(a: Seq<Msg>, b: Seq<Msg>, m: Msg)
        ensures #[trigger] (a + b).push(m) == a + b.push(m),
    {
        assert((a + b).push(m) =~= a + b.push(m));
    }
    pub broadcast proof fn lemma_add_one(a: Seq<Msg>, m: Msg)
        ensures #[trigger] (a + seq![m]) == a.push(m),
    {
        assert(a + seq![m] =~= a.push(m));
    }
    pub broadcast proof fn lemma_add_none(a: Seq<Msg>)
        ensures #[trigger] (a + Seq::<Msg>::empty()) == a,
    {
        assert(a + Seq::<Msg>::empty() =~= a);
    }
    pub broadcast group group_wire { lemma_line, lemma_event, lemma_no_lines, lemma_no_events, lemma_push_add, lemma_add_one, lemma_add_none }
}
