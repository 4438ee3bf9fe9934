// How the daemon's tasks hand messages to the document's task.

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OneshotSender<T> { x: std::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OneshotReceiver<T> { x: std::marker::PhantomData<T> }
#[verifier::external_body]
pub struct AutomergeSyncMessage { x: u8 }
#[verifier::external_body]
pub struct SyncState { x: u8 }
impl<T> OneshotSender<T> { pub uninterp spec fn answer(self) -> T; }
impl<T> OneshotReceiver<T> { pub uninterp spec fn answer(self) -> T; }
#[verifier::external_body]
pub fn oneshot_channel<T>() -> (r: (OneshotSender<T>, OneshotReceiver<T>))
    ensures r.0.answer() == r.1.answer(),
{ unimplemented!() }
/// Waiting for the answer.
impl<T> VExpect<T> for OneshotReceiver<T> {
    open spec fn exp(self) -> Option<T> { Some(self.answer()) }
    #[verifier::external_body]
    fn vexpect(self) -> (r: T) { unimplemented!() }
    #[verifier::external_body]
    fn vunwrap(self) -> (r: T) { unimplemented!() }
}
impl<T> VContext<T> for OneshotReceiver<T> {
    uninterp spec fn ctx_ok(self) -> Option<T>;
    #[verifier::external_body]
    fn vcontext(self) -> (r: Result<T, AnyhowError>)
        ensures r is Ok ==> r->Ok_0 == self.answer(),
    { unimplemented!() }
}
pub uninterp spec fn fresh_state() -> SyncState;
impl SyncState {
    #[verifier::external_body]
    pub fn new() -> (r: SyncState) ensures r == fresh_state() { unimplemented!() }
}
#[verifier::external_body]
pub fn mem_take(s: &mut SyncState) -> (r: SyncState)
    ensures r == *old(s), *final(s) == fresh_state(),
{ unimplemented!() }
#[verifier::external_body]
pub struct UnixStream { x: u8 }
#[verifier::external_body]
pub struct SocketAddr { x: u8 }
#[verifier::external_body]
pub struct ReadHalf { x: u8 }
#[verifier::external_body]
pub struct WriteHalf { x: u8 }
#[verifier::external_body]
pub struct LinesCodec { x: u8 }
pub struct EditorProtocolCodec;

/// The lines an editor sends over its connection, until it ends or cannot be read any more.
pub uninterp spec fn lines(connection: int) -> Seq<Seq<char>>;

impl UnixStream { pub uninterp spec fn id(self) -> int; }
impl ReadHalf { pub uninterp spec fn id(self) -> int; }
impl WriteHalf { pub uninterp spec fn id(self) -> int; }

#[verifier::external_body]
pub fn split(s: UnixStream) -> (r: (ReadHalf, WriteHalf))
    ensures r.0.id() == s.id(), r.1.id() == s.id(),
{ unimplemented!() }

impl LinesCodec {
    #[verifier::external_body]
    pub fn new() -> LinesCodec { unimplemented!() }
}

#[verifier::external_body]
pub struct EditorWriter { x: u8 }
#[verifier::external_body]
pub struct LinesError { x: u8 }

impl EditorWriter { pub uninterp spec fn id(self) -> int; }

/// `FramedWrite::new`
#[verifier::external_body]
pub fn framed_write(s: WriteHalf, c: EditorProtocolCodec) -> (r: EditorWriter)
    ensures r.id() == s.id(),
{ unimplemented!() }

#[verifier::external_body]
pub struct UnixListener { x: u8 }
impl UnixListener {
    #[verifier::external_body]
    pub fn bind<P: VAsPath>(p: P) -> (r: Result<UnixListener, IoError>)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn accept(&self) -> (r: Result<(UnixStream, SocketAddr), IoError>)
    { unimplemented!() }
}

// ---- events of the watcher, see the unit `watch`
pub enum Seen { Created(Seq<char>), Removed(Seq<char>), Changed(Seq<char>) }
pub open spec fn seen(e: WatcherEvent) -> Seen {
    match e {
        WatcherEvent::Created { file_path } => Seen::Created(file_path@),
        WatcherEvent::Removed { file_path } => Seen::Removed(file_path@),
        WatcherEvent::Changed { file_path } => Seen::Changed(file_path@),
    }
}
/// Everything that will be noticed below a directory.
pub uninterp spec fn noticed(dir: Seq<char>) -> Seq<Seen>;
