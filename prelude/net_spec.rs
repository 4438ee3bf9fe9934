// What the daemon sets up towards its peers: where it listens, whom it calls, and the key the traffic is
// locked with.

pub open spec fn net_text(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }

pub struct Wanted { pub port: Option<u16>, pub peer: Option<Seq<char>>, pub secret: Option<Seq<char>> }

pub open spec fn wanted(i: PeerConnectionInfo) -> Wanted {
    Wanted { port: i.port, peer: net_text(i.peer), secret: net_text(i.passphrase) }
}

/// `want`: the settings this was started with; `key`: the key pair of this daemon; `built`: the identity
/// and the key the connection was made with; `channels`: how many there are; `syncing`: the document and the
/// channels of the tasks that keep in sync with a peer; `handled`: the streams, with the channels they serve.
pub struct VWorld {
    pub want: Ghost<Wanted>,
    pub key: Ghost<Option<Keypair>>,
    pub listens: Ghost<Seq<Seq<char>>>,
    pub dials: Ghost<Seq<Seq<char>>>,
    pub built: Ghost<Option<(Keypair, Option<Seq<u8>>)>>,
    pub channels: Ghost<nat>,
    pub syncing: Ghost<Seq<(DocumentActorHandle, nat, nat)>>,
    pub handled: Ghost<Seq<(Stream, nat, nat)>>,
}

impl VWorld {
    pub open spec fn fresh(self) -> bool {
        self.key@ is None && self.built@ is None && self.listens@.len() == 0 && self.dials@.len() == 0
    }
    /// Made with this daemon's key pair and the key that comes of the secret, listening on the port that was asked for, or on any (0), and calling exactly the peer that was named.
    pub open spec fn set_up(self) -> bool {
        &&& self.listens@ =~= seq![listen_text(self.want@.port)]
        &&& self.key@ is Some && self.built@ == Some((self.key@->0, Some(key_of(secret_text(self.want@.secret)))))
        &&& self.dials@ =~= (match self.want@.peer { Some(p) => seq![p], None => seq![] })
    }
}

pub open spec fn listen_text(port: Option<u16>) -> Seq<char> {
    "/ip4/0.0.0.0/tcp/"@ + decimal(match port { Some(p) => p as int, None => 0 })
}

/// The secret that is used if none is given: the one the program names as its default.
pub open spec fn secret_text(s: Option<Seq<char>>) -> Seq<char> {
    match s { Some(s) => s, None => DEFAULT_PASSPHRASE@ }
}

impl VDisplay for u16 {
    open spec fn vshown(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body]
    fn vshow(&self) -> (r: String) { self.to_string() }
}

// ---- pbkdf2
pub uninterp spec fn stretched(pass: Seq<u8>, salt: Seq<u8>, rounds: u32, len: nat) -> Seq<u8>;
#[verifier::external_body]
pub struct Sha256 { x: u8 }
#[verifier::external_body]
pub fn pbkdf2_hmac<H>(pass: &[u8], salt: &[u8], rounds: u32, out: &mut [u8; 32])
    ensures final(out)@ == stretched(pass@, salt@, rounds, 32),
{ unimplemented!() }
pub open spec fn key_of(secret: Seq<char>) -> Seq<u8> { stretched(utf8(secret), ascii_bytes("ethersync"@), 1000, 32) }

// ---- the transport: everything that is made from a pre-shared key keeps it
#[verifier::external_body]
pub struct Keypair { x: u8 }
#[verifier::external_body]
pub struct TcpConfig { x: u8 }
impl TcpConfig {
    #[verifier::external_body]
    pub fn new() -> TcpConfig { unimplemented!() }
    #[verifier::external_body]
    pub fn nodelay(self, b: bool) -> TcpConfig { unimplemented!() }
}
#[verifier::external_body]
pub struct TcpTransport { x: u8 }
#[verifier::external_body]
pub struct TcpSocket { x: u8 }
impl TcpTransport {
    #[verifier::external_body]
    pub fn new(c: TcpConfig) -> TcpTransport { unimplemented!() }
    #[verifier::external_body]
    pub fn and_then_args(&self) -> (TcpSocket, ConnectedPoint) { unimplemented!() }
    pub fn and_then(self, h: Handshake) -> (r: Locked)
        ensures r.key@ == h.key@,
    { Locked { key: h.key } }
}
pub struct PreSharedKey { pub key: Ghost<Seq<u8>> }
impl Clone for PreSharedKey {
    fn clone(&self) -> (r: Self) ensures r == *self { PreSharedKey { key: self.key } }
}
impl Copy for PreSharedKey {}
impl PreSharedKey {
    pub fn new(b: [u8; 32]) -> (r: PreSharedKey)
        ensures r.key@ == b@,
    { PreSharedKey { key: Ghost(b@) } }
}
pub struct PnetConfig { pub key: Ghost<Seq<u8>> }
pub struct Handshake { pub key: Ghost<Seq<u8>> }
pub struct Locked { pub key: Ghost<Seq<u8>> }
impl PnetConfig {
    pub fn new(k: PreSharedKey) -> (r: PnetConfig)
        ensures r.key@ == k.key@,
    { PnetConfig { key: k.key } }
    pub fn handshake(self, s: TcpSocket) -> (r: Handshake)
        ensures r.key@ == self.key@,
    { Handshake { key: self.key } }
}
pub enum Version { V1, V1Lazy }
impl Locked {
    pub fn upgrade(self, v: Version) -> (r: Locked) ensures r == self { self }
    pub fn authenticate(self, a: NoiseConfig) -> (r: Locked) ensures r == self { self }
    pub fn multiplex(self, m: YamuxConfig) -> (r: Locked) ensures r == self { self }
    pub fn boxed(self) -> (r: Locked) ensures r == self { self }
}
#[verifier::external_body]
pub struct NoiseConfig { x: u8 }
impl NoiseConfig {
    #[verifier::external_body]
    pub fn new(k: &Keypair) -> Result<NoiseConfig, AnyhowError> { unimplemented!() }
}
#[verifier::external_body]
pub struct YamuxConfig { x: u8 }
#[verifier::external_body]
pub fn yamux_config() -> YamuxConfig { unimplemented!() }

// ---- the swarm
pub struct SwarmBuilder { pub id: Ghost<Keypair>, pub key: Ghost<Option<Seq<u8>>> }
#[verifier::external_body]
pub struct Behaviour { x: u8 }
impl Behaviour {
    #[verifier::external_body]
    pub fn new() -> Behaviour { unimplemented!() }
    #[verifier::external_body]
    pub fn new_control(&self) -> Control { unimplemented!() }
}
#[verifier::external_body]
pub struct SwarmConfig { x: u8 }
impl SwarmConfig {
    #[verifier::external_body]
    pub fn with_idle_connection_timeout(self, d: Duration) -> SwarmConfig { unimplemented!() }
}
#[verifier::external_body]
pub struct Duration { x: u8 }
impl Duration {
    #[verifier::external_body]
    pub fn from_secs(s: u64) -> Duration { unimplemented!() }
    #[verifier::external_body]
    pub fn from_millis(s: u64) -> Duration { unimplemented!() }
}
impl SwarmBuilder {
    pub fn with_existing_identity(k: Keypair) -> (r: SwarmBuilder)
        ensures r.id@ == k, r.key@ is None,
    { SwarmBuilder { id: Ghost(k), key: Ghost(None) } }
    pub fn with_tokio(self) -> (r: SwarmBuilder) ensures r == self { self }
    #[verifier::external_body]
    pub fn with_other_transport_args(&self) -> &Keypair { unimplemented!() }
    pub fn with_other_transport(self, t: Result<Locked, AnyhowError>) -> (r: Result<SwarmBuilder, AnyhowError>)
        ensures r is Ok ==> t is Ok && (r->Ok_0).id == self.id && (r->Ok_0).key@ == Some((t->Ok_0).key@),
    {
        match t { Ok(t) => Ok(SwarmBuilder { id: self.id, key: Ghost(Some(t.key@)) }), Err(e) => Err(e) }
    }
    #[verifier::external_body]
    pub fn with_behaviour_args(&self) -> &Keypair { unimplemented!() }
    #[verifier::external_body]
    pub fn with_behaviour(self, b: Behaviour) -> (r: Result<SwarmBuilder, AnyhowError>)
        ensures r is Ok ==> r->Ok_0 == self,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_swarm_config_args(&self) -> SwarmConfig { unimplemented!() }
    pub fn with_swarm_config(self, c: SwarmConfig) -> (r: SwarmBuilder) ensures r == self { self }
    #[verifier::external_body]
    pub fn build(self, w: &mut VWorld) -> (r: Swarm)
        ensures final(w).built@ == Some((self.id@, self.key@)), *final(w) == (VWorld { built: final(w).built, ..*old(w) }),
    { unimplemented!() }
}

pub struct Multiaddr { pub text: Ghost<Seq<char>> }
pub struct PeerId { pub x: u8 }
impl Clone for PeerId {
    fn clone(&self) -> (r: Self) ensures r == *self { PeerId { x: self.x } }
}
impl Copy for PeerId {}
#[verifier::external_body]
pub struct Ipv4Addr { x: u8 }
impl Ipv4Addr {
    #[verifier::external_body]
    pub fn new(a: u8, b: u8, c: u8, d: u8) -> Ipv4Addr { unimplemented!() }
}
pub enum Protocol { Ip4(Ipv4Addr), Tcp(u16), Other }
impl VEq<Protocol> for Protocol {
    uninterp spec fn eq_to(&self, b: &Protocol) -> bool;
    #[verifier::external_body]
    fn veq_(&self, b: &Protocol) -> (r: bool) { unimplemented!() }
}
impl Multiaddr {
    #[verifier::external_body]
    pub fn with_p2p(self, p: PeerId) -> Result<Multiaddr, Multiaddr> { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> Vec<Protocol> { unimplemented!() }
}

/// `.parse()` of an address: what comes out is what the text says.
pub trait VFromText: Sized { spec fn said(self) -> Seq<char>; }
impl VFromText for Multiaddr { open spec fn said(self) -> Seq<char> { self.text@ } }
pub trait VAddress {
    spec fn atext(&self) -> Seq<char>;
    fn vparse<T: VFromText>(&self) -> (r: Result<T, AnyhowError>)
        ensures r is Ok ==> (r->Ok_0).said() == self.atext();
}
impl VAddress for String {
    open spec fn atext(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vparse<T: VFromText>(&self) -> (r: Result<T, AnyhowError>) { unimplemented!() }
}
impl VAddress for str {
    open spec fn atext(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vparse<T: VFromText>(&self) -> (r: Result<T, AnyhowError>) { unimplemented!() }
}

pub enum ConnectedPoint { Dialer { x: u8 }, Listener { x: u8 } }
#[verifier::external_body]
pub struct NetError { x: u8 }
pub enum SwarmEvent {
    NewListenAddr { address: Multiaddr, x: u8 },
    ConnectionEstablished { peer_id: PeerId, endpoint: ConnectedPoint, x: u8 },
    ConnectionClosed { peer_id: PeerId, x: u8 },
    OutgoingConnectionError { error: NetError, x: u8 },
    IncomingConnectionError { error: NetError, x: u8 },
    Other,
}

#[verifier::external_body]
pub struct Swarm { x: u8 }
impl Swarm {
    #[verifier::external_body]
    pub fn listen_on(&mut self, a: Multiaddr, w: &mut VWorld) -> (r: Result<(), AnyhowError>)
        ensures
            r is Ok ==> final(w).listens@ == old(w).listens@.push(a.text@) && *final(w) == (VWorld { listens: final(w).listens, ..*old(w) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn dial(&mut self, a: Multiaddr, w: &mut VWorld) -> (r: Result<(), AnyhowError>)
        ensures
            r is Ok ==> final(w).dials@ == old(w).dials@.push(a.text@) && *final(w) == (VWorld { dials: final(w).dials, ..*old(w) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn local_peer_id(&self) -> (r: &PeerId) { unimplemented!() }
    #[verifier::external_body]
    pub fn behaviour(&self) -> (r: Behaviour) { unimplemented!() }
    /// Nothing happens towards peers before this is asked for: by then, everything has to be as the
    /// settings say.
    #[verifier::external_body]
    pub fn next(&mut self, w: &mut VWorld) -> (r: Option<SwarmEvent>)
        requires old(w).set_up(),
        ensures *final(w) == *old(w),
    { unimplemented!() }
}

#[verifier::external_body]
pub struct StreamProtocol { x: u8 }
#[verifier::external_body]
pub const fn ethersync_protocol() -> StreamProtocol { unimplemented!() }
#[verifier::external_body]
pub struct Stream { x: u8 }
#[verifier::external_body]
pub struct Control { x: u8 }
#[verifier::external_body]
pub struct IncomingStreams { x: u8 }
impl Control {
    #[verifier::external_body]
    pub fn accept(&mut self, p: StreamProtocol) -> Result<IncomingStreams, AnyhowError> { unimplemented!() }
    #[verifier::external_body]
    pub fn open_stream(&mut self, p: PeerId, q: StreamProtocol) -> Result<Stream, AnyhowError> { unimplemented!() }
}
impl IncomingStreams {
    #[verifier::external_body]
    pub fn next(&mut self, w: &mut VWorld) -> (r: Option<(PeerId, Stream)>)
        ensures *final(w) == *old(w),
    { unimplemented!() }
}

#[verifier::external_body]
pub struct DocumentActorHandle { x: u8 }

impl P2PActor {
    /// Proved in `perm`.
    #[verifier::external_body]
    pub fn get_keypair(&self, w: &mut VWorld) -> (r: Keypair)
        ensures final(w).key@ == Some(r), *final(w) == (VWorld { key: final(w).key, ..*old(w) }),
    { unimplemented!() }
    /// Proved in `stream`.
    #[verifier::external_body]
    pub fn protocol_handler(stream: Stream, to_syncer: ChannelSender<SyncMessage>, from_syncer: ChannelReceiver<SyncMessage>, w: &mut VWorld) -> (r: Result<(), AnyhowError>)
        ensures
            final(w).handled@ == old(w).handled@.push((stream, to_syncer.id@, from_syncer.id@)),
            *final(w) == (VWorld { handled: final(w).handled, ..*old(w) }),
    { unimplemented!() }
}

// ---- what is started for a connection: a task that keeps in sync, and one that moves its messages
#[verifier::external_body]
pub struct SyncMessage { x: u8 }
#[verifier::reject_recursive_types(T)]
pub struct ChannelSender<T> { pub id: Ghost<nat>, pub x: core::marker::PhantomData<T> }
#[verifier::reject_recursive_types(T)]
pub struct ChannelReceiver<T> { pub id: Ghost<nat>, pub x: core::marker::PhantomData<T> }
#[verifier::external_body]
pub fn mpsc_channel<T>(n: usize, w: &mut VWorld) -> (r: (ChannelSender<T>, ChannelReceiver<T>))
    requires n > 0,
    ensures
        r.0.id@ == old(w).channels@, r.1.id@ == old(w).channels@,
        final(w).channels@ == old(w).channels@ + 1, *final(w) == (VWorld { channels: final(w).channels, ..*old(w) }),
{ unimplemented!() }
impl DocumentActorHandle {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: DocumentActorHandle) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct SyncState { x: u8 }
impl SyncState {
    #[verifier::external_body]
    pub fn new() -> SyncState { unimplemented!() }
}
impl SyncActor {
    #[verifier::external_body]
    pub fn run(self, w: &mut VWorld) -> (r: Result<(), AnyhowError>)
        ensures
            final(w).syncing@ == old(w).syncing@.push((self.document_handle, self.syncer_receiver.id@, self.syncer_sender.id@)),
            *final(w) == (VWorld { syncing: final(w).syncing, ..*old(w) }),
    { unimplemented!() }
}
pub trait VTask: Sized {
    fn abort_handle(&self) -> u8;
}
impl VTask for () {
    fn abort_handle(&self) -> u8 { 0 }
}
pub trait VAbort: Sized {
    fn abort(&self);
}
impl VAbort for () { fn abort(&self) { } }
impl VAbort for u8 { fn abort(&self) { } }

impl VWorld {
    /// One task more keeps this document in sync, and its messages go through this stream.
    pub open spec fn served(self, o: VWorld, doc: DocumentActorHandle, stream: Stream) -> bool {
        &&& self.syncing@.len() == o.syncing@.len() + 1 && self.handled@.len() == o.handled@.len() + 1
        &&& self.syncing@.drop_last() =~= o.syncing@ && self.handled@.drop_last() =~= o.handled@
        &&& self.syncing@.last().0 == doc && self.handled@.last().0 == stream
        &&& self.syncing@.last().1 == self.handled@.last().1 && self.syncing@.last().2 == self.handled@.last().2
        &&& self.syncing@.last().1 != self.syncing@.last().2
        &&& self == (VWorld { syncing: self.syncing, handled: self.handled, channels: self.channels, ..o })
    }
}
