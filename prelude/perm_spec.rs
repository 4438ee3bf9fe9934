// File permissions, the environment, the configuration file (C15, C16).

/// What a path names (nothing else changes the entries meanwhile).
pub type Place = (bool, Names);
pub open spec fn at(t: Seq<char>) -> Place { (is_abs(t), path_names(t)) }
/// The directory an entry lies in.
pub open spec fn dir_of(p: Place) -> Place { (p.0, p.1.drop_last()) }

/// The outside world: which entries exist with which permission bits, what files contain.
pub struct VWorld {
    pub modes: Ghost<Map<Place, u32>>,
    pub data: Ghost<Map<Place, Seq<u8>>>,
    /// Connections to peers offered so far.
    pub offered: Ghost<Seq<Offer>>,
    /// Document tasks started so far.
    pub started: Ghost<Seq<Started>>,
}

impl VWorld {
    pub open spec fn acts(self) -> (Seq<Offer>, Seq<Started>) { (self.offered@, self.started@) }
    /// Only the permissions of this entry may differ.
    pub open spec fn kept_but(self, o: VWorld, p: Place) -> bool {
        self.data@ == o.data@ && self.acts() == o.acts() && (self == o || forall|q: Place| q != p ==> (#[trigger] self.modes@.dom().contains(q) <==> o.modes@.dom().contains(q)) && self.modes@[q] == o.modes@[q])
    }
}

/// The directory used for the socket if the environment names none.
pub open spec fn fallback() -> Seq<char> {
    "/tmp/ethersync-"@ + (match env_value("USER"@) { Some(u) => u, None => Seq::empty() })
}

/// What the connection to peers is started with.
pub struct Offer { pub settings: Settings, pub base: Seq<char> }

/// The process's umask.  Assumption: it does not take anything away from the user themselves.
pub uninterp spec fn umask() -> u32;
pub axiom fn axiom_umask()
    ensures umask() & 0o700 == 0;

/// Nobody but the user may access it.
pub open spec fn private(mode: u32) -> bool { mode & 0o077 == 0 }

pub open spec fn made(kind: u32, mode: u32) -> u32 { kind | (mode & !umask()) }

pub mod permlem {
    use super::*;
    pub broadcast proof fn lemma_or(m: u32)
        ensures (#[trigger] (m | 0o77700u32)) == 0o77700u32 ==> private(m), (m & 0xffff0000) == 0 && private(m) ==> (m | 0o77700u32) == 0o77700u32 || m & 0x8000 != 0,
    {
        assert((m | 0o77700u32) == 0o77700u32 ==> m & 0o077 == 0) by (bit_vector);
        assert((m & 0xffff0000) == 0 && m & 0o077 == 0 ==> (m | 0o77700u32) == 0o77700u32 || m & 0x8000 != 0) by (bit_vector);
    }
    pub proof fn lemma_user_only(u: u32)
        requires u & 0o700 == 0,
        ensures 0o100000u32 | (0o600u32 & !u) == 0o100600,
    {
        assert(u & 0o700 == 0 ==> 0o100000u32 | (0o600u32 & !u) == 0o100600u32) by (bit_vector);
    }
    pub broadcast proof fn lemma_key()
        ensures #[trigger] made(0o100000, 0o600) == 0o100600,
    {
        axiom_umask();
        lemma_user_only(umask());
    }
    pub broadcast proof fn lemma_set(m: u32)
        ensures private(#[trigger] ((m & 0o170000u32) | 0o700u32)),
    {
        assert(((m & 0o170000u32) | 0o700u32) & 0o077 == 0) by (bit_vector);
    }
    pub broadcast proof fn lemma_insert_again<K, V>(m: Map<K, V>, k: K, a: V, b: V)
        ensures #[trigger] m.insert(k, a).insert(k, b) == m.insert(k, b),
    {
        assert(m.insert(k, a).insert(k, b) =~= m.insert(k, b));
    }
    pub broadcast group group_perm { lemma_or, lemma_key, lemma_set, lemma_insert_again, axiom_components }
}

// ---- std::path::Component
pub enum Comp { Root, Cur, Parent, Normal(Seq<char>) }

pub open spec fn comp(c: Component) -> Comp {
    match c {
        Component::RootDir => Comp::Root,
        Component::CurDir => Comp::Cur,
        Component::ParentDir => Comp::Parent,
        Component::Normal(s) => Comp::Normal(s@),
    }
}

pub open spec fn comps(v: Seq<Component>) -> Seq<Comp> { v.map_values(|c: Component| comp(c)) }

pub uninterp spec fn comps_of(text: Seq<char>) -> Seq<Comp>;

/// An absolute path starts with the root; a path of a single plain component has just that name.
pub broadcast axiom fn axiom_components(text: Seq<char>)
    ensures
        is_abs(text) <==> (#[trigger] comps_of(text)).len() > 0 && comps_of(text)[0] is Root,
        comps_of(text).len() == 1 && comps_of(text)[0] is Normal ==> path_names(text) == seq![comps_of(text)[0]->Normal_0];

/// "a single plain name".
pub open spec fn plain_name(text: Seq<char>) -> bool { comps_of(text).len() == 1 && comps_of(text)[0] is Normal }

impl PathBuf {
    #[verifier::external_body]
    pub fn vcomponents<'a>(&'a self) -> (r: Components<'a>)
        ensures comps(r.v@) == comps_of(self@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn exists(&self, w: &mut VWorld) -> (r: bool)
        ensures *final(w) == *old(w), r == old(w).modes@.dom().contains(at(self@)),
    { unimplemented!() }

    /// An absolute or relative path without names has no parent; otherwise the last name is dropped.
    #[verifier::external_body]
    pub fn vparent<'a>(&'a self) -> (r: Option<&'a PathBuf>)
        ensures
            r is Some && path_names(self@).len() > 0 ==> at((r->0)@) == dir_of(at(self@)),
            path_names(self@).len() > 0 ==> r is Some,
            is_abs(self@) && r is Some ==> path_names(self@).len() > 0,
    { unimplemented!() }
}

impl<'a> Components<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Component<'a>>)
        ensures
            r is Some <==> old(self).v@.len() > 0,
            r is Some ==> r->0 == old(self).v@[0] && comp(r->0) == comps(old(self).v@)[0] && final(self).v@ == old(self).v@.skip(1),
    { unimplemented!() }
}

// ---- std::env
pub uninterp spec fn env_value(k: Seq<char>) -> Option<Seq<char>>;

#[verifier::external_body]
pub fn env_var(k: &str) -> (r: Result<String, IoError>)
    ensures match env_value(k@) { Some(v) => r is Ok && (r->Ok_0)@ == v, None => r is Err },
{ unimplemented!() }

// ---- std::fs
#[derive(Clone, Copy)]
pub struct Permissions { pub bits: u32 }

impl Permissions {
    pub fn from_mode(m: u32) -> (r: Permissions)
        ensures r.bits == m,
    { Permissions { bits: m } }
    pub fn mode(&self) -> (r: u32)
        ensures r == self.bits,
    { self.bits }
    pub fn set_mode(&mut self, m: u32)
        ensures final(self).bits == m,
    { self.bits = m; }
}

pub struct Metadata { pub bits: u32 }

impl Metadata {
    pub fn permissions(&self) -> (r: Permissions)
        ensures r.bits == self.bits,
    { Permissions { bits: self.bits } }
    pub fn mode(&self) -> (r: u32)
        ensures r == self.bits,
    { self.bits }
}

#[verifier::external_body]
pub fn fs_metadata<P: VAsPath>(p: P, w: &mut VWorld) -> (r: Result<Metadata, IoError>)
    ensures
        *final(w) == *old(w),
        r is Ok ==> old(w).modes@.dom().contains(at(p.ptext())) && (r->Ok_0).bits == old(w).modes@[at(p.ptext())],
{ unimplemented!() }

#[verifier::external_body]
pub fn fs_exists<P: VAsPath>(p: P, w: &mut VWorld) -> (r: Result<bool, IoError>)
    ensures *final(w) == *old(w), r is Ok ==> r->Ok_0 == old(w).modes@.dom().contains(at(p.ptext())),
{ unimplemented!() }

#[verifier::external_body]
pub fn fs_create_dir<P: VAsPath>(p: P, w: &mut VWorld) -> (r: Result<(), IoError>)
    ensures
        r is Err ==> *final(w) == *old(w),
        r is Ok ==> !old(w).modes@.dom().contains(at(p.ptext())) && final(w).data@ == old(w).data@ && final(w).acts() == old(w).acts()
            && final(w).modes@ == old(w).modes@.insert(at(p.ptext()), made(0o40000, 0o777)),
{ unimplemented!() }

#[verifier::external_body]
pub fn fs_set_permissions<P: VAsPath>(p: P, perm: Permissions, w: &mut VWorld) -> (r: Result<(), IoError>)
    ensures
        r is Err ==> *final(w) == *old(w),
        r is Ok ==> old(w).modes@.dom().contains(at(p.ptext())) && final(w).data@ == old(w).data@ && final(w).acts() == old(w).acts()
            && final(w).modes@ == old(w).modes@.insert(at(p.ptext()), (old(w).modes@[at(p.ptext())] & 0o170000u32) | perm.bits),
{ unimplemented!() }

#[verifier::external_body]
pub fn fs_read<P: VAsPath>(p: P, w: &mut VWorld) -> (r: Result<Vec<u8>, IoError>)
    ensures *final(w) == *old(w), r is Ok ==> (r->Ok_0)@ == old(w).data@[at(p.ptext())],
{ unimplemented!() }

/// `std::fs::OpenOptions`: a new file gets the mode asked for (0o666 unless said otherwise).
pub struct OpenOptions { pub bits: u32, pub fresh: bool, pub cut: bool }

impl OpenOptions {
    pub fn new() -> (r: OpenOptions)
        ensures r.bits == 0o666, !r.fresh, !r.cut,
    { OpenOptions { bits: 0o666, fresh: false, cut: false } }
    pub fn create(self, b: bool) -> (r: OpenOptions)
        ensures r == self,
    { self }
    pub fn create_new(self, b: bool) -> (r: OpenOptions)
        ensures r.fresh == b, r.bits == self.bits, r.cut == self.cut,
    { OpenOptions { bits: self.bits, fresh: b, cut: self.cut } }
    pub fn write(self, b: bool) -> (r: OpenOptions)
        ensures r == self,
    { self }
    pub fn read(self, b: bool) -> (r: OpenOptions)
        ensures r == self,
    { self }
    pub fn truncate(self, b: bool) -> (r: OpenOptions)
        ensures r.fresh == self.fresh, r.bits == self.bits, r.cut == b,
    { OpenOptions { bits: self.bits, fresh: self.fresh, cut: b } }
    pub fn mode(self, m: u32) -> (r: OpenOptions)
        ensures r.bits == m, r.fresh == self.fresh, r.cut == self.cut,
    { OpenOptions { bits: m, fresh: self.fresh, cut: self.cut } }
    #[verifier::external_body]
    pub fn open<P: VAsPath>(self, p: P, w: &mut VWorld) -> (r: Result<VFile, IoError>)
        ensures
            r is Err ==> *final(w) == *old(w),
            r is Ok ==> {
                let there = old(w).modes@.dom().contains(at(p.ptext()));
                &&& (r->Ok_0).file == at(p.ptext()) && final(w).acts() == old(w).acts()
                &&& there ==> !self.fresh && final(w).modes@ == old(w).modes@
                &&& there ==> final(w).data@ == (if self.cut { old(w).data@.insert(at(p.ptext()), Seq::empty()) } else { old(w).data@ })
                &&& !there ==> final(w).modes@ == old(w).modes@.insert(at(p.ptext()), made(0o100000, self.bits))
                &&& !there ==> final(w).data@ == old(w).data@.insert(at(p.ptext()), Seq::empty())
            },
    { unimplemented!() }
}

pub struct VFile { pub file: Ghost<Place> }

impl VFile {
    /// Only what is written to an empty file is modelled.
    #[verifier::external_body]
    pub fn write_all(&mut self, bytes: &[u8], w: &mut VWorld) -> (r: Result<(), IoError>)
        ensures
            final(self).file == old(self).file,
            final(w).modes@ == old(w).modes@, final(w).acts() == old(w).acts(),
            final(w).data@.remove(old(self).file@) == old(w).data@.remove(old(self).file@),
            r is Ok && old(w).data@[old(self).file@].len() == 0 ==> final(w).data@ == old(w).data@.insert(old(self).file@, bytes@),
    { unimplemented!() }
}

// ---- libp2p::identity::Keypair
#[verifier::external_body]
pub struct Keypair { x: u8 }
pub uninterp spec fn key_bytes(k: Keypair) -> Seq<u8>;

impl Keypair {
    #[verifier::external_body]
    pub fn from_protobuf_encoding(b: &[u8]) -> (r: Result<Keypair, IoError>)
        ensures r is Ok ==> key_bytes(r->Ok_0) == b@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn generate_ed25519() -> (r: Keypair)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_protobuf_encoding(&self) -> (r: Result<Vec<u8>, IoError>)
        ensures r is Ok ==> (r->Ok_0)@ == key_bytes(*self),
    { unimplemented!() }
}

/// The file the key is kept in.
pub open spec fn key_place(base: Seq<char>) -> Place {
    (is_abs(base), path_names(base) + path_names(".ethersync"@) + path_names("key"@))
}

// ---- ini::Ini
/// What a configuration file says about a key outside of any section.
pub uninterp spec fn ini_value(bytes: Seq<u8>, k: Seq<char>) -> Option<Seq<char>>;

pub struct Ini { pub bytes: Ghost<Seq<u8>> }
pub struct IniSection { pub bytes: Ghost<Seq<u8>> }

impl Ini {
    #[verifier::external_body]
    pub fn load_from_file<P: VAsPath>(p: P, w: &mut VWorld) -> (r: Result<Ini, IoError>)
        ensures *final(w) == *old(w), r is Ok ==> (r->Ok_0).bytes@ == old(w).data@[at(p.ptext())],
    { unimplemented!() }
    pub fn general_section(&self) -> (r: IniSection)
        ensures r.bytes == self.bytes,
    { IniSection { bytes: self.bytes } }
}

impl IniSection {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&str>)
        ensures match ini_value(self.bytes@, k@) { Some(v) => r is Some && (r->0)@ == v, None => r is None },
    { unimplemented!() }
}

/// The number a text denotes as a port.
pub uninterp spec fn port_of(t: Seq<char>) -> Option<u16>;

pub trait VParse {
    spec fn ptxt(&self) -> Seq<char>;
    fn vparse(&self) -> (r: Result<u16, IoError>)
        ensures match port_of(self.ptxt()) { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err };
}
impl VParse for str {
    open spec fn ptxt(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vparse(&self) -> (r: Result<u16, IoError>) { unimplemented!() }
}

pub open spec fn otext(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }

pub struct Settings { pub port: Option<u16>, pub peer: Option<Seq<char>>, pub secret: Option<Seq<char>> }

pub open spec fn settings(i: PeerConnectionInfo) -> Settings {
    Settings { port: i.port, peer: otext(i.peer), secret: otext(i.passphrase) }
}

/// "a setting given on the command line wins over the one in the configuration file".
pub open spec fn first<T>(a: Option<T>, b: Option<T>) -> Option<T> { if a is Some { a } else { b } }
pub open spec fn over(a: Settings, b: Settings) -> Settings {
    Settings { port: first(a.port, b.port), peer: first(a.peer, b.peer), secret: first(a.secret, b.secret) }
}

/// The settings a configuration file contains.
pub open spec fn configured(bytes: Seq<u8>) -> Settings {
    Settings {
        port: match ini_value(bytes, "port"@) { Some(t) => port_of(t), None => None },
        peer: ini_value(bytes, "peer"@),
        secret: ini_value(bytes, "secret"@),
    }
}

// ---- the daemon's tasks
/// What the document's task is started with: the directory, whether to start anew, whether as host.
pub struct Started { pub base: Seq<char>, pub init: bool, pub host: bool }

#[verifier::external_body]
pub struct MsgSender { x: u8 }
#[verifier::external_body]
pub struct MsgReceiver { x: u8 }
#[verifier::external_body]
pub struct PingSender { x: u8 }
#[verifier::external_body]
pub struct PingReceiver { x: u8 }
#[verifier::external_body]
pub struct Counter { x: u8 }
/// An `Arc` stands for what it holds.
pub type Shared<T> = T;
/// `Arc::default()`
#[verifier::external_body]
pub fn counter() -> Counter { unimplemented!() }
#[verifier::external_body]
pub fn mpsc_channel(n: usize) -> (MsgSender, MsgReceiver) { unimplemented!() }
#[verifier::external_body]
pub fn broadcast_channel<T>(n: usize) -> (PingSender, PingReceiver) { unimplemented!() }
impl DocumentActorHandle {
    #[verifier::external_body]
    pub fn next_editor_id(&self) -> usize { unimplemented!() }
}
impl Clone for MsgSender {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for PingSender {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for Counter {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

/// The document's task; see the unit `daemon`.
pub struct DocumentActor { pub x: u8 }
impl DocumentActor {
    #[verifier::external_body]
    pub fn new(rx: MsgReceiver, tx: PingSender, base_dir: PathBuf, init: bool, is_host: bool, w: &mut VWorld) -> (r: DocumentActor)
        ensures
            final(w).started@ == old(w).started@.push(Started { base: base_dir@, init: init, host: is_host }),
            final(w).offered@ == old(w).offered@, final(w).modes@ == old(w).modes@, final(w).data@ == old(w).data@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn run(&mut self, w: &mut VWorld)
        ensures *final(w) == *old(w),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct UnixStream { x: u8 }
#[verifier::external_body]
pub struct SocketAddr { x: u8 }
#[verifier::external_body]
pub struct UnixListener { x: u8 }

/// Creating the socket is what opens the daemon to others: the directory it lies in must be private.
pub open spec fn may_bind(w: VWorld, t: Seq<char>) -> bool {
    w.modes@.dom().contains(dir_of(at(t))) && private(w.modes@[dir_of(at(t))])
}

impl UnixListener {
    #[verifier::external_body]
    pub fn bind<P: VAsPath>(p: P, w: &mut VWorld) -> (r: Result<UnixListener, IoError>)
        requires may_bind(*old(w), p.ptext()),
        ensures final(w).acts() == old(w).acts(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn accept(&self) -> (r: Result<(UnixStream, SocketAddr), IoError>)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn spawn_editor_connection(s: UnixStream, h: DocumentActorHandle, id: usize) { unimplemented!() }

/// The sandbox's functions, on the path of the socket.
#[verifier::external_body]
pub fn sandbox_exists<P: VAsPath, Q: VAsPath>(b: P, p: Q, w: &mut VWorld) -> (r: Result<bool, IoError>)
    ensures *final(w) == *old(w),
{ unimplemented!() }
#[verifier::external_body]
pub fn sandbox_remove_file<P: VAsPath, Q: VAsPath>(b: P, p: Q, w: &mut VWorld) -> (r: Result<(), IoError>)
    ensures
        r is Err ==> *final(w) == *old(w),
        r is Ok ==> final(w).modes@ == old(w).modes@.remove(at(p.ptext())) && final(w).data@ == old(w).data@.remove(at(p.ptext())) && final(w).acts() == old(w).acts(),
{ unimplemented!() }

#[verifier::external_body]
pub fn spawn_file_watcher(b: &PathBuf, h: DocumentActorHandle) { unimplemented!() }
#[verifier::external_body]
pub fn spawn_persister(h: DocumentActorHandle) { unimplemented!() }

impl P2PActor {
    #[verifier::external_body]
    pub fn run(self, w: &mut VWorld) -> (r: Result<(), AnyhowError>)
        ensures
            final(w).modes@ == old(w).modes@, final(w).started@ == old(w).started@,
            final(w).offered@ == old(w).offered@.push(Offer { settings: settings(self.connection_info), base: self.base_dir@ }),
    { unimplemented!() }
}

// ---- clap: what the command line says
pub uninterp spec fn cli_settings() -> Settings;
pub uninterp spec fn cli_init() -> bool;
/// The directory given, or the current one; symbolic links resolved.
pub uninterp spec fn cli_dir() -> Option<Seq<char>>;
pub uninterp spec fn current_directory() -> Seq<char>;
pub uninterp spec fn real(t: Seq<char>) -> Seq<char>;

pub open spec fn project_dir() -> Seq<char> { real(match cli_dir() { Some(d) => d, None => current_directory() }) }

pub open spec fn opath(o: Option<PathBuf>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }

pub open spec fn says(c: Cli) -> bool {
    c.command is Daemon ==> {
        &&& otext(c.command->peer) == cli_settings().peer
        &&& c.command->port == cli_settings().port
        &&& c.command->init == cli_init()
        &&& opath(c.command->directory) == cli_dir()
    }
}

#[verifier::external_body]
pub struct ClapCommand { x: u8 }
#[verifier::external_body]
pub struct Matches { x: u8 }
#[verifier::external_body]
pub struct ClapError { x: u8 }
pub enum ValueSource { DefaultValue, EnvVariable, CommandLine }
impl PartialEq for ValueSource {
    #[verifier::external_body]
    fn eq(&self, o: &ValueSource) -> bool { unimplemented!() }
}

impl ClapError {
    #[verifier::external_body]
    pub fn exit<T>(self) -> (r: T)
        ensures false,
    { unimplemented!() }
}
impl ClapCommand {
    #[verifier::external_body]
    pub fn get_matches(self) -> Matches { unimplemented!() }
}
impl Matches {
    #[verifier::external_body]
    pub fn value_source(&self, n: &str) -> Option<ValueSource> { unimplemented!() }
}
impl Cli {
    #[verifier::external_body]
    pub fn command() -> ClapCommand { unimplemented!() }
    #[verifier::external_body]
    pub fn from_arg_matches(m: &Matches) -> (r: Result<Cli, ClapError>)
        ensures r is Ok ==> says(r->Ok_0),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn logging_initialize(d: bool) { unimplemented!() }
#[verifier::external_body]
pub fn current_dir() -> (r: Result<PathBuf, IoError>)
    ensures r is Ok ==> (r->Ok_0)@ == current_directory(),
{ unimplemented!() }
#[verifier::external_body]
pub fn ctrl_c() -> Result<(), IoError> { unimplemented!() }
#[verifier::external_body]
pub fn forward(p: &PathBuf) -> Result<(), AnyhowError> { unimplemented!() }

impl PathBuf {
    #[verifier::external_body]
    pub fn canonicalize(&self) -> (r: Result<PathBuf, IoError>)
        ensures r is Ok ==> (r->Ok_0)@ == real(self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> bool { unimplemented!() }
}

pub open spec fn nothing() -> Settings { Settings { port: None, peer: None, secret: None } }

pub open spec fn config_place(base: Seq<char>) -> Place {
    (is_abs(base), path_names(base) + path_names(".ethersync"@) + path_names("config"@))
}

/// The settings that count: the command line's, then the configuration file's.
pub open spec fn effective(w: VWorld, base: Seq<char>) -> Settings {
    if w.modes@.dom().contains(config_place(base)) {
        over(cli_settings(), configured(w.data@[config_place(base)]))
    } else {
        cli_settings()
    }
}

/// A secret cannot be given on the command line.
pub axiom fn axiom_cli_secret()
    ensures cli_settings().secret is None;
