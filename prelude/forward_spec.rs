// What goes through the forwarder: messages from the socket to stdout, and from stdin to the socket.
// A task that ends the process and the code that started it are looked at one at a time; they share
// nothing but the connection, of which each has its own half.

pub enum End { Socket, Std }
pub enum Framing { Lines, Length }

/// The messages that were read and written so far, by which end, and what has ended.
/// `astray`: something was read or written with the other framing.
pub struct VWorld {
    pub from_socket: Ghost<Seq<Seq<char>>>,
    pub to_stdout: Ghost<Seq<Seq<char>>>,
    pub from_stdin: Ghost<Seq<Seq<char>>>,
    pub to_socket: Ghost<Seq<Seq<char>>>,
    pub socket_ended: Ghost<bool>,
    pub stdin_ended: Ghost<bool>,
    pub astray: Ghost<bool>,
}
impl VWorld {
    pub open spec fn quiet(self) -> bool {
        &&& self.from_socket@.len() == 0 && self.to_stdout@.len() == 0 && self.from_stdin@.len() == 0 && self.to_socket@.len() == 0
        &&& !self.socket_ended@ && !self.stdin_ended@ && !self.astray@
    }
    /// Everything that came in on one side has gone out on the other.
    pub open spec fn through(self) -> bool {
        &&& !self.astray@
        &&& self.to_stdout@ =~= self.from_socket@
        &&& self.to_socket@ =~= self.from_stdin@
    }
    pub open spec fn took(self, o: VWorld, e: End, f: Framing, m: Seq<char>) -> bool {
        match (e, f) {
            (End::Socket, Framing::Lines) => self.from_socket@ == o.from_socket@.push(m) && self == (VWorld { from_socket: self.from_socket, ..o }),
            (End::Std, Framing::Length) => self.from_stdin@ == o.from_stdin@.push(m) && self == (VWorld { from_stdin: self.from_stdin, ..o }),
            _ => self.astray@ && self == (VWorld { astray: self.astray, ..o }),
        }
    }
    pub open spec fn gave(self, o: VWorld, e: End, f: Framing, m: Seq<char>) -> bool {
        match (e, f) {
            (End::Socket, Framing::Lines) => self.to_socket@ == o.to_socket@.push(m) && self == (VWorld { to_socket: self.to_socket, ..o }),
            (End::Std, Framing::Length) => self.to_stdout@ == o.to_stdout@.push(m) && self == (VWorld { to_stdout: self.to_stdout, ..o }),
            _ => self.astray@ && self == (VWorld { astray: self.astray, ..o }),
        }
    }
    pub open spec fn over(self, o: VWorld, e: End) -> bool {
        match e {
            End::Socket => self.socket_ended@ && self == (VWorld { socket_ended: self.socket_ended, ..o }),
            End::Std => self.stdin_ended@ && self == (VWorld { stdin_ended: self.stdin_ended, ..o }),
        }
    }
}

/// Where bytes come from and go to.
pub trait VEnd: Sized { spec fn end(self) -> End; }
pub trait VCodec: Sized { spec fn framing(self) -> Framing; }
#[verifier::external_body]
pub struct Stdin { x: u8 }
#[verifier::external_body]
pub struct Stdout { x: u8 }
#[verifier::external_body]
pub struct OwnedReadHalf { x: u8 }
#[verifier::external_body]
pub struct OwnedWriteHalf { x: u8 }
impl VEnd for Stdin { open spec fn end(self) -> End { End::Std } }
impl VEnd for Stdout { open spec fn end(self) -> End { End::Std } }
impl VEnd for OwnedReadHalf { open spec fn end(self) -> End { End::Socket } }
impl VEnd for OwnedWriteHalf { open spec fn end(self) -> End { End::Socket } }
pub struct BufReader<T> { pub of: T }
pub struct BufWriter<T> { pub of: T }
impl<T: VEnd> VEnd for BufReader<T> { open spec fn end(self) -> End { self.of.end() } }
impl<T: VEnd> VEnd for BufWriter<T> { open spec fn end(self) -> End { self.of.end() } }
impl<T> BufReader<T> {
    pub fn new(of: T) -> (r: BufReader<T>) ensures r.of == of { BufReader { of } }
}
impl<T> BufWriter<T> {
    pub fn new(of: T) -> (r: BufWriter<T>) ensures r.of == of { BufWriter { of } }
}
#[verifier::external_body]
pub fn vstdin() -> Stdin { unimplemented!() }
#[verifier::external_body]
pub fn vstdout() -> Stdout { unimplemented!() }

#[verifier::external_body]
pub struct LinesCodec { x: u8 }
impl LinesCodec {
    #[verifier::external_body]
    pub fn new() -> LinesCodec { unimplemented!() }
}
impl VCodec for LinesCodec { open spec fn framing(self) -> Framing { Framing::Lines } }
/// What it does is proved in `codec`.
impl VCodec for ContentLengthCodec { open spec fn framing(self) -> Framing { Framing::Length } }

#[verifier::external_body]
pub struct UnixStream { x: u8 }
impl UnixStream {
    #[verifier::external_body]
    pub fn connect<P: VAsPath>(p: P) -> (r: Result<UnixStream, IoError>) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_split(self) -> (r: (OwnedReadHalf, OwnedWriteHalf)) { unimplemented!() }
}

pub struct FramedRead<T, C> { pub of: T, pub codec: C }
impl<T: VEnd, C: VCodec> FramedRead<T, C> {
    pub fn new(of: T, codec: C) -> (r: FramedRead<T, C>) ensures r.of == of, r.codec == codec { FramedRead { of, codec } }
    #[verifier::external_body]
    pub fn next(&mut self, w: &mut VWorld) -> (r: Option<Result<String, AnyhowError>>)
        ensures
            final(self).of == old(self).of, final(self).codec == old(self).codec,
            match r {
                Some(Ok(m)) => final(w).took(*old(w), old(self).of.end(), old(self).codec.framing(), m@),
                _ => final(w).over(*old(w), old(self).of.end()),
            },
    { unimplemented!() }
}
pub struct FramedWrite<T, C> { pub of: T, pub codec: C }
impl<T: VEnd, C: VCodec> FramedWrite<T, C> {
    pub fn new(of: T, codec: C) -> (r: FramedWrite<T, C>) ensures r.of == of, r.codec == codec { FramedWrite { of, codec } }
    /// Writes and flushes.
    #[verifier::external_body]
    pub fn send(&mut self, m: String, w: &mut VWorld) -> (r: Result<(), AnyhowError>)
        ensures
            final(self).of == old(self).of, final(self).codec == old(self).codec,
            r is Ok ==> final(w).gave(*old(w), old(self).of.end(), old(self).codec.framing(), m@),
    { unimplemented!() }
}

#[verifier::external_body]
pub fn vselect() -> bool { unimplemented!() }

/// The process may only end when one side has, and nothing is left to forward of what was read.
#[verifier::external_body]
pub fn vexit(code: i32, w: &mut VWorld) -> !
    requires old(w).through(), old(w).socket_ended@ || old(w).stdin_ended@,
{ unimplemented!() }
