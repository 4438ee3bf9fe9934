//! C24: what goes through the connection between two daemons, which cuts everything into pieces and takes
//! only so much before it has to be read.

use automerge::sync::{Message, State, SyncDoc};
use automerge::{AutoCommit, ChangeHash};
use contract_replay::*;
use futures::io::{AsyncRead, AsyncWrite};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::sync::mpsc;

/// One direction.
#[derive(Default)]
struct Pipe {
    bytes: VecDeque<u8>,
    room: usize,
    piece: usize,
    lazy: u64,
    turns: u64,
    /// Waiting for a long while, at either end; how often, in a million.
    stalls: u64,
    stalled: [Option<Pin<Box<tokio::time::Sleep>>>; 2],
    closed: bool,
    reader: Option<Waker>,
    writer: Option<Waker>,
}

impl Pipe {
    fn roll(&mut self) -> u64 {
        self.turns = self.turns.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.turns >> 33
    }
    /// Now and then, nothing happens although something could.
    fn idle(&mut self, end: usize, cx: &mut Context<'_>) -> bool {
        if self.stalled[end].is_none() && self.roll() % 1_000_000 < self.stalls {
            let secs = 1 + self.roll() % 100;
            self.stalls -= self.stalls / 10;
            self.stalled[end] = Some(Box::pin(tokio::time::sleep(Duration::from_secs(secs))));
        }
        if let Some(s) = &mut self.stalled[end] {
            if s.as_mut().poll(cx).is_pending() {
                return true;
            }
            self.stalled[end] = None;
        }
        let idle = self.roll() % 100 < self.lazy;
        if idle {
            cx.waker().wake_by_ref();
        }
        idle
    }
    fn some(&mut self, n: usize) -> usize {
        n.min(1 + self.roll() as usize % self.piece)
    }
}

pub struct Stream {
    from: Arc<Mutex<Pipe>>,
    to: Arc<Mutex<Pipe>>,
}

impl Drop for Stream {
    fn drop(&mut self) {
        for p in [&self.from, &self.to] {
            let mut p = p.lock().unwrap();
            p.closed = true;
            p.reader.take().map(Waker::wake);
            p.writer.take().map(Waker::wake);
        }
    }
}

impl AsyncRead for Stream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let mut p = self.from.lock().unwrap();
        if buf.is_empty() || (p.bytes.is_empty() && p.closed) {
            return Poll::Ready(Ok(0));
        }
        if p.idle(0, cx) {
            return Poll::Pending;
        }
        if p.bytes.is_empty() {
            p.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.len().min(p.bytes.len());
        let n = p.some(n);
        for b in buf.iter_mut().take(n) {
            *b = p.bytes.pop_front().unwrap();
        }
        p.writer.take().map(Waker::wake);
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for Stream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        let mut p = self.to.lock().unwrap();
        if p.closed {
            return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()));
        }
        if p.idle(1, cx) {
            return Poll::Pending;
        }
        let room = p.room - p.bytes.len();
        if room == 0 {
            p.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = p.some(room.min(buf.len()));
        p.bytes.extend(&buf[..n]);
        p.reader.take().map(Waker::wake);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

mod code {
    #![allow(unused_imports, dead_code, clippy::all)]
    use super::Stream;
    include!(concat!(env!("OUT_DIR"), "/peer_handler.rs"));
}

fn hashes(rng: &mut Rng, n: usize) -> Vec<ChangeHash> {
    let mut v: Vec<ChangeHash> = (0..n)
        .map(|_| {
            let mut h = [0; 32];
            h.iter_mut().for_each(|b| *b = rng.below(256) as u8);
            ChangeHash(h)
        })
        .collect();
    v.sort();
    v
}

/// Some megabytes.
fn big(rng: &mut Rng) -> Message {
    let mut base = AutoCommit::new().sync().generate_sync_message(&mut State::new()).expect("message");
    let h = hashes(rng, 1)[0];
    base.heads = vec![h; 40_000 + rng.below(60_000)];
    base
}

fn message(rng: &mut Rng, size: usize, wide: bool) -> Message {
    let n = match rng.below(12) {
        0 => 7 + rng.below(3),
        1 if size > 2 => 2046 + rng.below(4),
        2 if size > 3 => 2600,
        3 if wide && size > 2 && rng.below(4) == 0 => return big(rng),
        3..=5 => 0,
        _ => rng.below(4 * size),
    };
    let m = rng.below(3);
    let mut base = AutoCommit::new().sync().generate_sync_message(&mut State::new()).expect("message");
    base.heads = hashes(rng, n);
    base.need = hashes(rng, m);
    base
}

/// Everything each side hands over arrives at the other, as it was and in order.
fn arrives(rng: &mut Rng, size: usize) -> Outcome {
    if !code::AVAILABLE {
        return Ok(());
    }
    let pipe = |rng: &mut Rng| {
        let room = [1, 3, 16, 200, 5000, 100_000][rng.below(6)];
        let piece = [1, 2, 5, 64, 4096, 100_000][rng.below(6)];
        Arc::new(Mutex::new(Pipe { room, piece, lazy: [0, 20, 60][rng.below(3)], stalls: [0, 300, 30_000][rng.below(3)], turns: rng.below(1 << 30) as u64, ..Default::default() }))
    };
    let (ab, ba) = (pipe(rng), pipe(rng));
    let wide = [&ab, &ba].iter().all(|p| {
        let p = p.lock().unwrap();
        p.room.min(p.piece) > 4000
    });
    let counts = [rng.below(6 * size + 2), rng.below(6 * size + 2)];
    let lists: [Vec<Message>; 2] = counts.map(|n| (0..n).map(|_| message(rng, size, wide)).collect());
    // How many are handed over before the other side's are taken.
    let pace: [Vec<usize>; 2] = counts.map(|n| (0..n).map(|_| rng.below(6)).collect());
    let (rare, slow) = (rng.below(3) == 0, rng.below(4) == 0);
    let lens = |l: &[Message]| l.iter().map(|m| m.clone().encode().len()).collect::<Vec<_>>();
    note(format!("one side sends messages of {:?} bytes, the other of {:?}", lens(&lists[0]), lens(&lists[1])));
    for p in [&ab, &ba] {
        let p = p.lock().unwrap();
        note(format!("a connection that holds {} bytes, in pieces of up to {}{}", p.room, p.piece, if p.stalls > 0 { ", and stalls at times" } else { "" }));
    }
    note(format!("{}{}", if rare { "some messages come 40 s after the one before; " } else { "" }, if slow { "they are taken one every 2 s" } else { "they are taken at once" }));
    let want: [Vec<Vec<u8>>; 2] = [0, 1].map(|i| lists[1 - i].iter().map(|m| m.clone().encode()).collect());
    let got: [Arc<Mutex<Vec<Vec<u8>>>>; 2] = Default::default();
    // Time passes only when nothing else does.
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let done = guarded(|| {
        rt.block_on(async {
            let (mut feeds, mut takes, mut keep) = (vec![], vec![], vec![]);
            for (i, list) in lists.into_iter().enumerate() {
                let (to_tx, to_rx) = mpsc::channel(16);
                let (from_tx, mut from_rx) = mpsc::channel(16);
                let stream = match i {
                    0 => Stream { from: ba.clone(), to: ab.clone() },
                    _ => Stream { from: ab.clone(), to: ba.clone() },
                };
                keep.push(tokio::spawn(code::handler(stream, from_tx, to_rx)));
                let pace = pace[i].clone();
                feeds.push(tokio::spawn(async move {
                    for (m, p) in list.into_iter().zip(pace) {
                        if to_tx.send(m).await.is_err() {
                            break;
                        }
                        match p {
                            5 if rare => tokio::time::sleep(Duration::from_secs(40)).await,
                            _ => {
                                for _ in 0..p {
                                    tokio::task::yield_now().await;
                                }
                            }
                        }
                    }
                    // Nothing more comes, but the other side may still have something.
                    std::future::pending::<()>().await;
                    drop(to_tx);
                }));
                let (got, n) = (got[i].clone(), want[i].len());
                takes.push(tokio::spawn(async move {
                    while got.lock().unwrap().len() < n {
                        match from_rx.recv().await {
                            Some(m) => got.lock().unwrap().push(m.encode()),
                            None => break,
                        }
                        if slow {
                            tokio::time::sleep(Duration::from_secs(2)).await;
                        }
                    }
                    // Nothing else arrives.
                    for _ in 0..20 {
                        tokio::task::yield_now().await;
                    }
                    while let Ok(m) = from_rx.try_recv() {
                        got.lock().unwrap().push(m.encode());
                    }
                    from_rx
                }));
            }
            let held = tokio::time::timeout(Duration::from_secs(10_000_000), futures::future::join_all(takes)).await;
            drop(held);
            feeds.iter().for_each(|f| f.abort());
            keep.iter().for_each(|k| k.abort());
        })
    });
    drop(rt);
    done.map_err(|p| format!("the connection ends: {p}"))?;
    for i in 0..2 {
        let got = got[i].lock().unwrap();
        if *got != want[i] {
            let ok = got.iter().zip(&want[i]).take_while(|(a, b)| a == b).count();
            return Err(format!("side {i} gets {} messages, {ok} of them as they were sent, out of {}", got.len(), want[i].len()));
        }
    }
    Ok(())
}

fn main() {
    harness_main(&[Test { property: "C24", name: "arrives", max_size: 4, run: arrives }], &[])
}
