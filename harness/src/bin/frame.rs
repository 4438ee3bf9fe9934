//! C12: the Content-Length codec under any fragmentation.

use contract_replay::text::*;
use contract_replay::*;
use tokio_util::bytes::BytesMut;

mod real {
    #![allow(dead_code, unused_imports)]
    include!(concat!(env!("OUT_DIR"), "/jsonrpc_forwarder.rs"));

    pub fn encode(item: String, dst: &mut BytesMut) -> Result<(), String> {
        ContentLengthCodec.encode(item, dst).map_err(|e| e.to_string())
    }
    pub fn decode(src: &mut BytesMut) -> Result<Option<String>, String> {
        ContentLengthCodec.decode(src).map_err(|e| e.to_string())
    }
}

fn gen_message(rng: &mut Rng, size: usize) -> String {
    match rng.below(9) {
        0 => String::new(),
        1 => "Content-Length: 3\r\n\r\nabc".into(),
        2 => format!("\r\n\r\n{}", gen_text(rng, size)),
        3 => format!("\n\n{}", gen_text(rng, size)),
        4 => "äöü€😀".chars().cycle().take(rng.below(size * 3 + 1)).collect(),
        5 => format!("{{\"jsonrpc\":\"2.0\",\"method\":\"{}\"}}", gen_text(rng, size).escape_default()),
        // Lengths with one to five digits.
        6 => "x".repeat(*rng.pick(&[1, 9, 10, 11, 99, 100, 101, 255, 256, 1000, 4096, 8191, 8192, 10000, 70000])),
        7 => format!("Content-Length: {}", gen_text(rng, size)),
        _ => gen_text(rng, size),
    }
}

fn wanted(m: &str) -> Vec<u8> {
    let mut v = format!("Content-Length: {}\r\n\r\n", m.len()).into_bytes();
    v.extend_from_slice(m.as_bytes());
    v
}

fn messages(rng: &mut Rng, size: usize) -> Vec<String> {
    let ms: Vec<String> = (0..1 + rng.below(size + 1)).map(|_| gen_message(rng, size)).collect();
    note(format!("messages {:?}", ms.iter().map(|m| m.chars().take(60).collect::<String>()).collect::<Vec<_>>()));
    ms
}

fn encoding(rng: &mut Rng, size: usize) -> Outcome {
    let ms = messages(rng, size);
    let (mut dst, mut want) = (BytesMut::new(), vec![]);
    for m in &ms {
        real::encode(m.clone(), &mut dst).map_err(|e| format!("encode fails: {e}"))?;
        want.extend(wanted(m));
        if dst[..] != want[..] {
            return Err(format!("encoded {:?}, expected {:?}", String::from_utf8_lossy(&dst), String::from_utf8_lossy(&want)));
        }
    }
    Ok(())
}

/// Feeds `stream` in the given pieces and decodes as often as a framed reader does.
fn fragments(rng: &mut Rng, size: usize) -> Outcome {
    let ms = messages(rng, size);
    let stream: Vec<u8> = ms.iter().flat_map(|m| wanted(m)).collect();
    let mut ends = vec![0];
    for m in &ms {
        ends.push(ends.last().unwrap() + wanted(m).len());
    }
    let mut buf = BytesMut::new();
    let (mut fed, mut out) = (0, vec![]);
    let style = rng.below(4);
    while fed < stream.len() {
        let left = stream.len() - fed;
        let n = match style {
            0 => 1 + rng.below(4),
            1 => 1 + rng.below(40),
            2 => 1 + rng.below(left),
            // Up to just before, at or after the end of a message or of its header.
            _ => {
                let e = *rng.pick(&ends);
                (e + rng.below(40)).saturating_sub(18).saturating_sub(fed).max(1)
            }
        }
        .min(left);
        let n = if style == 0 && left > 3000 { left } else { n };
        buf.extend_from_slice(&stream[fed..fed + n]);
        fed += n;
        loop {
            let before = buf.to_vec();
            match real::decode(&mut buf) {
                Err(e) => return Err(format!("after {fed} bytes: decode fails: {e}")),
                Ok(None) => {
                    if buf[..] != before[..] {
                        return Err(format!("after {fed} bytes: an incomplete frame is consumed, {} bytes left of {}", buf.len(), before.len()));
                    }
                    break;
                }
                Ok(Some(m)) => {
                    let k = out.len();
                    if k >= ms.len() || m != ms[k] {
                        return Err(format!("after {fed} bytes: message {k} is {m:?}, expected {:?}", ms.get(k)));
                    }
                    out.push(m);
                    let rest = &stream[ends[k + 1]..fed.max(ends[k + 1])];
                    if buf[..] != rest[..] {
                        return Err(format!("after {fed} bytes: {:?} is left, expected {:?}", String::from_utf8_lossy(&buf), String::from_utf8_lossy(rest)));
                    }
                }
            }
        }
        let complete = ends.iter().filter(|e| **e > 0 && **e <= fed).count();
        if out.len() != complete {
            return Err(format!("after {fed} bytes: {} messages decoded, {complete} are complete", out.len()));
        }
    }
    Ok(())
}

fn main() {
    harness_main(
        &[
            Test { property: "C12", name: "encoding", max_size: 8, run: encoding },
            Test { property: "C12", name: "fragments", max_size: 8, run: fragments },
        ],
        &[],
    )
}
