//! Reference semantics of texts and changes (run-time twin of prelude/text.rs, rope.rs, editor.rs).

use crate::Rng;
use ethersync::types::{EditorTextDelta, EditorTextOp, Position, Range, TextDelta, TextOp};

pub fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}

pub fn string(c: &[char]) -> String {
    c.iter().collect()
}

pub fn gen_char(rng: &mut Rng) -> char {
    const COMMON: &[char] = &['a', 'b', 'c', 'x', ' ', '\n', '\n', '\n', 'ü', '🥕', '💚', 'Z', '\t'];
    const RARE: &[char] = &['\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}', '\u{301}', '\u{0}', '"', '\\', '/', '\u{feff}', '\u{10ffff}'];
    if rng.chance(88) {
        *rng.pick(COMMON)
    } else {
        *rng.pick(RARE)
    }
}

pub fn gen_odd(rng: &mut Rng) -> char {
    *rng.pick(&['\u{0}', '\u{feff}', '\r', '\u{85}', '\u{a0}', '\u{200b}', '\u{fffd}', '\u{1b}', ';', ',', '\'', '"', '\u{301}', '\u{ac00}', '\u{212b}', '\u{7f}', '~', '%'])
}

pub fn gen_text(rng: &mut Rng, size: usize) -> String {
    let n = rng.below(size + 1);
    let mut s: String = (0..n).map(|_| gen_char(rng)).collect();
    if rng.chance(8) {
        s.push_str("\r\n");
    }
    if rng.chance(6) {
        s.push(gen_odd(rng));
    }
    if rng.chance(4) {
        s.insert(0, gen_odd(rng));
    }
    s
}

pub fn gen_insert(rng: &mut Rng, size: usize) -> String {
    let n = 1 + rng.below(size.clamp(1, 4));
    let mut s: String = (0..n).map(|_| gen_char(rng)).collect();
    // What someone might trim, strip or normalise.
    if rng.chance(6) {
        s.push(gen_odd(rng));
    }
    if rng.chance(4) {
        s.insert(0, gen_odd(rng));
    }
    s
}

/// A change that fits texts of `len` characters; steps are not normalised.
pub fn gen_ops(rng: &mut Rng, len: usize, size: usize) -> Vec<TextOp> {
    let mut left = len;
    let mut v = vec![];
    let steps = rng.below(2 + size.min(6));
    for _ in 0..steps {
        match rng.below(4) {
            0 | 1 if left > 0 => {
                let n = 1 + rng.below(left.min(4));
                left -= n;
                v.push(TextOp::Retain(n));
            }
            2 if left > 0 => {
                let n = 1 + rng.below(left.min(3));
                left -= n;
                v.push(TextOp::Delete(n));
            }
            3 => v.push(TextOp::Insert(gen_insert(rng, size))),
            _ => {}
        }
    }
    if rng.chance(20) && left > 0 {
        v.push(TextOp::Retain(left));
    }
    v
}

pub fn gen_delta(rng: &mut Rng, len: usize, size: usize) -> TextDelta {
    let ops = gen_ops(rng, len, size);
    if rng.chance(50) {
        let mut d = TextDelta::default();
        for op in ops {
            match op {
                TextOp::Retain(n) => d.retain(n),
                TextOp::Insert(s) => d.insert(&s),
                TextOp::Delete(n) => d.delete(n),
            }
        }
        d
    } else {
        TextDelta(ops)
    }
}

pub fn base_len(ops: &[TextOp]) -> usize {
    ops.iter()
        .map(|o| match o {
            TextOp::Retain(n) | TextOp::Delete(n) => *n,
            TextOp::Insert(_) => 0,
        })
        .sum()
}

/// `apply` of prelude/text.rs; None if the change does not fit.
pub fn apply(ops: &[TextOp], t: &[char]) -> Option<Vec<char>> {
    let mut at = 0usize;
    let mut out = vec![];
    for op in ops {
        match op {
            TextOp::Retain(n) => {
                out.extend_from_slice(t.get(at..at.checked_add(*n)?)?);
                at += n;
            }
            TextOp::Delete(n) => {
                t.get(at..at.checked_add(*n)?)?;
                at += n;
            }
            TextOp::Insert(s) => out.extend(s.chars()),
        }
    }
    out.extend_from_slice(&t[at..]);
    Some(out)
}

/// A line ends right after character `i`.
pub fn line_end_at(t: &[char], i: usize) -> bool {
    match t[i] {
        '\n' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}' => true,
        '\r' => t.get(i + 1) != Some(&'\n'),
        _ => false,
    }
}

/// Offsets where lines start, the end of the text appended.
pub fn line_starts(t: &[char]) -> Vec<usize> {
    let mut v = vec![0];
    for i in 0..t.len() {
        if line_end_at(t, i) {
            v.push(i + 1);
        }
    }
    v.push(t.len());
    v
}

pub fn pos_offset(t: &[char], p: &Position) -> Option<usize> {
    let starts = line_starts(t);
    if p.line + 1 >= starts.len() {
        return None;
    }
    let (a, b) = (starts[p.line], starts[p.line + 1]);
    (p.character <= b - a).then(|| a + p.character)
}

/// All positions that denote offset `n` (the end of a line's break also starts the next line).
pub fn gen_pos(rng: &mut Rng, t: &[char], n: usize) -> Position {
    let starts = line_starts(t);
    let lines = starts.len() - 1;
    let mut all = vec![];
    for l in 0..lines {
        if starts[l] <= n && n <= starts[l + 1] {
            all.push(Position { line: l, character: n - starts[l] });
        }
    }
    // Mostly the usual one: on the line the offset is on.
    if rng.chance(85) {
        all.pop().unwrap()
    } else {
        rng.pick(&all).clone()
    }
}

pub fn replaced(t: &[char], a: usize, b: usize, s: &str) -> Vec<char> {
    let mut v = t[..a].to_vec();
    v.extend(s.chars());
    v.extend_from_slice(&t[b..]);
    v
}

/// A valid editor edit and the text it leads to.
pub fn gen_edit(rng: &mut Rng, t: &[char], size: usize) -> (EditorTextDelta, Vec<char>) {
    if rng.chance(3) {
        return (EditorTextDelta(vec![]), t.to_vec());
    }
    let x = rng.below(t.len() + 1);
    let y = if rng.chance(40) { x } else if rng.chance(50) { (x + rng.below(4)).min(t.len()) } else { rng.below(t.len() + 1) };
    let s = if rng.chance(25) { String::new() } else { gen_insert(rng, size) };
    let range = Range { start: gen_pos(rng, t, x), end: gen_pos(rng, t, y) };
    let (a, b) = (x.min(y), x.max(y));
    let u = replaced(t, a, b, &s);
    (EditorTextDelta(vec![EditorTextOp { range, replacement: s }]), u)
}

/// The editor applies all ranges with respect to the text before; None if that is not well defined.
pub fn editor_apply(d: &EditorTextDelta, t: &[char]) -> Result<Vec<char>, String> {
    let mut out = vec![];
    let mut at = 0usize;
    for op in &d.0 {
        let a = pos_offset(t, &op.range.start).ok_or_else(|| format!("position {:?} does not exist", op.range.start))?;
        let b = pos_offset(t, &op.range.end).ok_or_else(|| format!("position {:?} does not exist", op.range.end))?;
        if !(at <= a && a <= b) {
            return Err(format!("ranges out of order: {:?}", d));
        }
        out.extend_from_slice(&t[at..a]);
        out.extend(op.replacement.chars());
        at = b;
    }
    out.extend_from_slice(&t[at..]);
    Ok(out)
}
