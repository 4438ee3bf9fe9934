//! C01 - C04: operational transformation and change conversions.

use automerge::PatchAction;
use contract_replay::text::*;
use contract_replay::*;
use dissimilar::Chunk;
use ethersync::ot::OTServer;
use ethersync::types::*;
use operational_transform::{Operation, OperationSeq};
use std::collections::VecDeque;

fn ops_of(s: &OperationSeq) -> Vec<TextOp> {
    s.ops()
        .iter()
        .map(|o| match o {
            Operation::Retain(n) => TextOp::Retain(*n as usize),
            Operation::Delete(n) => TextOp::Delete(*n as usize),
            Operation::Insert(s) => TextOp::Insert(s.clone()),
        })
        .collect()
}

fn eq(what: &str, got: &[char], want: &[char]) -> Outcome {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {:?}, expected {:?}", string(got), string(want)))
    }
}

/// Editor and daemon with the messages between them (prelude/ot_system.rs).
fn world(rng: &mut Rng, size: usize) -> Outcome {
    let initial = gen_text(rng, size);
    note(format!("open {initial:?}"));
    let mut server = OTServer::new(initial.clone());
    let mut daemon = chars(&initial);
    let mut editor = chars(&initial);
    let (mut made, mut applied) = (0usize, 0usize);
    let mut up: VecDeque<RevisionedEditorTextDelta> = VecDeque::new();
    let mut down: VecDeque<RevisionedEditorTextDelta> = VecDeque::new();
    let steps = 2 + rng.below(2 + 2 * size);
    let mut todo = steps;
    // How eager each side is differs between runs.
    let (w_crdt, w_edit, w_up, w_down) = (1 + rng.below(4), 1 + rng.below(4), 1 + rng.below(4), 1 + rng.below(4));
    loop {
        let draining = todo == 0;
        if draining && up.is_empty() && down.is_empty() {
            break;
        }
        todo = todo.saturating_sub(1);
        let total = w_crdt + w_edit + w_up + w_down;
        let mut x = rng.below(total);
        if draining {
            x = if up.is_empty() || (!down.is_empty() && rng.chance(50)) { total - 1 } else { w_crdt + w_edit };
        }
        if x < w_crdt {
            let delta = gen_delta(rng, daemon.len(), size);
            note(format!("change from elsewhere {delta:?}"));
            let want = apply(&delta.0, &daemon).unwrap();
            let m = server.apply_crdt_change(&delta);
            note(format!("  -> to editor {m:?}"));
            daemon = want;
            down.push_back(m);
        } else if x < w_crdt + w_edit {
            let (delta, after) = gen_edit(rng, &editor, size);
            let e = RevisionedEditorTextDelta { revision: applied, delta };
            note(format!("editor edits {e:?}"));
            editor = after;
            made += 1;
            up.push_back(e);
        } else if x < w_crdt + w_edit + w_up {
            if let Some(e) = up.pop_front() {
                note(format!("daemon handles {e:?}"));
                let (delta, ms) = server.apply_editor_operation(e);
                note(format!("  -> to document {delta:?}, to editor {ms:?}"));
                daemon = apply(&delta.0, &daemon).ok_or_else(|| format!("operation for the document does not fit: {delta:?}"))?;
                down.extend(ms);
            }
        } else if let Some(m) = down.pop_front() {
            if m.revision == made {
                note(format!("editor applies {m:?}"));
                editor = editor_apply(&m.delta, &editor)?;
                applied += 1;
            } else {
                note(format!("editor skips {m:?}"));
            }
        }
        eq("server's text and document", &chars(&server.current_content()), &daemon)?;
    }
    eq("editor's text at the end", &editor, &daemon)
}

/// With up-to-date editors no edit is lost: sequential edits give the sequential result.
fn world_sequential(rng: &mut Rng, size: usize) -> Outcome {
    let initial = gen_text(rng, size);
    note(format!("open {initial:?}"));
    let mut server = OTServer::new(initial.clone());
    let mut text = chars(&initial);
    let mut applied = 0;
    let mut made = 0;
    for _ in 0..1 + rng.below(size + 2) {
        if rng.chance(50) {
            let delta = gen_delta(rng, text.len(), size);
            note(format!("change from elsewhere {delta:?}"));
            let want = apply(&delta.0, &text).unwrap();
            let m = server.apply_crdt_change(&delta);
            note(format!("  -> to editor {m:?}"));
            if m.revision != made {
                return Err(format!("message addressed to revision {} instead of {made}", m.revision));
            }
            eq("editor's text", &editor_apply(&m.delta, &text)?, &want)?;
            applied += 1;
            text = want;
        } else {
            let (delta, after) = gen_edit(rng, &text, size);
            let e = RevisionedEditorTextDelta { revision: applied, delta };
            note(format!("editor edits {e:?}"));
            let (d, ms) = server.apply_editor_operation(e);
            note(format!("  -> to document {d:?}, to editor {ms:?}"));
            if !ms.is_empty() {
                return Err("messages for an editor that is up to date".into());
            }
            made += 1;
            eq("document", &apply(&d.0, &text).ok_or("does not fit")?, &after)?;
            text = after;
        }
        eq("server's text", &chars(&server.current_content()), &text)?;
    }
    Ok(())
}

/// Every interleaving of a few concurrent single-character changes: concurrent inserts both survive.
fn world_concurrent(rng: &mut Rng, size: usize) -> Outcome {
    let initial = gen_text(rng, size);
    note(format!("open {initial:?}"));
    let mut server = OTServer::new(initial.clone());
    let t = chars(&initial);
    let k = 1 + rng.below(3);
    let mut daemon = t.clone();
    let mut count = 0;
    for i in 0..k {
        let at = rng.below(daemon.len() + 1);
        let mut d = TextDelta::default();
        d.retain(at);
        d.insert(&format!("<{i}>"));
        note(format!("change from elsewhere {d:?}"));
        daemon = apply(&d.0, &daemon).unwrap();
        server.apply_crdt_change(&d);
        count += 1;
    }
    let at = rng.below(t.len() + 1);
    let p = gen_pos(rng, &t, at);
    let e = RevisionedEditorTextDelta {
        revision: 0,
        delta: EditorTextDelta(vec![EditorTextOp { range: Range { start: p.clone(), end: p }, replacement: "[e]".into() }]),
    };
    note(format!("daemon handles {e:?}"));
    let (d, ms) = server.apply_editor_operation(e);
    note(format!("  -> to document {d:?}, to editor {ms:?}"));
    if ms.len() != count {
        return Err(format!("{} messages instead of {count}", ms.len()));
    }
    let after = apply(&d.0, &daemon).ok_or("does not fit")?;
    let strip: String = string(&after);
    // Removing what was inserted gives back the initial text, all insertions are there exactly once.
    for i in 0..k {
        if strip.matches(&format!("<{i}>")).count() + initial.matches(&format!("<{i}>")).count() > 1 {
            return Err(format!("insertion {i} duplicated in {strip:?}"));
        }
    }
    if after.len() != daemon.len() + 3 {
        return Err(format!("text {strip:?} has the wrong length"));
    }
    let mut editor = replaced(&t, at, at, "[e]");
    for m in &ms {
        if m.revision != 1 {
            return Err(format!("message addressed to revision {} instead of 1", m.revision));
        }
        editor = editor_apply(&m.delta, &editor)?;
    }
    eq("editor's text", &editor, &after)?;
    eq("server's text", &chars(&server.current_content()), &after)
}

fn from_ed_delta(rng: &mut Rng, size: usize) -> Outcome {
    let text = gen_text(rng, size);
    let t = chars(&text);
    let (delta, after) = gen_edit(rng, &t, size);
    note(format!("text {text:?}\nedit {delta:?}"));
    let d = TextDelta::from_ed_delta(delta.clone(), &text);
    note(format!("change {d:?}"));
    eq("changed text", &apply(&d.0, &t).ok_or("change does not fit the text")?, &after)?;
    if let Some(op) = delta.0.first() {
        let a = pos_offset(&t, &op.range.start).unwrap();
        let b = pos_offset(&t, &op.range.end).unwrap();
        // Precisely these characters: the same change on a text of distinct characters.
        let marks: Vec<char> = (0..t.len()).map(|i| char::from_u32(0x4e00 + i as u32).unwrap()).collect();
        eq("characters touched", &apply(&d.0, &marks).ok_or("does not fit")?, &replaced(&marks, a.min(b), a.max(b), &op.replacement))?;
        let (at, len) = op.range.as_relative(&text);
        if (at, len) != (a.min(b), a.max(b) - a.min(b)) {
            return Err(format!("as_relative gives {:?}", (at, len)));
        }
        if op.range.is_empty() != (op.range.start == op.range.end) {
            return Err("is_empty".into());
        }
    }
    let rev = rng.below(5);
    let r = RevisionedTextDelta::from_rev_ed_delta(RevisionedEditorTextDelta { revision: rev, delta }, &text);
    if r.revision != rev || r.delta != d {
        return Err(format!("from_rev_ed_delta gives {r:?}"));
    }
    Ok(())
}

/// The edit changes the same characters when it travels through a server.
fn edit_through_server(rng: &mut Rng, size: usize) -> Outcome {
    let text = gen_text(rng, size);
    let t = chars(&text);
    let (delta, after) = gen_edit(rng, &t, size);
    note(format!("text {text:?}\nedit {delta:?}"));
    let mut s = OTServer::new(text);
    let (d, _) = s.apply_editor_operation(RevisionedEditorTextDelta { revision: 0, delta });
    eq("document", &apply(&d.0, &t).ok_or("does not fit")?, &after)?;
    eq("server", &chars(&s.current_content()), &after)
}

fn to_editor(rng: &mut Rng, size: usize) -> Outcome {
    let text = gen_text(rng, size);
    let t = chars(&text);
    let delta = gen_delta(rng, t.len(), size);
    note(format!("text {text:?}\nchange {delta:?}"));
    let want = apply(&delta.0, &t).unwrap();
    let ed = EditorTextDelta::from_delta(delta.clone(), &text);
    note(format!("edits {ed:?}"));
    eq("text after the edits", &editor_apply(&ed, &t)?, &want)?;
    // The range edits denote precisely the steps of the change, on texts of distinct characters too.
    let mut s = OTServer::new(text.clone());
    let m = s.apply_crdt_change(&delta);
    if m.delta != ed {
        return Err(format!("server sends {m:?}"));
    }
    for op in &ed.0 {
        for p in [&op.range.start, &op.range.end] {
            // Offset and back.
            let n = pos_offset(&t, p).unwrap();
            let (at, len) = Range { start: p.clone(), end: p.clone() }.as_relative(&text);
            if (at, len) != (n, 0) {
                return Err(format!("position {p:?} has offset {n}, converted back to {at}"));
            }
        }
    }
    Ok(())
}

fn positions(rng: &mut Rng, size: usize) -> Outcome {
    let text = gen_text(rng, size);
    let t = chars(&text);
    note(format!("text {text:?}"));
    for n in 0..=t.len() {
        let mut d = TextDelta::default();
        d.retain(n);
        d.insert("x");
        let ed = EditorTextDelta::from_delta(d, &text);
        if ed.0.len() != 1 {
            return Err(format!("{ed:?}"));
        }
        let r = &ed.0[0].range;
        if r.start != r.end || pos_offset(&t, &r.start) != Some(n) {
            return Err(format!("offset {n} became {r:?}"));
        }
        if r.as_relative(&text) != (n, 0) {
            return Err(format!("{r:?} read back as {:?}", r.as_relative(&text)));
        }
    }
    Ok(())
}

fn builders(rng: &mut Rng, size: usize) -> Outcome {
    let text = gen_text(rng, size);
    let t = chars(&text);
    let mut ops = gen_ops(rng, t.len(), size);
    for i in (0..ops.len()).rev() {
        if rng.chance(20) {
            ops.insert(i, match rng.below(3) { 0 => TextOp::Retain(0), 1 => TextOp::Delete(0), _ => TextOp::Insert(String::new()) });
        }
    }
    note(format!("text {text:?}\nsteps {ops:?}"));
    let mut d = TextDelta::default();
    for op in &ops {
        match op {
            TextOp::Retain(n) => d.retain(*n),
            TextOp::Insert(s) => d.insert(s),
            TextOp::Delete(n) => d.delete(*n),
        }
    }
    eq("built", &apply(&d.0, &t).ok_or("does not fit")?, &apply(&ops, &t).unwrap())
}

fn conversions(rng: &mut Rng, size: usize) -> Outcome {
    let text = gen_text(rng, size);
    let t = chars(&text);
    let delta = gen_delta(rng, t.len(), size);
    note(format!("text {text:?}\nchange {delta:?}"));
    let want = apply(&delta.0, &t).unwrap();
    let seq: OperationSeq = delta.clone().into();
    eq("operation sequence", &apply(&ops_of(&seq), &t).ok_or("does not fit")?, &want)?;
    let back: TextDelta = seq.into();
    eq("and back", &apply(&back.0, &t).ok_or("does not fit")?, &want)?;
    let patches: Vec<PatchAction> = delta.into();
    note(format!("patches {patches:?}"));
    let mut u = t.clone();
    for p in patches {
        match p {
            PatchAction::SpliceText { index, value, .. } => {
                if index > u.len() {
                    return Err(format!("splice at {index} beyond the text"));
                }
                u = replaced(&u, index, index, &value.make_string());
            }
            PatchAction::DeleteSeq { index, length } => {
                if index + length > u.len() {
                    return Err(format!("delete {index}+{length} beyond the text"));
                }
                u = replaced(&u, index, index + length, "");
            }
            other => return Err(format!("unexpected action {other:?}")),
        }
    }
    eq("patch actions", &u, &want)
}

fn chunks(rng: &mut Rng, size: usize) -> Outcome {
    let a = gen_text(rng, size);
    let mut b = gen_text(rng, size);
    if rng.chance(60) {
        let t = chars(&a);
        let d = gen_ops(rng, t.len(), size);
        b = string(&apply(&d, &t).unwrap());
    }
    note(format!("from {a:?}\nto {b:?}"));
    let c: Vec<Chunk> = dissimilar::diff(&a, &b);
    note(format!("diff {c:?}"));
    let d: TextDelta = c.into();
    eq("diff as change", &apply(&d.0, &chars(&a)).ok_or("does not fit")?, &chars(&b))
}

/// Chunks in any order, not only what the diff library produces.
fn chunks_any(rng: &mut Rng, size: usize) -> Outcome {
    let strings: Vec<String> = (0..1 + rng.below(size + 1)).map(|_| gen_insert(rng, size)).collect();
    let kinds: Vec<usize> = strings.iter().map(|_| rng.below(3)).collect();
    let mut a = String::new();
    let mut b = String::new();
    let mut v = vec![];
    for (s, k) in strings.iter().zip(&kinds) {
        match k {
            0 => {
                a.push_str(s);
                b.push_str(s);
                v.push(Chunk::Equal(s));
            }
            1 => {
                a.push_str(s);
                v.push(Chunk::Delete(s));
            }
            _ => {
                b.push_str(s);
                v.push(Chunk::Insert(s));
            }
        }
    }
    note(format!("chunks {v:?}"));
    let d: TextDelta = v.into();
    eq("chunks as change", &apply(&d.0, &chars(&a)).ok_or("does not fit")?, &chars(&b))
}

fn compose(rng: &mut Rng, size: usize) -> Outcome {
    let text = gen_text(rng, size);
    let t = chars(&text);
    let a = gen_delta(rng, t.len(), size);
    let u = apply(&a.0, &t).unwrap();
    let b = gen_delta(rng, u.len(), size);
    let want = apply(&b.0, &u).unwrap();
    note(format!("text {text:?}\nfirst {a:?}\nsecond {b:?}"));
    let c = a.compose(b);
    note(format!("composed {c:?}"));
    eq("composed", &apply(&c.0, &t).ok_or("does not fit")?, &want)
}

fn patches(rng: &mut Rng, size: usize) -> Outcome {
    use automerge::{transaction::Transactable, AutoCommit, ObjType, ROOT};
    // The change a sync patch stands for, applied to the text before, gives the text after.
    let text = gen_text(rng, size);
    let t = chars(&text);
    let mut doc = AutoCommit::new();
    let files = doc.put_object(ROOT, "files", ObjType::Map).unwrap();
    let obj = doc.put_object(&files, "f", ObjType::Text).unwrap();
    doc.splice_text(&obj, 0, 0, &text).unwrap();
    doc.update_diff_cursor();
    let mut cur = t.clone();
    for _ in 0..1 + rng.below(4) {
        let at = rng.below(cur.len() + 1);
        let del = rng.below(3).min(cur.len() - at);
        let ins = if rng.chance(40) { String::new() } else { gen_insert(rng, size) };
        doc.splice_text(&obj, at, del as isize, &ins).unwrap();
        cur = replaced(&cur, at, at + del, &ins);
    }
    note(format!("text {text:?}\nto {:?}", string(&cur)));
    let ps = doc.diff_incremental();
    note(format!("patches {ps:?}"));
    let mut u = t;
    for e in PatchEffect::from_crdt_patches(ps) {
        match e {
            PatchEffect::FileChange(c) => {
                if c.file_path != ethersync::path::RelativePath::new("f") {
                    return Err(format!("path {:?}", c.file_path));
                }
                u = apply(&c.delta.0, &u).ok_or("does not fit")?;
            }
            _ => return Err("unexpected effect".into()),
        }
    }
    eq("effects", &u, &cur)
}

/// A text editor that breaks lines at line feeds only (Neovim), text with a form feed.
fn known_line_breaks() -> Outcome {
    let text = "a\u{c}bcd";
    let p = Position { line: 0, character: 3 };
    let ed = EditorTextDelta(vec![EditorTextOp { range: Range { start: p.clone(), end: p }, replacement: "X".into() }]);
    let d = guarded(|| TextDelta::from_ed_delta(ed, text))?;
    eq("changed text", &apply(&d.0, &chars(text)).ok_or("does not fit")?, &chars("a\u{c}bXcd"))
}

fn main() {
    let t = |property, name, max_size, run| Test { property, name, max_size, run };
    harness_main(
        &[
            t("C01", "world", 14, world as fn(&mut Rng, usize) -> Outcome),
            t("C01", "world_sequential", 14, world_sequential),
            t("C01", "world_concurrent", 10, world_concurrent),
            t("C02", "from_ed_delta", 24, from_ed_delta),
            t("C02", "edit_through_server", 24, edit_through_server),
            t("C03", "to_editor", 24, to_editor),
            t("C03", "positions", 40, positions),
            t("C04", "builders", 16, builders),
            t("C04", "conversions", 16, conversions),
            t("C04", "chunks", 16, chunks),
            t("C04", "chunks_any", 10, chunks_any),
            t("C04", "compose", 16, compose),
            t("C04", "patches", 16, patches),
        ],
        &[Known { property: "C02", id: "line-breaks-other-than-lf", run: known_line_breaks }],
    )
}
