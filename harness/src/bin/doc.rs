//! C05 (and the document's part of C20, C21): `Document` against a plain map of texts.

use automerge::ReadDoc;
use contract_replay::text::*;
use contract_replay::*;
use ethersync::document::Document;
use ethersync::path::RelativePath;
use ethersync::types::{Position, Range};
use std::collections::BTreeMap;

const FILES: &[&str] = &["a", "a/b", "b", "d/a", "d/b", "files", "states", "ü", "A", "a "];

type Shared = BTreeMap<String, Vec<char>>;

fn compare(doc: &Document, want: &Shared) -> Outcome {
    for f in FILES {
        let p = RelativePath::new(f);
        let got = doc.current_file_content(&p);
        match (got, want.get(*f)) {
            (Ok(g), Some(w)) if chars(&g) == *w => {}
            (Err(_), None) => {}
            (g, w) => return Err(format!("file {f}: text {:?}, expected {:?}", g.ok(), w.map(|w| string(w)))),
        }
        if doc.file_exists(&p) != want.contains_key(*f) {
            return Err(format!("file {f}: existence is {}", doc.file_exists(&p)));
        }
    }
    let mut names: Vec<String> = doc.files().iter().map(|p| p.display().to_string()).collect();
    names.sort();
    let expect: Vec<String> = want.keys().cloned().collect();
    if names != expect {
        return Err(format!("files {names:?}, expected {expect:?}"));
    }
    Ok(())
}

fn gen_ranges(rng: &mut Rng) -> Vec<Range> {
    (0..rng.below(3))
        .map(|_| Range {
            start: Position { line: rng.below(4), character: rng.below(9) },
            end: Position { line: rng.below(4), character: rng.below(9) },
        })
        .collect()
}

fn step(rng: &mut Rng, size: usize, doc: &mut Document, want: &mut Shared) {
    let few = 2 + rng.below(FILES.len() - 1);
    let f = FILES[rng.below(few)];
    let p = RelativePath::new(f);
    match rng.below(8) {
        0 | 1 => {
            let t = gen_text(rng, size);
            note(format!("initialize {f} {t:?}"));
            doc.initialize_text(&t, &p);
            want.insert(f.into(), chars(&t));
        }
        2 => {
            note(format!("remove {f}"));
            doc.remove_text(&p);
            want.remove(f);
        }
        3 | 4 => {
            let t = match want.get(f) {
                Some(old) if rng.chance(60) => {
                    let old = old.clone();
                    let d = gen_delta(rng, old.len(), size);
                    string(&apply(&d.0, &old).unwrap())
                }
                _ => gen_text(rng, size),
            };
            note(format!("update {f} {t:?}"));
            doc.update_text(&t, &p);
            want.insert(f.into(), chars(&t));
        }
        _ => {
            if let Some(t) = want.get(f).cloned() {
                let d = gen_delta(rng, t.len(), size);
                note(format!("apply {f} {:?} to {:?}", d.0, string(&t)));
                doc.apply_delta_to_doc(&d, &p);
                want.insert(f.into(), apply(&d.0, &t).unwrap());
            }
        }
    }
}

fn changes(rng: &mut Rng, size: usize) -> Outcome {
    let mut doc = Document::default();
    let mut want = Shared::new();
    compare(&doc, &want)?;
    for _ in 0..1 + rng.below(3 + size / 2) {
        step(rng, size, &mut doc, &mut want);
        compare(&doc, &want)?;
    }
    Ok(())
}

/// Full save and increments restore what was there at each save.
fn saved(rng: &mut Rng, size: usize) -> Outcome {
    let mut doc = Document::default();
    let mut want = Shared::new();
    let mut bytes: Option<Vec<u8>> = None;
    for _ in 0..2 + rng.below(3 + size / 2) {
        if rng.chance(60) {
            step(rng, size, &mut doc, &mut want);
        } else {
            match &mut bytes {
                None => {
                    note("save");
                    bytes = Some(doc.save());
                }
                Some(b) => {
                    note("save_incremental");
                    b.extend(doc.save_incremental());
                }
            }
            compare(&Document::load(bytes.as_ref().unwrap()), &want).map_err(|e| format!("after loading: {e}"))?;
            compare(&doc, &want)?;
        }
    }
    Ok(())
}

fn states(doc: &mut Document) -> BTreeMap<String, String> {
    let am = automerge::AutoCommit::load(&doc.save()).unwrap();
    let (_, map) = am.get(automerge::ROOT, "states").unwrap().unwrap();
    let keys: Vec<String> = am.keys(&map).collect();
    keys.into_iter()
        .map(|k| {
            let (_, o) = am.get(&map, k.as_str()).unwrap().unwrap();
            let t = am.text(&o).unwrap();
            (k, t)
        })
        .collect()
}

/// Cursors are stored as given and affect nothing else.
fn cursors(rng: &mut Rng, size: usize) -> Outcome {
    let mut doc = Document::default();
    let mut want = Shared::new();
    let mut cur: BTreeMap<String, String> = BTreeMap::new();
    for _ in 0..2 + rng.below(3 + size / 2) {
        if rng.chance(40) {
            step(rng, size, &mut doc, &mut want);
        } else {
            let id = *rng.pick(&["x-0", "x-1", "x-10", "y-0"]);
            if rng.chance(25) {
                note(format!("delete cursor {id}"));
                doc.maybe_delete_cursor_position(id);
                let now = states(&mut doc);
                if now == cur && want.is_empty() {
                    continue;
                }
                let got: serde_json::Value = now.get(id).and_then(|t| serde_json::from_str(t).ok()).unwrap_or_default();
                if got["ranges"] != serde_json::json!([]) || got["cursor_id"] != serde_json::json!(id) {
                    return Err(format!("deleting cursor {id} left {got}"));
                }
                cur.insert(id.into(), now[id].clone());
            } else {
                let f = *rng.pick(FILES);
                let ranges = gen_ranges(rng);
                let name = rng.chance(50).then(|| gen_text(rng, 3));
                note(format!("cursor {id} {name:?} {f} {ranges:?}"));
                doc.store_cursor_position(id, name.clone(), &RelativePath::new(f), ranges.clone());
                let now = states(&mut doc);
                let got: serde_json::Value = now.get(id).and_then(|t| serde_json::from_str(t).ok()).unwrap_or_default();
                let expect = serde_json::json!({"cursor_id": id, "name": name, "file_path": f,
                    "ranges": ranges.iter().map(|r| serde_json::json!({
                        "start": {"line": r.start.line, "character": r.start.character},
                        "end": {"line": r.end.line, "character": r.end.character}})).collect::<Vec<_>>()});
                if got != expect {
                    return Err(format!("stored {got}, expected {expect}"));
                }
                cur.insert(id.into(), now[id].clone());
            }
        }
        compare(&doc, &want)?;
        let now = states(&mut doc);
        if now != cur {
            return Err(format!("cursors {now:?}, expected {cur:?}"));
        }
    }
    Ok(())
}

fn main() {
    harness_main(
        &[
            Test { property: "C05", name: "changes", max_size: 14, run: changes },
            Test { property: "C05", name: "files-and-cursors", max_size: 8, run: cursors },
            Test { property: "C20", name: "save-load", max_size: 10, run: saved },
            Test { property: "C21", name: "stored-cursors", max_size: 8, run: cursors },
        ],
        &[],
    )
}
