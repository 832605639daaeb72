//! A dump: a file with one record per line and a file of boundaries beside it.
//! They are read and written here without the code under test.
use crate::enc::*;
use rocksdb::hooks;
use serde::Deserialize;
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

#[derive(Deserialize)]
#[serde(deny_unknown_fields)]
struct Key {
    phrase_id: u32,
    lang_set: u128,
}
#[derive(Deserialize)]
#[serde(deny_unknown_fields)]
struct Entry {
    relev: f64,
    score: u8,
    x: u16,
    y: u16,
    id: u32,
    source_phrase_hash: u8,
}
#[derive(Deserialize)]
#[serde(deny_unknown_fields)]
struct Record {
    grid_key: Key,
    entries: Vec<Entry>,
}

fn lines_path(dir: &Path, f: &Value) -> PathBuf {
    dir.join(format!("{}.gridstore.dat", f.as_str().unwrap()))
}
fn splits_path(dir: &Path, f: &Value) -> PathBuf {
    dir.join(format!("{}.gridstore.splits", f.as_str().unwrap()))
}

/// what the files say; null: nothing that can be understood
fn read_lines(path: &Path) -> Option<Value> {
    let text = std::fs::read_to_string(path).ok()?;
    if !text.is_empty() && !text.ends_with('\n') {
        return None;
    }
    let mut out = Vec::new();
    for line in text.lines() {
        let r: Record = serde_json::from_str(line).ok()?;
        let es: Vec<Value> = r
            .entries
            .iter()
            .map(|e| {
                json!({"r": micro_out(e.relev), "s": e.score, "x": e.x, "y": e.y, "id": u32_out(e.id),
                       "h": e.source_phrase_hash})
            })
            .collect();
        out.push(json!({"key": {"p": u32_out(r.grid_key.phrase_id), "l": lang_out(r.grid_key.lang_set)}, "entries": es}));
    }
    Some(json!(out))
}
fn read_splits(path: &Path) -> Option<Value> {
    let v: Vec<u32> = serde_json::from_str(&std::fs::read_to_string(path).ok()?).ok()?;
    Some(json!(v.into_iter().map(u32_out).collect::<Vec<_>>()))
}

pub fn step(dir: &Path, step: &Value) -> Option<Value> {
    let before = hooks::counts();
    let mut out = match step["e"].as_str().unwrap() {
        "dump" => {
            let (lines, splits) = (lines_path(dir, &step["f"]), splits_path(dir, &step["f"]));
            // a file on a device that takes no data
            match step["full"].as_str() {
                Some("lines") => std::os::unix::fs::symlink("/dev/full", &lines).unwrap(),
                Some("splits") => std::os::unix::fs::symlink("/dev/full", &splits).unwrap(),
                _ => (),
            }
            let db = dir.join(step["b"].as_str().unwrap());
            let ok = catch_unwind(AssertUnwindSafe(|| {
                test_utils::dump_db_to_json(db.to_str().unwrap(), lines.to_str().unwrap())
            }))
            .is_ok();
            let mut out = json!({"ok": ok});
            if step.get("full").is_none() {
                let (l, s) = (read_lines(&lines), read_splits(&splits));
                out["readable"] = json!(l.is_some() && s.is_some());
                out["lines"] = l.unwrap_or(json!([]));
                out["splits"] = s.unwrap_or(json!([]));
            } else {
                let _ = std::fs::remove_file(&lines);
                let _ = std::fs::remove_file(&splits);
                // how much was to be written there
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    test_utils::dump_db_to_json(db.to_str().unwrap(), lines.to_str().unwrap())
                }));
                let there = if step["full"] == "lines" { &lines } else { &splits };
                out["lost"] = json!(std::fs::metadata(there).map_or(0, |m| m.len()));
            }
            out
        }
        // files that come from elsewhere
        "written" => {
            let mut text = String::new();
            for r in step["lines"].as_array().unwrap() {
                if r.get("key").is_some() {
                    let k = key_in(&r["key"]);
                    let es: Vec<String> = entries_in(&r["entries"])
                        .iter()
                        .map(|e| {
                            let mut parts = vec![
                                format!("\"relev\":{}", if e.relev == 1.0 { "1.0".to_string() } else { e.relev.to_string() }),
                                format!("\"score\":{}", e.score),
                                format!("\"x\":{}", e.x),
                                format!("\"y\":{}", e.y),
                                format!("\"id\":{}", e.id),
                                format!("\"source_phrase_hash\":{}", e.source_phrase_hash),
                            ];
                            if step["turned"] == true {
                                parts.reverse();
                            }
                            format!("{{{}}}", parts.join(", "))
                        })
                        .collect();
                    text += &format!(
                        "{{\"grid_key\": {{\"phrase_id\":{}, \"lang_set\":{}}}, \"entries\": [{}]}}",
                        k.phrase_id,
                        k.lang_set,
                        es.join(",")
                    );
                }
                text.push('\n');
            }
            if step["unended"] == true {
                text.pop();
            }
            std::fs::File::create(lines_path(dir, &step["f"])).unwrap().write_all(text.as_bytes()).unwrap();
            let splits: Vec<u32> = step["splits"].as_array().unwrap().iter().map(u32_in).collect();
            std::fs::write(splits_path(dir, &step["f"]), format!("{:?}", splits)).unwrap();
            json!({})
        }
        "load" => {
            let db = dir.join(step["b"].as_str().unwrap());
            let ok = catch_unwind(AssertUnwindSafe(|| {
                test_utils::load_db_from_json(
                    lines_path(dir, &step["f"]).to_str().unwrap(),
                    splits_path(dir, &step["f"]).to_str().unwrap(),
                    db.to_str().unwrap(),
                )
            }))
            .is_ok();
            json!({"ok": ok})
        }
        _ => return None,
    };
    let now = hooks::counts();
    out["writes"] = json!(now.0 - before.0);
    out["gets"] = json!(now.1 - before.1);
    out["opens"] = json!(now.2 - before.2);
    Some(out)
}
