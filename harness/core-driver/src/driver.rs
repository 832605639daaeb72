//! Plays scenarios on carmen-core and records what it did.
//! usage: core-driver SCENARIOS.ndjson TRACE.ndjson WORKDIR
//!
//! A scenario is {"steps": [{"e": command, ...}, ...]}; each step leaves one event, the step itself
//! with its results added. Nothing here decides what is right.
use crate::ops;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

fn message(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default()
}

/// What a driver does with steps of its own.
pub type Extra = fn(&Path, &Value) -> Option<Value>;

fn play(scn: &Value, dir: PathBuf, extra: Extra, emit: &mut dyn FnMut(Value)) {
    rocksdb::hooks::reset();
    emit(json!({"e": "begin"}));
    let mut world = ops::World::new(dir.clone());
    let mut todo: std::collections::VecDeque<Value> =
        scn["steps"].as_array().unwrap().iter().cloned().collect();
    while let Some(step) = todo.pop_front() {
        let step = &step;
        // questions to a store that may not be open
        if step["e"] == "asking" {
            if world.is_open(&step["s"]) {
                for sub in step["steps"].as_array().unwrap().iter().rev() {
                    let mut sub = sub.clone();
                    sub["s"] = step["s"].clone();
                    todo.push_front(sub);
                }
            }
            continue;
        }
        let res = catch_unwind(AssertUnwindSafe(|| extra(&dir, step).unwrap_or_else(|| world.step(step))));
        match res {
            Ok(mut results) => {
                let ev = results.as_object_mut().unwrap();
                for (k, v) in step.as_object().unwrap() {
                    ev.entry(k.clone()).or_insert_with(|| v.clone());
                }
                emit(results)
            }
            Err(e) => {
                emit(json!({"e": "panic", "step": step["e"], "msg": message(e)}));
                // what a panic may have left poisoned or half done is not looked at again
                std::mem::forget(world);
                return;
            }
        }
    }
    emit(json!({"e": "end"}));
}

pub fn run(extra: Extra) {
    let args: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(
        std::fs::File::create(&args[2]).unwrap(),
    )));
    let work = PathBuf::from(&args[3]);
    std::panic::set_hook(Box::new(|_| {}));
    for (n, line) in input.lines().enumerate() {
        let scn: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let put = {
            let out = out.clone();
            move |mut v: Value| {
                v["scn"] = json!(n);
                let mut o = out.lock().unwrap();
                serde_json::to_writer(&mut *o, &v).unwrap();
                o.write_all(b"\n").unwrap();
                o.flush().unwrap();
            }
        };
        // in a thread of its own, so that a hang is seen as one
        let (tx, rx) = std::sync::mpsc::channel();
        let mut emit = put.clone();
        let dir = work.join(n.to_string());
        std::fs::create_dir_all(&dir).unwrap();
        let d = dir.clone();
        let limit = scn["limit_s"].as_u64().unwrap_or(20);
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                play(&scn, d, extra, &mut emit);
                let _ = tx.send(());
            })
            .unwrap();
        match rx.recv_timeout(std::time::Duration::from_secs(limit)) {
            Ok(()) => {
                let _ = std::fs::remove_dir_all(&dir);
            }
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                put(json!({"e": "hang"}));
                std::process::exit(0);
            }
            Err(_) => {
                eprintln!("scenario {} is not well-formed", n);
                std::process::exit(2);
            }
        }
    }
}
