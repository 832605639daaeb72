//! Plays scenarios on the record format of carmen-core and records what it did.
//! usage: fmt-driver SCENARIOS.ndjson TRACE.ndjson
#![allow(dead_code, deprecated)]

#[path = "/repo/rust-src/src/gridstore/gridstore_format.rs"]
pub mod gridstore_format;

use gridstore_format::*;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Run-length coding of a sequence: [[count, value], ...]
fn rle<T: PartialEq>(it: impl Iterator<Item = T>, f: impl Fn(T) -> Value) -> Value {
    let mut out: Vec<(u64, T)> = Vec::new();
    for v in it {
        match out.last_mut() {
            Some((n, w)) if *w == v => *n += 1,
            _ => out.push((1, v)),
        }
    }
    Value::Array(out.into_iter().map(|(n, v)| json!([n, f(v)])).collect())
}

/// A value that long lists repeat; compared by identity first.
#[derive(Clone)]
struct Shared(Rc<Value>);
impl PartialEq for Shared {
    fn eq(&self, o: &Self) -> bool {
        Rc::ptr_eq(&self.0, &o.0) || self.0 == o.0
    }
}

fn unrle(v: &Value) -> Vec<Value> {
    let mut out = Vec::new();
    for e in v.as_array().unwrap() {
        for _ in 0..e[0].as_u64().unwrap() {
            out.push(e[1].clone());
        }
    }
    out
}

fn digits(n: u32) -> Value {
    let b = n.to_le_bytes();
    json!([b[0], b[1], b[2], b[3]])
}

fn undigits(v: &Value) -> u32 {
    let d = |i: usize| v[i].as_u64().unwrap() as u32;
    d(0) | d(1) << 8 | d(2) << 16 | d(3) << 24
}

/// Bytes as segments: runs of 16 and more equal bytes, literals of at most 512 for the rest.
fn segments(b: &[u8]) -> Value {
    let mut out = Vec::new();
    let mut at = 0;
    let mut lit = 0;
    let flush = |from: usize, to: usize, out: &mut Vec<Value>| {
        let mut f = from;
        while f < to {
            let t = to.min(f + 512);
            out.push(json!({"s": f, "n": t - f, "b": -1, "lit": &b[f..t]}));
            f = t;
        }
    };
    while at < b.len() {
        let mut n = 1;
        while at + n < b.len() && b[at + n] == b[at] {
            n += 1;
        }
        if n >= 16 {
            flush(lit, at, &mut out);
            out.push(json!({"s": at, "n": n, "b": b[at], "lit": []}));
            lit = at + n;
        }
        at += n;
    }
    flush(lit, b.len(), &mut out);
    Value::Array(out)
}

fn unsegments(v: &Value) -> Vec<u8> {
    let mut out = Vec::new();
    for s in v.as_array().unwrap() {
        if s["b"].as_i64().unwrap() >= 0 {
            let b = s["b"].as_i64().unwrap() as u8;
            out.extend(std::iter::repeat(b).take(s["n"].as_u64().unwrap() as usize));
        } else {
            out.extend(s["lit"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8));
        }
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Route {
    Iter,
    Into,
    Get,
    RawIter,
    RawInto,
    RawGet,
    GetBack,
}
use Route::*;
const ROUTES: [Route; 7] = [Iter, Into, Get, RawIter, RawInto, RawGet, GetBack];

struct Doc {
    reader: Reader<Vec<u8>>,
    bytes: Vec<u8>,
}

fn listed(len: usize, items: Vec<Shared>) -> Value {
    json!({"len": len, "items": rle(items.into_iter(), |v| (*v.0).clone())})
}

fn read_ids(d: &Doc, off: FixedVecOffset<u32>, r: Route) -> Value {
    let v = match r {
        RawIter | RawInto | RawGet => read_fixed_vec_raw(&d.bytes, off),
        _ => d.reader.read_fixed_vec(off),
    };
    let len = v.len();
    let items: Vec<u32> = match r {
        Iter | RawIter => v.iter().collect(),
        Into | RawInto => v.into_iter().collect(),
        Get | RawGet => (0..len).map(|i| v.get(i)).collect(),
        GetBack => {
            let mut x: Vec<_> = (0..len).rev().map(|i| v.get(i)).collect();
            x.reverse();
            x
        }
    };
    json!({"len": len, "items": rle(items.into_iter(), digits)})
}

fn read_tiles(d: &Doc, off: UniformVecOffset<Coord>, r: Route) -> Value {
    let v = match r {
        RawIter | RawInto | RawGet => read_uniform_vec_raw(&d.bytes, off),
        _ => d.reader.read_uniform_vec(off),
    };
    let len = v.len();
    let items: Vec<Coord> = match r {
        Iter | RawIter => v.iter().collect(),
        Into | RawInto => v.into_iter().collect(),
        Get | RawGet => (0..len).map(|i| v.get(i)).collect(),
        GetBack => {
            let mut x: Vec<_> = (0..len).rev().map(|i| v.get(i)).collect();
            x.reverse();
            x
        }
    };
    let big = items.len() > 4096;
    let mut last: Option<(u32, Shared)> = None;
    let vals = items
        .into_iter()
        .map(|c| {
            // a long list of equal tiles: resolve the shared ids once
            if big {
                if let Some((coord, v)) = &last {
                    if *coord == c.coord {
                        return v.clone();
                    }
                }
            }
            let v = Shared(Rc::new(json!({"coord": digits(c.coord), "ids": read_ids(d, c.ids, r)})));
            last = Some((c.coord, v.clone()));
            v
        })
        .collect();
    listed(len, vals)
}

fn read_groups(d: &Doc, off: VarVecOffset<RelevScore>, r: Route) -> Value {
    let v = match r {
        RawIter | RawInto | RawGet => read_var_vec_raw(&d.bytes, off),
        _ => d.reader.read_var_vec(off),
    };
    let len = v.len();
    let items: Vec<RelevScore> = match r {
        Iter | RawIter | Get => v.iter().collect(),
        _ => v.into_iter().collect(),
    };
    let mut last: Option<(u8, Shared)> = None;
    let big = items.len() > 512;
    let vals = items
        .into_iter()
        .map(|g| {
            if big {
                if let Some((rs, v)) = &last {
                    if *rs == g.relev_score {
                        return v.clone();
                    }
                }
            }
            let v = Shared(Rc::new(json!({"rs": g.relev_score, "tiles": read_tiles(d, g.coords, r)})));
            last = Some((g.relev_score, v.clone()));
            v
        })
        .collect();
    listed(len, vals)
}

/// What the routes yield, with the routes that agree put together.
fn by_route(f: impl Fn(Route) -> Value) -> Value {
    let mut out: Vec<(Vec<String>, Value)> = Vec::new();
    for r in ROUTES.iter() {
        let v = f(*r);
        let name = format!("{:?}", r);
        match out.iter_mut().find(|e| e.1 == v) {
            Some(e) => e.0.push(name),
            None => out.push((vec![name], v)),
        }
    }
    Value::Array(out.into_iter().map(|(r, v)| json!({"routes": r, "v": v})).collect())
}

/// Positions of group lists cannot be copied (their element type cannot), though they are plain data.
fn again(o: &VarVecOffset<RelevScore>) -> VarVecOffset<RelevScore> {
    unsafe { std::ptr::read(o) }
}

enum Off {
    Ids(FixedVecOffset<u32>),
    Tiles(UniformVecOffset<Coord>),
    Groups(VarVecOffset<RelevScore>),
    Root,
}

/// Emits one event per list as it is written, then what the finished record reads back as.
fn write_record(scn: &Value, emit: &mut dyn FnMut(Value)) {
    let mut w = Writer::new();
    let mut offs: Vec<Off> = Vec::new();
    emit(json!({"e": "begin"}));
    for op in scn["ops"].as_array().unwrap() {
        let at = |v: &Value| &offs[v.as_u64().unwrap() as usize - 1];
        let kind = op["op"].as_str().unwrap();
        let off = match kind {
            "ids" => {
                let ids: Vec<u32> = unrle(&op["val"]).iter().map(undigits).collect();
                Off::Ids(w.write_fixed_vec(&ids))
            }
            "tiles" => {
                let ts: Vec<Coord> = unrle(&op["val"])
                    .iter()
                    .map(|t| Coord {
                        coord: undigits(&t["coord"]),
                        ids: match at(&t["ref"]) {
                            Off::Ids(o) => *o,
                            _ => panic!("scenario: not an id list"),
                        },
                    })
                    .collect();
                Off::Tiles(w.write_uniform_vec(&ts))
            }
            "groups" => {
                let gs: Vec<RelevScore> = unrle(&op["val"])
                    .iter()
                    .map(|g| RelevScore {
                        relev_score: g["rs"].as_u64().unwrap() as u8,
                        coords: match at(&g["ref"]) {
                            Off::Tiles(o) => *o,
                            _ => panic!("scenario: not a tile list"),
                        },
                    })
                    .collect();
                Off::Groups(w.write_var_vec(&gs))
            }
            "root" => {
                let o = match at(&op["val"]) {
                    Off::Groups(o) => again(o),
                    _ => panic!("scenario: not a group list"),
                };
                w.write_fixed_scalar(PhraseRecord { relev_scores: o });
                Off::Root
            }
            o => panic!("scenario: {}", o),
        };
        offs.push(off);
        emit(json!({"e": "list", "kind": kind, "val": op["val"]}));
    }
    let bytes = w.finish();
    let d = Doc { reader: Reader::new(bytes.clone()), bytes };
    let objs: Vec<Value> = offs
        .iter()
        .map(|o| match o {
            Off::Ids(o) => by_route(|r| read_ids(&d, *o, r)),
            Off::Tiles(o) => by_route(|r| read_tiles(&d, *o, r)),
            Off::Groups(o) => by_route(|r| read_groups(&d, again(o), r)),
            Off::Root => by_route(|r| {
                read_groups(&d, read_phrase_record_from(&d.reader).relev_scores, r)
            }),
        })
        .collect();
    emit(json!({"e": "finish", "len": d.bytes.len(), "mem": segments(&d.bytes), "objs": objs}));
}

fn read_record(scn: &Value, emit: &mut dyn FnMut(Value)) {
    let bytes = unsegments(&scn["mem"]);
    let d = Doc { reader: Reader::new(bytes.clone()), bytes };
    emit(json!({"e": "begin"}));
    let rec = by_route(|r| read_groups(&d, read_phrase_record_from(&d.reader).relev_scores, r));
    emit(json!({"e": "read", "len": d.bytes.len(), "mem": scn["mem"], "meant": scn["meant"], "rec": rec}));
}

/// Scalars written one after another and read back at the positions handed out.
#[cfg(feature = "scalars")]
fn scalars(scn: &Value, emit: &mut dyn FnMut(Value)) {
    emit(json!({"e": "begin"}));
    let mut w = Writer::new();
    let pad = scn["pad"].as_u64().unwrap() as usize;
    let ids_at = w.write_fixed_vec(&vec![0u32; pad]);
    let ids2_at = w.write_fixed_vec(&[7u32, 8, 9]);
    let tiles_at =
        w.write_uniform_vec(&[Coord { coord: 5, ids: ids_at }, Coord { coord: 6, ids: ids2_at }]);
    let n = undigits(&scn["u32"]);
    let size = scn["size"].as_u64().unwrap() as usize;
    let a = w.write_fixed_scalar(n);
    let b = w.write_uniform_scalar_with_size(Coord { coord: n, ids: ids2_at }, size);
    let c = w.write_var_scalar(RelevScore { relev_score: n as u8, coords: tiles_at });
    let e = w.write_fixed_scalar(n ^ 1);
    let bytes = w.finish();
    let d = Doc { reader: Reader::new(bytes.clone()), bytes };
    let t = d.reader.read_uniform_scalar(size, b);
    let (g, glen) = d.reader.read_var_scalar(c);
    emit(json!({"e": "scalars", "u32": scn["u32"], "size": size, "pad": pad, "len": d.bytes.len(),
        "mem": segments(&d.bytes),
        "first": digits(d.reader.read_fixed_scalar(a)),
        "tile": {"coord": digits(t.coord), "ids": read_ids(&d, t.ids, Iter)},
        "group": {"rs": g.relev_score, "tiles": read_tiles(&d, g.coords, Iter)}, "glen": glen,
        "last": digits(d.reader.read_fixed_scalar(e))}));
}
#[cfg(not(feature = "scalars"))]
fn scalars(_: &Value, emit: &mut dyn FnMut(Value)) {
    emit(json!({"e": "begin"}));
}

fn play(scn: &Value, emit: &mut dyn FnMut(Value)) {
    let res = catch_unwind(AssertUnwindSafe(|| match scn["e"].as_str().unwrap() {
        "write" => write_record(scn, emit),
        "read" => read_record(scn, emit),
        "scalars" => scalars(scn, emit),
        o => {
            eprintln!("unknown scenario {}", o);
            std::process::exit(2)
        }
    }));
    match res {
        Ok(()) => emit(json!({"e": "end"})),
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            emit(json!({"e": "panic", "msg": msg}))
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(
        std::fs::File::create(&args[2]).unwrap(),
    )));
    std::panic::set_hook(Box::new(|_| {}));
    for (n, line) in input.lines().enumerate() {
        let scn: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let put = {
            let out = out.clone();
            move |mut v: Value| {
                v["scn"] = json!(n);
                let mut o = out.lock().unwrap();
                serde_json::to_writer(&mut *o, &v).unwrap();
                o.write_all(b"\n").unwrap();
                o.flush().unwrap();
            }
        };
        // in a thread of its own, so that a hang is seen as one
        let (tx, rx) = std::sync::mpsc::channel();
        let mut emit = put.clone();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                play(&scn, &mut emit);
                tx.send(()).unwrap();
            })
            .unwrap();
        if rx.recv_timeout(std::time::Duration::from_secs(60)).is_err() {
            put(json!({"e": "hang"}));
            std::process::exit(0);
        }
    }
}
