use crate::enc::*;
use carmen_core::gridstore::*;
use failure::Error;
use rocksdb::hooks;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;

type Store = Arc<GridStore>;
type Pm = PhrasematchSubquery<Store>;

pub struct World {
    dir: PathBuf,
    builders: HashMap<String, GridStoreBuilder>,
    stores: HashMap<String, Store>,
    streams: HashMap<String, Box<dyn Iterator<Item = Value>>>,
}

fn name(v: &Value) -> String {
    v.as_str().unwrap_or_else(|| panic!("scenario: not a name: {}", v)).to_string()
}

fn outcome<T>(r: Result<T, Error>, f: impl FnOnce(T) -> Value) -> Value {
    match r {
        Ok(v) => {
            let mut out = f(v);
            out["ok"] = json!(true);
            out
        }
        Err(e) => json!({"ok": false, "err": e.to_string()}),
    }
}

/// how many writes, reads and opens there were
fn counted(v: &mut Value, before: (u64, u64, u64)) {
    let now = hooks::counts();
    v["writes"] = json!(now.0 - before.0);
    v["gets"] = json!(now.1 - before.1);
    v["opens"] = json!(now.2 - before.2);
}

fn contexts(r: Result<Vec<CoalesceContext>, Error>) -> Value {
    outcome(r, |cs| json!({"contexts": cs.iter().take(MOST_CONTEXTS).map(context_out).collect::<Vec<_>>()}))
}

fn with_pool<R: Send>(step: &Value, f: impl FnOnce() -> R + Send) -> R {
    match step.get("pool").and_then(|p| p.as_u64()) {
        Some(n) => rayon::ThreadPoolBuilder::new()
            .num_threads(n as usize)
            .build()
            .unwrap()
            .install(f),
        None => f(),
    }
}

impl World {
    pub fn new(dir: PathBuf) -> World {
        World { dir, builders: HashMap::new(), stores: HashMap::new(), streams: HashMap::new() }
    }

    pub fn is_open(&self, v: &Value) -> bool {
        self.stores.contains_key(&name(v))
    }
    fn path(&self, v: &Value) -> PathBuf {
        self.dir.join(name(v))
    }
    fn builder(&mut self, step: &Value) -> &mut GridStoreBuilder {
        self.builders.get_mut(&name(&step["b"])).expect("scenario: no such builder")
    }
    fn store(&self, v: &Value) -> Store {
        self.stores.get(&name(v)).expect("scenario: no such store").clone()
    }
    fn pms(&self, v: &Value) -> Vec<Pm> {
        v.as_array()
            .unwrap()
            .iter()
            .map(|p| PhrasematchSubquery {
                store: self.store(&p["store"]),
                idx: int(&p["idx"]) as u16,
                non_overlapping_indexes: bitset_in(&p["nonov"]),
                weight: micro_in(&p["weight"]),
                mask: mask_in(&p["mask"]),
                match_keys: p["keys"].as_array().unwrap().iter().map(match_key_with_id_in).collect(),
            })
            .collect()
    }

    fn search(&self, step: &Value) -> Result<Vec<MatchEntry>, Error> {
        let k = step["k"].as_u64().unwrap_or(1_000_000) as usize;
        Ok(self
            .store(&step["s"])
            .streaming_get_matching(&match_key_in(&step["key"]), &opts_in(&step["opts"]), k)?
            .collect())
    }

    fn listing(it: impl Iterator<Item = Result<(GridKey, Vec<GridEntry>), Error>>) -> Value {
        let mut out = Vec::new();
        for r in it {
            match r {
                Ok((k, es)) => out.push(
                    json!({"key": key_out(&k), "entries": es.iter().map(entry_out).collect::<Vec<_>>()}),
                ),
                Err(e) => return json!({"ok": false, "err": e.to_string()}),
            }
        }
        json!({"ok": true, "list": out})
    }

    fn stream(&self, what: &Value) -> Result<Box<dyn Iterator<Item = Value>>, Error> {
        // the store lives as long as the process: streams may borrow it
        let store: &'static GridStore = {
            let s: &'static Store = Box::leak(Box::new(self.store(&what["s"])));
            s.as_ref()
        };
        Ok(match what["kind"].as_str().unwrap() {
            "search" => {
                let k = what["k"].as_u64().unwrap_or(1_000_000) as usize;
                let it = store.streaming_get_matching(
                    &match_key_in(&what["key"]),
                    &opts_in(&what["opts"]),
                    k,
                )?;
                Box::new(it.map(|m| match_out(&m)))
            }
            "get" => match store.get(&key_in(&what["key"]))? {
                Some(it) => Box::new(it.map(|g| entry_out(&g))),
                None => Box::new(std::iter::empty()),
            },
            "keys" => Box::new(store.keys().map(|k| key_out(&k.unwrap()))),
            "iter" => Box::new(store.iter().map(|r| {
                let (k, es) = r.unwrap();
                json!({"key": key_out(&k), "entries": es.iter().map(entry_out).collect::<Vec<_>>()})
            })),
            o => panic!("scenario: stream {}", o),
        })
    }

    fn tree(&self, step: &Value) -> Value {
        let pms = self.pms(&step["pms"]);
        let tree = stackable(&pms);
        let at = |p: &Pm| pms.iter().position(|q| std::ptr::eq(p, q)).map_or(-1, |i| i as i64 + 1);
        // nodes in preorder, each with the number of its parent (0: the root)
        let mut nodes = Vec::new();
        let mut gone = 0;
        let mut todo: Vec<(_, usize)> = Vec::new();
        for c in tree.root.children.iter().rev() {
            match tree.arena.get(*c) {
                Some(n) => todo.push((n, 0)),
                None => gone += 1,
            }
        }
        while let Some((n, parent)) = todo.pop() {
            nodes.push(json!({
                "parent": parent, "pm": n.phrasematch.map_or(-1, |p| at(p)), "mask": mask_out(n.mask),
                "idx": n.idx, "zoom": n.zoom, "max": micro_out(n.max_relev), "leaf": n.is_leaf()}));
            let me = nodes.len();
            for c in n.children.iter().rev() {
                match tree.arena.get(*c) {
                    Some(n) => todo.push((n, me)),
                    None => gone += 1,
                }
            }
        }
        json!({"nodes": nodes, "gone": gone, "rootmax": micro_out(tree.root.max_relev),
               "rootpm": tree.root.phrasematch.is_some()})
    }

    fn scans(&self) -> Value {
        let v: Vec<Value> = hooks::scans()
            .into_iter()
            .map(|(p, k)| json!({"dir": p.file_name().unwrap().to_string_lossy(), "from": k}))
            .collect();
        json!(v)
    }

    pub fn step(&mut self, step: &Value) -> Value {
        let cmd = step["e"].as_str().unwrap();
        match cmd {
            "build" => {
                let path = self.path(&step["b"]);
                std::fs::create_dir_all(path.parent().unwrap()).unwrap();
                let r = GridStoreBuilder::new(path);
                let b = name(&step["b"]);
                outcome(r, |builder| {
                    self.builders.insert(b, builder);
                    json!({})
                })
            }
            "insert" => {
                let (k, v) = (key_in(&step["key"]), entries_in(&step["entries"]));
                outcome(self.builder(step).insert(&k, v), |_| json!({}))
            }
            "append" => {
                let (k, v) = (key_in(&step["key"]), entries_in(&step["entries"]));
                outcome(self.builder(step).append(&k, v), |_| json!({}))
            }
            "compact" => {
                let coords: Vec<(u16, u16)> = step["coords"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| (int(&c[0]) as u16, int(&c[1]) as u16))
                    .collect();
                let k = key_in(&step["key"]);
                self.builder(step).compact_append(
                    &k,
                    micro_in(&step["r"]),
                    int(&step["s"]) as u8,
                    u32_in(&step["id"]),
                    int(&step["h"]) as u8,
                    &coords,
                );
                json!({})
            }
            "renumber" => {
                let map: Vec<u32> = step["map"].as_array().unwrap().iter().map(u32_in).collect();
                outcome(self.builder(step).renumber(&map), |_| json!({}))
            }
            "bounds" => {
                let b: Vec<u32> = step["bounds"].as_array().unwrap().iter().map(u32_in).collect();
                outcome(self.builder(step).load_bin_boundaries(b), |_| json!({}))
            }
            "finish" => {
                let b = self.builders.remove(&name(&step["b"])).expect("scenario: no such builder");
                let before = hooks::counts();
                let mut v = outcome(b.finish(), |_| json!({}));
                counted(&mut v, before);
                v["stored"] = json!(hooks::log_records(&self.path(&step["b"])).len());
                v
            }
            // makes the n-th write, read or open from here on fail
            "faults" => {
                let at = |k: &str, now: u64| step[k].as_u64().map(|n| now + n);
                let (w, g, o) = hooks::counts();
                hooks::set_faults(hooks::Faults {
                    write: at("write", w),
                    get: at("get", g),
                    open: at("open", o),
                    write_sticky: step["sticky"].as_bool().unwrap_or(false),
                });
                json!({})
            }
            // what a directory holds
            "state" => {
                use std::hash::{Hash, Hasher};
                let dir = self.path(&step["b"]);
                let log = std::fs::read(dir.join(rocksdb::LOG_NAME)).ok();
                let mut h = std::collections::hash_map::DefaultHasher::new();
                log.hash(&mut h);
                json!({"exists": log.is_some(), "bytes": format!("{:x}", h.finish())})
            }
            // what a process that died after `n` writes leaves
            "crash" => {
                let from = self.path(&step["b"]);
                let to = self.path(&step["as"]);
                let n = int(&step["n"]) as usize;
                let recs = hooks::log_records(&from);
                let mut cut = if n == 0 { 0 } else { recs[n.min(recs.len()) - 1].0 };
                let whole = recs.last().map_or(0, |r| r.0);
                // part of the next write
                cut = (cut + step["torn"].as_u64().unwrap_or(0) as usize).min(
                    recs.get(n).map_or(whole, |r| r.0 - 1),
                );
                copy_cut(&from, &to, cut);
                json!({"of": recs.len()})
            }
            "open" => {
                let path = self.path(&step["b"]);
                let before = hooks::counts();
                let bboxes = step["bboxes"].as_array().map(|a| a.iter().map(bbox_in).collect());
                let zoom = step["zoom"].as_u64().unwrap_or(6) as u16;
                let r = if step.get("zoom").is_none() {
                    GridStore::new(&path)
                } else {
                    GridStore::new_with_options(
                        &path,
                        zoom,
                        step["type"].as_u64().unwrap_or(0) as u16,
                        step["radius"].as_u64().unwrap_or(0) as f64,
                        bboxes.unwrap_or_else(|| global_bbox_for_zoom(zoom)),
                        step["max_score"].as_u64().unwrap_or(0) as f64,
                    )
                };
                let s = name(&step["s"]);
                let mut v = outcome(r, |store| {
                    let mut bs: Vec<u32> = store.bin_boundaries.iter().cloned().collect();
                    bs.sort();
                    self.stores.insert(s, Arc::new(store));
                    json!({"boundaries": bs.into_iter().map(u32_out).collect::<Vec<_>>()})
                });
                counted(&mut v, before);
                v
            }
            "close" => {
                self.stores.remove(&name(&step["s"]));
                json!({})
            }
            "get" => {
                let before = hooks::counts();
                let mut v = outcome(self.store(&step["s"]).get(&key_in(&step["key"])), |o| match o {
                    Some(it) => {
                        json!({"found": true, "out": it.map(|g| entry_out(&g)).collect::<Vec<_>>()})
                    }
                    None => json!({"found": false, "out": []}),
                });
                counted(&mut v, before);
                v
            }
            "keys" => {
                let s = self.store(&step["s"]);
                let mut out = Vec::new();
                let mut ok = true;
                for k in s.keys() {
                    match k {
                        Ok(k) => out.push(key_out(&k)),
                        Err(_) => ok = false,
                    }
                }
                json!({"ok": ok, "list": out})
            }
            "iter" => {
                let s = self.store(&step["s"]);
                Self::listing(s.iter())
            }
            "search" => outcome(self.search(step), |ms| {
                json!({"out": ms.iter().map(match_out).collect::<Vec<_>>()})
            }),
            // many searches at once: {"qs": [{s, key, opts, k}]}
            "searches" => {
                let outs: Vec<Value> = step["qs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|q| {
                        let mut q2 = q.clone();
                        if q2.get("s").is_none() {
                            q2["s"] = step["s"].clone();
                        }
                        outcome(self.search(&q2), |ms| {
                            json!({"out": ms.iter().map(match_out).collect::<Vec<_>>()})
                        })
                    })
                    .collect();
                json!({"outs": outs})
            }
            "streams" => {
                // opens named streams and plays a script on them: ["next", name] or ["drop", name]
                let mut played = Vec::new();
                for act in step["script"].as_array().unwrap() {
                    let n = name(&act[1]);
                    match act[0].as_str().unwrap() {
                        "open" => {
                            let s = self.stream(&step["defs"][&n]).unwrap();
                            self.streams.insert(n.clone(), s);
                            played.push(json!({"a": "open", "n": n}));
                        }
                        "next" => {
                            let v = self.streams.get_mut(&n).and_then(|s| s.next());
                            played.push(json!({"a": "next", "n": n, "some": v.is_some(),
                                               "v": v.map_or(json!([]), |v| json!([v]))}));
                        }
                        "drop" => {
                            self.streams.remove(&n);
                            played.push(json!({"a": "drop", "n": n}));
                        }
                        o => panic!("scenario: {}", o),
                    }
                }
                json!({"played": played})
            }
            "alone" => {
                let mut outs = serde_json::Map::new();
                for (n, d) in step["defs"].as_object().unwrap() {
                    outs.insert(n.clone(), json!(self.stream(d).unwrap().collect::<Vec<_>>()));
                }
                json!({"outs": outs})
            }
            "adjust" => json!({"out": opts_out(&opts_in(&step["opts"]).adjust_to_zoom(int(&step["to"]) as u16))}),
            "nearby" => json!({"out": opts_out(&opts_in(&step["opts"]).with_nearby_only())}),
            "global" => json!({"out": global_bbox_for_zoom(int(&step["zoom"]) as u16)}),
            "queue" => {
                let mut q: ConstrainedPriorityQueue<i64> =
                    ConstrainedPriorityQueue::new(int(&step["max"]) as usize);
                let opt = |o: Option<i64>| o.map_or(json!([]), |v| json!([v]));
                let mut out = Vec::new();
                for op in step["ops"].as_array().unwrap() {
                    let r = match op[0].as_str().unwrap() {
                        "push" => json!({"kept": q.push(op[1].as_i64().unwrap())}),
                        "pop" => json!({"popped": opt(q.pop_max())}),
                        o => panic!("scenario: {}", o),
                    };
                    let mut r = r;
                    r["len"] = json!(q.len());
                    r["min"] = opt(q.peek_min().cloned());
                    r["max"] = opt(q.peek_max().cloned());
                    out.push(r);
                }
                let desc = step["desc"].as_bool().unwrap();
                let rest: Vec<i64> =
                    if desc { q.into_vec_desc() } else { q.into_iter().collect() };
                json!({"out": out, "rest": rest})
            }
            "groupby" => {
                let pulled = std::rc::Rc::new(std::cell::Cell::new(0));
                let p = pulled.clone();
                let items: Vec<(i64, i64)> = step["items"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .enumerate()
                    .map(|(i, k)| (k.as_i64().unwrap(), i as i64 + 1))
                    .collect();
                let most = items.len() + 3;
                let hint = step.get("hint").and_then(|h| h.as_str()).unwrap_or("exact").to_string();
                let mut it = somewhat_eager_groupby(
                    Hinted(items.into_iter(), hint).inspect(move |_| p.set(p.get() + 1)),
                    |v| v.0,
                );
                let mut out = Vec::new();
                while let Some((k, g)) = it.next() {
                    if out.len() == most {
                        break; // it goes on and on
                    }
                    out.push(json!({"key": k, "group": g.iter().map(|v| v.1).collect::<Vec<_>>(),
                                    "keys": g.iter().map(|v| v.0).collect::<Vec<_>>(),
                                    "pulled": pulled.get()}));
                }
                json!({"out": out, "again": it.next().is_some()})
            }
            "tree" => self.tree(step),
            "collapse" => {
                let out: Vec<Value> = collapse_phrasematches(self.pms(&step["pms"]))
                    .iter()
                    .map(|p| {
                        json!({"store": self.stores.iter().find(|s| Arc::ptr_eq(s.1, &p.store)).map(|s| s.0),
                               "idx": p.idx, "nonov": p.non_overlapping_indexes.ones().collect::<Vec<_>>(),
                               "weight": micro_out(p.weight), "mask": mask_out(p.mask),
                               "keys": p.match_keys.iter().map(match_key_with_id_out).collect::<Vec<_>>()})
                    })
                    .collect();
                json!({"out": out})
            }
            "coalesce" => {
                let pms = self.pms(&step["pms"]);
                let opts = opts_in(&step["opts"]);
                let mut v = contexts(coalesce(pms.clone(), &opts));
                if let Some(k) = step.get("streams").and_then(|k| k.as_u64()) {
                    v["streams"] = self.streams_of(&pms, &opts, k as usize);
                }
                v
            }
            "tree_coalesce" | "stack_and_coalesce" => {
                let pms = self.pms(&step["pms"]);
                let opts = opts_in(&step["opts"]);
                let order: Vec<PathBuf> = step
                    .get("schedule")
                    .and_then(|s| s.as_array())
                    .map_or(vec![], |a| a.iter().map(|d| self.path(d)).collect());
                let w = hooks::scans().len();
                if !order.is_empty() {
                    hooks::set_schedule(&order);
                }
                let mut v = contexts(with_pool(step, || {
                    if cmd == "tree_coalesce" {
                        tree_coalesce(&stackable(&pms), &opts)
                    } else {
                        stack_and_coalesce(&pms, &opts)
                    }
                }));
                let scans = self.scans();
                v["scans"] = json!(scans.as_array().unwrap()[w..].to_vec());
                if !order.is_empty() {
                    let (begun, missed) = hooks::schedule_played();
                    v["played"] = json!(begun);
                    v["missed"] = json!(missed);
                }
                if step.get("streams").is_some() {
                    v["streams"] = self.streams_of(&pms, &opts, 100_000);
                }
                v
            }
            // the same queries from several threads at once
            "concurrent" => {
                let qs: Vec<(Vec<Pm>, MatchOpts)> = step["qs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|q| (self.pms(&q["pms"]), opts_in(&q["opts"])))
                    .collect();
                let qs = Arc::new(qs);
                let alone: Vec<Value> =
                    qs.iter().map(|q| contexts(stack_and_coalesce(&q.0, &q.1))).collect();
                let start = Arc::new(std::sync::Barrier::new(int(&step["threads"]) as usize));
                let handles: Vec<_> = (0..int(&step["threads"]) as usize)
                    .map(|t| {
                        let (qs, start) = (qs.clone(), start.clone());
                        std::thread::spawn(move || {
                            start.wait();
                            let i = t % qs.len();
                            (i, contexts(stack_and_coalesce(&qs[i].0, &qs[i].1)))
                        })
                    })
                    .collect();
                let outs: Vec<Value> = handles
                    .into_iter()
                    .map(|h| match h.join() {
                        Ok((i, v)) => json!({"q": i + 1, "v": v}),
                        Err(_) => json!({"q": 0, "v": {"ok": false, "err": "panic"}}),
                    })
                    .collect();
                json!({"alone": alone, "outs": outs})
            }
            o => panic!("scenario: unknown command {}", o),
        }
    }

    /// What each match key's search yields on its own, with the options brought to the store's zoom.
    fn streams_of(&self, pms: &[Pm], opts: &MatchOpts, k: usize) -> Value {
        let out: Vec<Value> = pms
            .iter()
            .map(|p| {
                let o = opts.adjust_to_zoom(p.store.zoom);
                let per_key: Vec<Value> = p
                    .match_keys
                    .iter()
                    .map(|m| {
                        let o = if m.nearby_only { o.with_nearby_only() } else { o.clone() };
                        let r = p.store.streaming_get_matching(&m.key, &o, k);
                        outcome(r, |ms| json!({"out": ms.map(|m| match_out(&m)).collect::<Vec<_>>()}))
                    })
                    .collect();
                json!(per_key)
            })
            .collect();
        json!(out)
    }
}

/// Copies a database as the first `cut` bytes of its log would leave it.
fn copy_cut(from: &Path, to: &Path, cut: usize) {
    std::fs::create_dir_all(to).unwrap();
    for f in std::fs::read_dir(from).unwrap() {
        let f = f.unwrap();
        let n = f.file_name();
        let b = std::fs::read(f.path()).unwrap();
        let b = if n.to_string_lossy() == "KV.log" { &b[..cut.min(b.len())] } else { &b[..] };
        std::fs::write(to.join(n), b).unwrap();
    }
}

/// Says more or less about how many are left, as iterators may.
struct Hinted<I>(I, String);

impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (low, high) = self.0.size_hint();
        match self.1.as_str() {
            "nothing" => (0, None),
            "most" => (0, high.map(|h| h + 3)),
            _ => (low, high),
        }
    }
}
