//! Values as JSON that TLC can work with: it has 32-bit integers and no fractions.
use carmen_core::gridstore::*;
use fixedbitset::FixedBitSet;
use serde_json::{json, Value};

pub fn int(v: &Value) -> u64 {
    v.as_u64().unwrap_or_else(|| panic!("scenario: not a number: {}", v))
}

/// u32 as [high 16 bits, low 16 bits]
pub fn u32_in(v: &Value) -> u32 {
    ((int(&v[0]) as u32) << 16) | int(&v[1]) as u32
}
pub fn u32_out(n: u32) -> Value {
    json!([n >> 16, n & 0xffff])
}

/// u128 as 16 bytes, most significant first
pub fn lang_in(v: &Value) -> u128 {
    v.as_array().unwrap().iter().fold(0u128, |a, b| (a << 8) | int(b) as u128)
}
pub fn lang_out(n: u128) -> Value {
    json!(n.to_be_bytes().to_vec())
}

/// fractions as millionths
pub fn micro_in(v: &Value) -> f64 {
    v.as_i64().unwrap() as f64 / 1e6
}
/// -1 when the number is not (nearly) a multiple of a millionth, or too big
pub fn micro_out(f: f64) -> Value {
    let m = (f * 1e6).round();
    if f.is_finite() && m.abs() < 2e9 && (f * 1e6 - m).abs() < 1e-3 {
        json!(m as i64)
    } else {
        json!(-1)
    }
}

/// A number >= 0 as its bits, in four parts, most significant first: these compare as the number does
pub fn bits_out(f: f64) -> Value {
    let b = if f == 0.0 { 0 } else { f.to_bits() };
    json!([b >> 48, (b >> 32) & 0xffff, (b >> 16) & 0xffff, b & 0xffff])
}

/// A number >= 0 as [m, e] with m in 1000..=9999 and m * 10^e nearly the number; 0 as [0, 0]
pub fn sci_out(f: f64) -> Value {
    if f == 0.0 {
        return json!([0, 0]);
    }
    if !(f > 0.0) || !f.is_finite() {
        return json!([-1, 0]);
    }
    let mut e = f.log10().floor() as i32 - 3;
    let mut m = (f / 10f64.powi(e)).round() as i64;
    while m >= 10000 {
        e += 1;
        m = (f / 10f64.powi(e)).round() as i64;
    }
    json!([m, e])
}

/// A distance as the whole number it is the square root of, in base 65536; [-1, -1] if it is none
pub fn dist_out(f: f64) -> Value {
    let n = (f * f).round();
    if f >= 0.0 && n < 2f64.powi(47) && n.sqrt() == f {
        let n = n as u64;
        json!([n >> 16, n & 0xffff])
    } else {
        json!([-1, -1])
    }
}

pub fn mask_in(v: &Value) -> u32 {
    v.as_array().unwrap().iter().fold(0, |a, b| a | 1 << int(b))
}
pub fn mask_out(m: u32) -> Value {
    json!((0..32).filter(|b| m >> b & 1 == 1).collect::<Vec<u32>>())
}

pub fn key_in(v: &Value) -> GridKey {
    GridKey { phrase_id: u32_in(&v["p"]), lang_set: lang_in(&v["l"]) }
}
pub fn key_out(k: &GridKey) -> Value {
    json!({"p": u32_out(k.phrase_id), "l": lang_out(k.lang_set)})
}

pub fn entry_in(v: &Value) -> GridEntry {
    GridEntry {
        relev: micro_in(&v["r"]),
        score: int(&v["s"]) as u8,
        x: int(&v["x"]) as u16,
        y: int(&v["y"]) as u16,
        id: u32_in(&v["id"]),
        source_phrase_hash: int(&v["h"]) as u8,
    }
}
pub fn entries_in(v: &Value) -> Vec<GridEntry> {
    v.as_array().unwrap().iter().map(entry_in).collect()
}
pub fn entry_out(g: &GridEntry) -> Value {
    json!({"r": micro_out(g.relev), "s": g.score, "x": g.x, "y": g.y, "id": u32_out(g.id),
           "h": g.source_phrase_hash})
}

pub fn match_out(m: &MatchEntry) -> Value {
    let mut v = entry_out(&m.grid_entry);
    v["rb"] = bits_out(m.grid_entry.relev);
    v["ml"] = json!(m.matches_language);
    v["d2"] = dist_out(m.distance);
    v["sd"] = bits_out(m.scoredist);
    v["sf"] = sci_out(m.scoredist);
    v
}

pub fn match_key_in(v: &Value) -> MatchKey {
    let match_phrase = if v["kind"] == "exact" {
        MatchPhrase::Exact(u32_in(&v["start"]))
    } else {
        MatchPhrase::Range { start: u32_in(&v["start"]), end: u32_in(&v["end"]) }
    };
    MatchKey { match_phrase, lang_set: lang_in(&v["l"]) }
}

pub fn bbox_in(v: &Value) -> [u16; 4] {
    let n = |i: usize| int(&v[i]) as u16;
    [n(0), n(1), n(2), n(3)]
}

/// an absent box or point is an empty list
pub fn opts_in(v: &Value) -> MatchOpts {
    let some = |k: &str| v[k].as_array().map_or(false, |a| !a.is_empty());
    MatchOpts {
        bbox: if some("bbox") { Some(bbox_in(&v["bbox"])) } else { None },
        proximity: if some("prox") {
            Some([int(&v["prox"][0]) as u16, int(&v["prox"][1]) as u16])
        } else {
            None
        },
        zoom: int(&v["zoom"]) as u16,
    }
}
pub fn opts_out(o: &MatchOpts) -> Value {
    json!({"bbox": o.bbox.map_or(vec![], |b| b.to_vec()),
           "prox": o.proximity.map_or(vec![], |p| p.to_vec()), "zoom": o.zoom})
}

pub fn bitset_in(v: &Value) -> FixedBitSet {
    let mut b = FixedBitSet::with_capacity(128);
    for i in v.as_array().unwrap() {
        b.insert(int(i) as usize);
    }
    b
}

pub fn match_key_with_id_in(v: &Value) -> MatchKeyWithId {
    MatchKeyWithId {
        key: match_key_in(&v["key"]),
        nearby_only: v["nearby"].as_bool().unwrap(),
        id: int(&v["id"]) as u32,
        phrase_length: int(&v["len"]) as usize,
    }
}
pub fn match_key_with_id_out(m: &MatchKeyWithId) -> Value {
    let (kind, start, end) = match m.key.match_phrase {
        MatchPhrase::Exact(id) => ("exact", id, 0),
        MatchPhrase::Range { start, end } => ("range", start, end),
    };
    json!({"key": {"kind": kind, "start": u32_out(start), "end": u32_out(end),
                   "l": lang_out(m.key.lang_set)},
           "nearby": m.nearby_only, "id": m.id, "len": m.phrase_length})
}

pub fn coalesce_entry_out(e: &CoalesceEntry) -> Value {
    let mut v = entry_out(&e.grid_entry);
    v["rb"] = bits_out(e.grid_entry.relev);
    v["ml"] = json!(e.matches_language);
    v["d2"] = dist_out(e.distance);
    v["sd"] = bits_out(e.scoredist);
    v["idx"] = json!(e.idx);
    v["tmp"] = u32_out(e.tmp_id);
    v["mask"] = mask_out(e.mask);
    v["pm"] = json!(e.phrasematch_id);
    v
}
// More entries and contexts than these are wrong in any case.
pub const MOST_ENTRIES: usize = 40;
pub const MOST_CONTEXTS: usize = 1000;
pub fn context_out(c: &CoalesceContext) -> Value {
    json!({"mask": mask_out(c.mask), "r": micro_out(c.relev), "rb": bits_out(c.relev),
           "entries": c.entries.iter().take(MOST_ENTRIES).map(coalesce_entry_out).collect::<Vec<_>>()})
}
