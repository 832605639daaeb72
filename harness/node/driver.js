'use strict';
// Plays scenarios on the node binding and records what it did.
// usage: node --expose-gc driver.js ADDON_DIR SCENARIOS.ndjson TRACE.ndjson WORKDIR
//
// A scenario is {"steps": [{"e": command, ...}, ...]}; each step leaves one event, the step itself
// with its results added; an answer to a query leaves one of its own. Nothing here decides what is right.
const fs = require('fs');
const path = require('path');
const [addonDir, input, output, work] = process.argv.slice(2);
const addon = require(path.resolve(addonDir, 'index.js'));
const trace = fs.openSync(output, 'a');

// ------------------------------------------------------------------ values
const u32 = (p) => p[0] * 65536 + p[1];
const pair = (n) => [Math.floor(n / 65536), ((n % 65536) + 65536) % 65536];
const buf = new DataView(new ArrayBuffer(8));
const number = (f) => typeof f === 'number';
function bits(f) {
    if (!number(f)) return [-1];
    buf.setFloat64(0, f === 0 ? 0 : f);
    return [0, 2, 4, 6].map((i) => buf.getUint16(i));
}
function micro(f) {
    if (!number(f)) return -2;
    const m = Math.round(f * 1e6);
    return Math.abs(m) < 2e9 && Math.abs(f * 1e6 - m) < 1e-3 ? m : -1;
}
function dist(f) {
    const n = number(f) ? Math.round(f * f) : -1;
    return f >= 0 && n < 2 ** 47 && Math.sqrt(n) === f ? pair(n) : [-1, -1];
}
const int = (n) => (Number.isInteger(n) && Math.abs(n) < 2 ** 31 ? n : -1);
const idOut = (n) => (Number.isInteger(n) && n >= 0 ? pair(n) : [-1, -1]);
const maskOut = (m) => (Number.isInteger(m) && m >= 0 ? [...Array(32).keys()].filter((b) => Math.floor(m / 2 ** b) % 2) : [-1]);

// an argument of some kind: {k: "absent" | "undefined" | "null" | "value" | ..., v}
function put(o, name, a) {
    if (a.k === 'absent') return;
    o[name] = a.k === 'undefined' ? undefined : a.k === 'null' ? null : a.v;
}
function keyIn(step) {
    const key = { phrase_id: u32(step.p) };
    put(key, 'lang_set', step.ls);
    return key;
}
const entryIn = (e) => ({ relev: e.r / 1e6, score: e.s, x: e.x, y: e.y, id: u32(e.id), source_phrase_hash: e.h });
const entryOut = (g) => ({ r: micro(g.relev), s: int(g.score), x: int(g.x), y: int(g.y), id: idOut(g.id), h: int(g.source_phrase_hash) });
const keyOut = (k) => ({ p: idOut(k.phrase_id), ls: k.lang_set });
function contextOut(c) {
    return {
        mask: maskOut(c.mask), r: micro(c.relev), rb: bits(c.relev),
        entries: c.entries.slice(0, 40).map((e) => Object.assign(entryOut(e.grid_entry), {
            rb: bits(e.grid_entry.relev), ml: e.matches_language, d2: dist(e.distance), sd: bits(e.scoredist), idx: int(e.idx),
            tmp: idOut(e.tmp_id), mask: maskOut(e.mask), pm: int(e.phrasematch_id)
        }))
    };
}
const buffer = (pairs) => Uint32Array.from(pairs.map(u32)).buffer;

// ------------------------------------------------------------------ playing
class World {
    constructor(dir, emit) {
        Object.assign(this, { dir, emit, builders: {}, stores: {}, listed: {}, iters: {}, sets: {}, setBuilders: {}, open: 0, called: new Set() });
    }
    path(name) { return path.join(this.dir, name); }
    // an argument made from its description
    make(a) {
        if (Array.isArray(a)) return a.map((x) => this.make(x));
        if (a === null || typeof a !== 'object') return a;
        if (!('$' in a)) return Object.fromEntries(Object.entries(a).map(([k, v]) => [k, this.make(v)]));
        switch (a.$) {
            case 'undefined': return undefined;
            case 'nan': return NaN;
            case 'symbol': return Symbol('s');
            case 'store': return this.stores[a.v];
            case 'builder': return this.builders[a.v];
            case 'callback': return (err, res) => this.emit({ e: 'answered', q: a.q, err: err ? String(err.message) : '', late: false, contexts: [] });
            case 'path': return this.path(a.v);
            case 'buffer': return buffer(a.v);
            case 'bytes': return new ArrayBuffer(a.n);
            case 'words': return Uint32Array.from(a.v);
        }
        throw new Error('scenario: ' + JSON.stringify(a));
    }
    pm(p) {
        const key = { match_phrase: p.key.kind === 'exact' ? { Exact: u32(p.key.start) } : { Range: { start: u32(p.key.start), end: u32(p.key.end) } } };
        put(key, 'lang_set', p.ls);
        const out = {
            store: this.stores[p.store], weight: p.weight / 1e6, mask: p.mask.reduce((a, b) => a + 2 ** b, 0), match_key: key,
            id: p.id, idx: p.idx, phrase: p.phrase, non_overlapping_indexes: p.nonov
        };
        put(out, 'nearby_only', p.nearby);
        return out;
    }
    opts(o) {
        const out = { zoom: o.zoom };
        put(out, 'bbox', o.bbox);
        put(out, 'proximity', o.prox);
        return out;
    }
    // with the database's operations meanwhile, where they may fail
    counted(f) {
        const [w, g, o] = addon.standinCounts();
        const r = this.did(f);
        const [writes, gets, opens] = addon.standinCounts();
        return Object.assign(r, { writes: writes - w, gets: gets - g, opens: opens - o });
    }
    did(f) {
        try {
            return Object.assign({ ok: true }, f());
        } catch (e) {
            if (!(e instanceof Error) || String(e.message).startsWith('scenario')) throw e;
            return { ok: false, err: String(e.message), name: e.constructor.name };
        }
    }
    nothing(v) { return { returned: v === undefined ? 'undefined' : typeof v }; }
    step(s) {
        const b = this.builders[s.b];
        switch (s.e) {
            case 'build': return this.did(() => { this.builders[s.b] = new addon.GridStoreBuilder(this.path(s.b)); });
            case 'insert': return this.did(() => this.nothing(b.insert(keyIn(s), s.entries.map(entryIn))));
            case 'append': return this.did(() => this.nothing(b.append(keyIn(s), s.entries.map(entryIn))));
            case 'compact': return this.did(() => this.nothing(b.compactAppend(keyIn(s), s.r / 1e6, s.s, u32(s.id), s.h, s.coords)));
            case 'renumber': return this.did(() => this.nothing(b.renumber(s.from ? this.buffers[s.from] : buffer(s.map))));
            case 'bounds': return this.did(() => this.nothing(b.loadBinBoundaries(s.from ? this.buffers[s.from] : buffer(s.bounds))));
            case 'finish': return this.counted(() => this.nothing(b.finish()));
            case 'open': return this.counted(() => {
                this.stores[s.s] = s.opts.length ? new addon.GridStore(this.path(s.b), s.opts[0]) : new addon.GridStore(this.path(s.b));
            });
            // nothing of the driver keeps it any more
            case 'drop': {
                delete this.stores[s.s];
                delete this.listed[s.s];
                delete this.builders[s.b];
                delete this.iters[s.it];
                return {};
            }
            case 'faults': {
                addon.standinFaults(s.write, s.get, s.open, s.sticky ? 1 : 0);
                return {};
            }
            case 'gc': {
                for (let i = 0; i < 3; i++) global.gc();
                return {};
            }
            case 'get': return this.counted(() => {
                const v = this.stores[s.s].get(keyIn(s));
                return { found: v !== undefined, out: v === undefined ? [] : v.map(entryOut) };
            });
            case 'keys': return this.did(() => ({ list: Array.from(this.stores[s.s].keys()).map(keyOut) }));
            case 'iterator': return this.did(() => {
                // what keys() gave may be gone through again
                if (!s.again || !this.listed[s.s]) this.listed[s.s] = this.stores[s.s].keys();
                this.iters[s.it] = this.listed[s.s][Symbol.iterator]();
            });
            case 'next': return this.did(() => {
                const n = this.iters[s.it].next();
                return { done: n.done, list: n.done ? [] : [keyOut(n.value)] };
            });
            case 'ask': return this.did(() => {
                const t = { returned: false };
                const r = this.nothing(addon[s.how](s.pms.map((p) => this.pm(p)), this.opts(s.opts), (err, res) => {
                    this.open--;
                    this.emit({ e: 'answered', q: s.q, err: err ? String(err.message) : '', late: t.returned,
                        contexts: err ? [] : res.slice(0, 1000).map(contextOut) });
                }));
                t.returned = true;
                this.open++;
                return r;
            });
            case 'stackable': return this.did(() => this.nothing(addon.stackable(s.pms.map((p) => this.pm(p)))));
            case 'wrong': return this.did(() => {
                const on = { builder: () => this.builders, store: () => this.stores, iterator: () => this.iters,
                    set: () => this.sets, setBuilder: () => this.setBuilders }[s.on];
                const args = s.args.map((a) => this.make(a));
                if (s.on === 'new') new addon[s.call](...args);
                else if (s.on === 'addon') addon[s.call](...args);
                else if (s.this !== undefined) on()[s.name][s.call].apply(this.make(s.this), args);
                else on()[s.name][s.call](...args);
            });
        }
        return this.phrases(s);
    }
    phrases(s) {
        this.buffers = this.buffers || {};
        const words = (b) => Array.from(new Uint32Array(b)).map(pair);
        const set = this.sets[s.f];
        const found = (m) => Object.assign({ phrase: m.phrase, edits: m.edit_distance, ending: m.ending_type, range: m.phrase_id_range.map(pair) },
            'start_position' in m ? { at: m.start_position } : {});
        switch (s.e) {
            // a set of n phrases, the k-th of which is the (k * step) mod n-th in order, and places for some of them
            case 'crowd': return this.did(() => {
                const say = (i) => ['w' + String(i).padStart(9, '0')];
                const ints = (buf) => Array.from(new Uint32Array(buf)).map(int);
                const phrases = new addon.FuzzyPhraseSetBuilder(this.path(s.f));
                const ids = [];
                for (let k = 0; k < s.n; k++) ids.push(int(phrases.insert(say((k * s.step) % s.n))));
                const map = phrases.finish();
                const set = new addon.FuzzyPhraseSet(this.path(s.f));
                const bins = set.getPrefixBins(s.max);
                const places = new addon.GridStoreBuilder(this.path(s.f + 'g'));
                for (const k of s.some) places.insert({ phrase_id: ids[k] }, [{ relev: 1, score: 1, x: 1, y: 1, id: k, source_phrase_hash: 0 }]);
                places.renumber(map);
                places.loadBinBoundaries(bins);
                places.finish();
                const store = new addon.GridStore(this.path(s.f + 'g'));
                return {
                    ids, map: ints(map), bins: ints(bins),
                    words: s.asked.map((i) => { const v = set.getByPhraseId(i); return v === undefined ? '' : v.join(' '); }),
                    ranges: s.asked.map((i) => set.fuzzyMatch(say(i), 0, 0, addon.ENDING_TYPE.nonPrefix).map((m) => m.phrase_id_range.map(int))),
                    places: Array.from(store.keys()).map((key) => [int(key.phrase_id), store.get(key).map((e) => int(e.id))])
                };
            });
            case 'phrases': return this.did(() => { this.setBuilders[s.f] = new addon.FuzzyPhraseSetBuilder(this.path(s.f)); });
            case 'replace': return this.did(() => this.nothing(this.setBuilders[s.f].loadWordReplacements(s.words)));
            case 'phrase': return this.did(() => ({ id: idOut(this.setBuilders[s.f].insert(s.words)) }));
            case 'phrases_done': return this.did(() => {
                this.buffers[s.f] = this.setBuilders[s.f].finish();
                return { map: words(this.buffers[s.f]) };
            });
            case 'phrases_open': return this.did(() => { this.sets[s.f] = new addon.FuzzyPhraseSet(this.path(s.f)); });
            case 'bins': return this.did(() => {
                this.buffers[s.as] = set.getPrefixBins(s.max);
                return { bins: words(this.buffers[s.as]) };
            });
            case 'contains': return this.did(() => ({ found: set.contains(s.words, addon.ENDING_TYPE[s.ending]) }));
            case 'by_id': return this.did(() => {
                const v = set.getByPhraseId(u32(s.id));
                return { found: v !== undefined, words: v === undefined ? [] : v };
            });
            case 'fuzzy': return this.did(() => ({ out: set.fuzzyMatch(s.words, s.word, s.phrase, addon.ENDING_TYPE[s.ending]).map(found) }));
            case 'windows': return this.did(() => ({ out: set.fuzzyMatchWindows(s.words, s.word, s.phrase, addon.ENDING_TYPE[s.ending]).map(found) }));
            // what a store has for a phrase or all that begin with it
            case 'reach': return this.did(() => {
                const m = set.fuzzyMatch(s.words, 0, 0, addon.ENDING_TYPE[s.ending]);
                if (m.length === 0) return { found: false };
                const [a, b] = m[0].phrase_id_range;
                const phrase = a === b && s.exact ? { Exact: a } : { Range: { start: a, end: b + 1 } };
                addon.coalesce([{ store: this.stores[s.s], weight: 1, mask: 1, match_key: { match_phrase: phrase }, id: 1, idx: 0,
                    phrase: s.words.join(' '), non_overlapping_indexes: [] }], { zoom: s.zoom }, (err, res) => {
                    this.open--;
                    this.emit({ e: 'reached', q: s.q, err: err ? String(err.message) : '',
                        ids: err ? [] : res.slice(0, 1000).map((c) => pair(c.entries[0].grid_entry.id)) });
                });
                this.open++;
                return { found: m.length === 1 };
            });
            case 'multi': return this.did(() => ({
                outs: set.fuzzyMatchMulti(s.qs.map((q) => [q.words, addon.ENDING_TYPE[q.ending]]), s.word, s.phrase).map((o) => o.map(found))
            }));
        }
        throw new Error('scenario: no command ' + s.e);
    }
}

const tick = () => new Promise((r) => setImmediate(r));

async function play(scn, dir, emit) {
    addon.standinFaults(-1, -1, -1, 0);
    emit({ e: 'begin' });
    const w = new World(dir, emit);
    for (const s of scn.steps) {
        if (s.e === 'settle') {
            // all answers, and what may come after them
            while (w.open > 0) await new Promise((r) => setTimeout(r, 1));
            await tick();
            await tick();
            emit({ e: 'settled' });
        } else emit(Object.assign({}, s, w.step(s)));
    }
    emit({ e: 'end' });
}

async function main() {
    const lines = fs.readFileSync(input, 'utf8').split('\n').filter(Boolean);
    for (let n = 0; n < lines.length; n++) {
        const scn = JSON.parse(lines[n]);
        const dir = path.join(work, String(n));
        fs.mkdirSync(dir, { recursive: true });
        const emit = (v) => fs.writeSync(trace, JSON.stringify(Object.assign(v, { scn: n })) + '\n');
        const timer = setTimeout(() => {
            emit({ e: 'hang' });
            process.exit(0);
        }, 1000 * (scn.limit_s || 20));
        await play(scn, dir, emit);
        clearTimeout(timer);
        fs.rmSync(dir, { recursive: true, force: true });
    }
}
main().catch((e) => {
    console.error(String(e.stack || e));
    process.exit(2);
});
