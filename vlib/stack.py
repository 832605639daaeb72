"""C17 to C19: trees of stackable phrasematches, collapsing."""
from . import core, parts
from .store import p32, lang

MODEL = """SPECIFICATION Spec
CONSTANTS
  Types = {%s}
  Masks = {%s}
  Weights = {%s}
  MaxPms = %d
  Limits = {%s}
  Emit = %s
INVARIANTS TreeIsRight PrintScenario
CHECK_DEADLOCK FALSE
"""
ZOOM_OF = [0, 6, 9, 11, 14, 14, 16]


def setup(types):
    """One tiny database, opened as stores of several types (and of two zooms each)."""
    out = [{"e": "build", "b": "b0"},
           {"e": "insert", "b": "b0", "key": {"p": p32(1), "l": [255] * 16},
            "entries": [{"r": 1000000, "s": 1, "x": 0, "y": 0, "id": p32(1), "h": 0}]},
           {"e": "finish", "b": "b0"}]
    for t in types:
        for v in range(2):
            out.append({"e": "open", "s": "t%d%s" % (t, "ab"[v]), "b": "b0", "zoom": ZOOM_OF[(t + v) % len(ZOOM_OF)],
                        "type": t * 7 + (1 if t else 0), "radius": 200000000,
                        "bboxes": [[0, 0, 65535, 65535]], "max_score": 1000000})
    return out


def key(rng, i):
    k = rng.randrange(3)
    a = rng.randrange(1 << rng.choice([3, 8, 20]))
    return {"key": {"kind": "exact" if k == 0 else "range", "start": p32(a), "end": p32(0 if k == 0 else a + rng.randrange(1, 9)),
                    "l": lang(rng)},
            "nearby": rng.random() < 0.2, "id": i, "len": rng.randrange(1, 20)}


def exclusions(rng, idxs, p, mutual=True):
    """Which indexes exclude which."""
    non = {i: set() for i in idxs}
    if not mutual:
        for i in idxs:
            non[i] = {j for j in idxs if j != i and rng.random() < p}
        return non
    for i in idxs:
        for j in idxs:
            if i < j and rng.random() < p:
                non[i].add(j)
                non[j].add(i)
    return non


def masks(rng, words):
    k = rng.randrange(4)
    if k == 0:
        return [rng.randrange(words)]
    if k == 1:
        a = rng.randrange(words)
        return list(range(a, min(words, a + rng.randrange(1, 4))))
    return sorted(rng.sample(range(words), rng.randrange(1, min(3, words) + 1)))


def some_pms(rng, n, types, words, excl, weights, spread=None):
    """Phrasematches of stores of the given types; an index belongs to one store."""
    stores = ["t%d%s" % (t, v) for t in types for v in "ab"]
    wide = rng.random() < 0.2
    number = rng.sample(range(128 if wide else 2 * len(stores)), len(stores))
    idx = dict(zip(stores, number))
    # between at most two types, one side is enough
    non = exclusions(rng, number, excl, len(types) > 2 or rng.random() < 0.5)
    out = []
    for i in range(n):
        s = rng.choice(stores)
        m = masks(rng, words)
        if spread:                 # a store's masks stay in its own part of the query
            t = types.index(int(s[1:-1]))
            m = [t] if spread == 1 else [t] + [b for b in m if b >= len(types)]
        shift = 31 - max(words, len(types)) if wide else 0
        out.append({"store": s, "idx": idx[s], "nonov": sorted(non[idx[s]]), "weight": rng.choice(weights),
                    "mask": [b + shift for b in m], "keys": [key(rng, i)]})
    return out


WEIGHTS = [[250000, 500000], [200000, 400000, 600000, 800000, 1000000], [1, 2, 3], [333333, 666667, 1000000], [500000],
           [100000 * k for k in range(1, 11)]]


def from_model(ctx, pms):
    """A model's phrasematches on the stores of the scenario."""
    out = []
    for i, p in enumerate(pms):
        out.append({"store": "t%da" % p["type"], "idx": p["idx"], "nonov": p["nonov"], "weight": p["weight"] * 250000,
                    "mask": p["mask"], "keys": [{"key": {"kind": "range", "start": p32(0), "end": p32(1), "l": [255] * 16},
                                                 "nearby": False, "id": i, "len": 3}]})
    return out


def model_scenarios(ctx, n):
    got = parts.behaviours(ctx, "MC_Stacking", MODEL % ("1, 2, 3", "{0}, {1}, {0, 1}", "1, 2", 3, "9", "TRUE")
                           if not ctx.quick else
                           MODEL % ("1, 2, 3", "{0}, {1}", "1, 2", 3, "9", "TRUE"))
    ctx.rng.shuffle(got)
    return [{"e": "tree", "pms": from_model(ctx, s["pms"])} for s in got[:n]]


def whole(ctx):
    rng = ctx.rng
    core.model_check(ctx, "MC_Stacking", MODEL % (("1, 2, 3", "{0}, {1}", "1, 2", 3, "1, 2, 9", "FALSE") if ctx.quick else
                                                   ("1, 2, 3", "{0}, {1}, {2}, {0, 1}", "1, 2", 3, "1, 2, 3, 4, 9", "FALSE")))
    steps = model_scenarios(ctx, ctx.pick(1500, 20000))
    for _ in range(ctx.pick(900, 9000)):
        types = sorted(rng.sample(range(7), rng.randrange(1, 7)))
        steps.append({"e": "tree", "pms": some_pms(rng, rng.randrange(0, rng.choice([4, 8, 14])), types, rng.randrange(1, 7),
                                                   rng.choice([0, 0.1, 0.3, 0.6]), rng.choice(WEIGHTS), rng.choice([None, None, 1, 2]))})
    return steps


def overfull(ctx):
    rng = ctx.rng
    core.model_check(ctx, "MC_Stacking", MODEL % (("1, 2, 3", "{0}, {1}, {2}", "1, 2", 3, "1, 2", "FALSE") if ctx.quick else
                                                   ("1, 2, 3", "{0}, {1}, {2}", "1, 2, 3", 3, "1, 2, 3, 4, 5, 6", "FALSE")))
    steps = []
    for k in range(ctx.pick(28, 160)):
        # per type so many phrasematches that the leaves are around or well above the limit
        t = rng.choice([3, 4, 5, 6])
        types = sorted(rng.sample(range(7), t))
        per = {3: 13, 4: 7, 5: 5, 6: 4}[t] + rng.choice([-1, 0, 0, 1] if k % 4 else [0])
        pms = some_pms(rng, t * per, types, t + 2, rng.choice([0, 0, 0, 0.03]),
                       rng.choice(WEIGHTS + [[rng.randrange(1, 40) * 25000 for _ in range(30)]]), 1 if rng.random() < 0.8 else 2)
        for i, p in enumerate(pms):      # evenly over the types
            s = types[i % t]
            q = next((q for q in pms if q["store"][1:-1] == str(s)), None)
            if q:
                p.update({f: q[f] for f in ("store", "idx", "nonov")})
                p["mask"] = [q["mask"][0]]
        steps.append({"e": "tree", "pms": pms})
    for _ in range(ctx.pick(24, 200)):
        steps.append({"e": "tree", "pms": on_the_edge(rng)})
    return steps


def on_the_edge(rng):
    """Just about as many good combinations as fit, and worse ones before, between and after them."""
    a, b, c, d = rng.sample(range(7), 4) if rng.random() < 0.3 else (0, 1, 2, 3)
    m, n = rng.choice([(44, 45), (40, 49), (20, 99), (39, 50), (50, 39)])
    fill = 2000 - m * n + rng.choice([-2, -1, -1, 0, 0, 1, 2])
    w = rng.choice([100000, 333333, 500000])
    out = []

    def some(t, k, mask, weight):
        for _ in range(k):
            out.append({"store": "t%da" % t, "idx": t, "nonov": [], "weight": weight, "mask": mask, "keys": [key(rng, len(out))]})
    low = rng.randrange(0, 40)
    some(a, low, [0, 1], rng.choice([w, 2 * w - 1, 10]))
    some(b, m, [0], w)
    some(c, n, [1], w)
    some(d, fill, [0, 1], 2 * w)
    some(d, rng.randrange(0, 30), [0, 1], rng.choice([w, 2 * w - 1, 2 * w + 1]))
    if rng.random() < 0.5:
        rng.shuffle(out)
    return out


def collapsing(ctx):
    rng, steps = ctx.rng, []
    for _ in range(ctx.pick(3000, 40000)):
        types = sorted(rng.sample(range(7), rng.randrange(1, 4)))
        pms = some_pms(rng, rng.randrange(0, rng.choice([3, 6, 12])), types, rng.choice([1, 2, 3]),
                       rng.choice([0, 0.3]), rng.choice(WEIGHTS[:5]))
        n = 0
        for p in pms:
            p["keys"] = [key(rng, n + i) for i in range(rng.choice([1, 1, 2, 3]))]
            n += len(p["keys"])
            if rng.random() < 0.3:
                p["nonov"] = sorted(rng.sample(range(16), rng.randrange(4)))
            if rng.random() < 0.3 and pms:       # the same as another but for one part
                q = rng.choice(pms)
                for f in ("store", "idx", "weight", "mask"):
                    if rng.random() < 0.85:
                        p[f] = q[f]
        steps.append({"e": "collapse", "pms": pms})
    return steps


def run(ctx):
    steps = {"C17": whole, "C18": overfull, "C19": collapsing}[ctx.prop](ctx)
    per = {"C17": 60, "C18": 1, "C19": 150}[ctx.prop]
    scns = [{"steps": setup(range(7)) + steps[i:i + per]} for i in range(0, len(steps), per)]
    ctx.log("%d scenarios with %d steps" % (len(scns), len(steps)))
    ctx.sample(steps[0])
    ctx.sample(steps[-1])
    traces = core.run_driver(ctx, core.core_driver(), scns)
    core.validate(ctx, "Trace_Stack", traces, scenarios=scns, shards=core.CORES if ctx.prop == "C18" else 5)
