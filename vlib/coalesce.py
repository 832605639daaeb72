"""C13 to C16, C24, C27: coalescing."""
from . import core, parts
from .store import ALL, p32

WEIGHTS = [1000000, 500000, 250000, 750000, 700000, 900000, 550000, 350000, 310000]
LANGS = [ALL, [0] * 15 + [1], [0] * 15 + [2], [1] + [0] * 14 + [2]]
RELEVS = [400000, 600000, 800000, 1000000]


class World:
    """Stores over the same places of the earth at different zooms, with what they hold."""

    def __init__(self, rng, zooms, nkeys, nents, nplaces, nfeatures, spread=None, slow_radius=False, first=0):
        self.rng = rng
        cluster = spread if spread is not None else rng.choice([4, 8, 12, 16])
        cx, cy = (rng.randrange(65536) for _ in "xy")
        self.places = [tuple(min(65535, max(0, c + rng.randrange(-(1 << cluster) // 2, (1 << cluster) // 2 + 1))) for c in (cx, cy))
                       for _ in range(nplaces)]
        if rng.random() < 0.2:
            self.places += [rng.choice([(0, 0), (65535, 65535), (0, 65535), (32768, 32767)])]
        self.steps, self.stores = [], []
        for i, (t, z) in enumerate(zooms):
            n, m, f = (v(rng) if callable(v) else v for v in (nkeys, nents, nfeatures))
            b, s = "b%d" % (first + i), "s%d" % (first + i)
            self.steps.append({"e": "build", "b": b})
            used, ks, tiles = rng.sample(LANGS, rng.choice([1, 1, 2, 3])), [], []
            ids = rng.sample(range(3 * f), f) if rng.random() < 0.7 else list(range(f))
            if rng.random() < 0.3:
                ids = [k + (rng.choice([1, 1 << 16, (1 << 24) - 3 * f - 1])) for k in ids]
            left = list(ids)
            for p in range(n):
                for l in rng.sample(used, rng.randrange(1, len(used) + 1)):
                    es = []
                    for _ in range(m):
                        x, y = rng.choice(self.places)
                        if left and rng.random() < 0.7:
                            fid = left.pop(rng.randrange(len(left)))
                        else:
                            fid = rng.choice(ids)
                        es.append({"r": rng.choice(RELEVS if rng.random() < 0.5 else RELEVS[2:]),
                                   "s": rng.choice([0, 0, 7, rng.randrange(16)]), "x": x >> (16 - z), "y": y >> (16 - z),
                                   "id": p32(fid), "h": rng.choice([0, 1, rng.randrange(256)])})
                    tiles += [(e["x"], e["y"]) for e in es]
                    ks.append(p)
                    self.steps.append({"e": "insert", "b": b, "key": {"p": p32(p + 1), "l": l}, "entries": es})
            if n > 2 and rng.random() < 0.4:
                self.steps.append({"e": "bounds", "b": b, "bounds": [p32(1), p32(1 + n // 2), p32(1 + n)]})
            self.steps.append({"e": "finish", "b": b})
            tiles = tiles or [(0, 0)]
            box = [min(x for x, _ in tiles), min(y for _, y in tiles), max(x for x, _ in tiles), max(y for _, y in tiles)]
            edge = (1 << z) - 1
            few = [[x, y, x, y] for x, y in sorted(set(tiles))]
            nowhere = [[min(edge, (7 * k) % (edge + 1))] * 4 for k in range(rng.randrange(1, 9))]
            boxes = rng.choice([[[0, 0, edge, edge]], [box], [box, [0, 0, 0, 0]], nowhere + [box], few, nowhere + few])
            self.steps.append({"e": "open", "s": s, "b": b, "zoom": z, "type": t,
                               "radius": rng.choice([200, 400, 1000, 20000]), "bboxes": boxes, "max_score": rng.choice([0, 7, 15])})
            self.stores.append({"s": s, "zoom": z, "type": t, "n": n, "idx": None})
        for s, i in zip(self.stores, rng.sample(range(rng.choice([len(self.stores), 128])), len(self.stores))):
            s["idx"] = i

    def near(self, z):
        x, y = self.rng.choice(self.places)
        return [min((1 << z) - 1, max(0, (c >> (16 - z)) + self.rng.choice([0, 0, 0, 1, -1, self.rng.randrange(-40, 41)]))) for c in (x, y)]

    def box(self, z):
        a, b = self.near(z), self.near(z)
        return [min(a[0], b[0]), min(a[1], b[1]), max(a[0], b[0]), max(a[1], b[1])]

    def opts(self, z):
        return {"zoom": z, "bbox": self.box(z) if self.rng.random() < 0.3 else [],
                "prox": self.near(z) if self.rng.random() < 0.5 else []}

    def match_key(self, s, exact=0.4, nearby=0.0):
        rng = self.rng
        l = rng.choice(LANGS)
        if rng.random() < exact:
            k = {"kind": "exact", "start": p32(rng.randrange(1, s["n"] + 1)), "end": p32(0), "l": l}
        else:
            a = rng.randrange(1, s["n"] + 1)
            a, b = rng.choice([(1, 1 + s["n"]), (1, 1 + s["n"]), (a, rng.randrange(a, s["n"] + 1) + 1)])
            k = {"kind": "range", "start": p32(a), "end": p32(b), "l": l}
        return {"key": k, "nearby": rng.random() < nearby, "len": rng.randrange(1, 12)}

    def pm(self, s, mask, keys, weight=None, nonov=()):
        return {"store": s["s"], "idx": s["idx"], "nonov": list(nonov), "mask": sorted(mask),
                "weight": weight or self.rng.choice(WEIGHTS), "keys": keys}


def ladder(rng, n, equal=0.3, top=16):
    """Types, ascending, with zooms that do not fall."""
    zs = sorted(rng.choice([0, 1, 4, 6, 9, 11, 12, 14, 14, 16, rng.randrange(17)]) for _ in range(n))
    zs = [min(z, top) for z in zs]
    for i in range(1, n):
        if rng.random() < equal:
            zs[i] = zs[i - 1]
    types = sorted(rng.sample(range(7), n))
    return list(zip(types, sorted(zs)))


SINGLE = """SPECIFICATION Spec
CONSTANTS
  MaxContexts <- Most
  Most = %d
  Ids = {%s}
  Relevs = {%s}
  Dists = {%s}
  MaxLen = %d
  Weight = %d
  Near = %s
  Mixed = %s
  Old = {%s}
  Emit = %s
INVARIANTS Sound Complete PrintScenario
%s
CHECK_DEADLOCK FALSE
"""
LIVE = "PROPERTY Finishes"


def single_models(ctx):
    """One phrasematch: the pass over its matches, for all streams of them."""
    def holds(name, *k):
        return lambda: core.model_check(ctx, "MC_Single", SINGLE % (k + ("", "FALSE", "" if ctx.quick else LIVE)), name="MC_Single-" + name,
                                        workers=3)

    def fails(name, old, *k):
        return lambda: core.model_fails(ctx, "MC_Single", SINGLE % (k + (old, "FALSE", "")), name="MC_Single-old-" + name)
    return [
        holds("many", ctx.pick(2, 3), "0, 1, 2", "1000000, 800000", "0", ctx.pick(6, 8), 1000000, "TRUE", "FALSE"),
        holds("sorted", 1, "0, 1, 2", "1000000, 800000, 700000", "0, 1", ctx.pick(3, 4), 1000000, "FALSE", "FALSE"),
        holds("languages", 2, "0, 1" if ctx.quick else "0, 1, 2", "1000000, 600000", "0, 1", ctx.pick(3, 4), 600000, "TRUE", "TRUE"),
        fails("count", '"count"', 3, "0, 1, 2", "1000000, 800000", "0", 8, 1000000, "TRUE", "FALSE"),
        fails("cut", '"cut"', 2, "0, 1", "1000000, 600000", "0, 1", 3, 600000, "TRUE", "TRUE"),
        fails("skip", '"skip"', 2, "0, 1", "1000000, 800000", "0, 1", 3, 1000000, "TRUE", "TRUE"),
        fails("zero", '"skip", "zero"', 1, "0, 1", "1000000", "0, 1", 3, 1000000, "FALSE", "FALSE")]


def from_streams(ctx, n):
    """Stores with the matches of the streams that the model explored."""
    rng, scns = ctx.rng, []
    got = parts.behaviours(ctx, "MC_Single", SINGLE % (2, "0, 1" if ctx.quick else "0, 1, 2", "1000000, 600000", "0, 1", ctx.pick(3, 4), 600000,
                                                       "TRUE", "TRUE", "", "TRUE", ""))
    rng.shuffle(got)
    for i in range(0, min(n, len(got)), 100):
        first = rng.choice([0, 1])
        steps, asks = [{"e": "build", "b": "b0"}], []
        for k, g in enumerate(got[i:i + 100]):
            lists = {True: [], False: []}
            for j, (relev, far, ml, d, fid) in enumerate(g["stream"]):
                # score-distances: far 7 > near 5.8 > near 2.7 > far 1
                x = 800 + j if far else 506 - d
                lists[ml].append({"r": relev, "s": 7 * d if far else 5 * d, "x": x, "y": 500 + (0 if far else j % 2), "id": p32(fid), "h": j})
            for ml, l in ((True, LANGS[1]), (False, LANGS[2])):
                steps.append({"e": "insert", "b": "b0", "key": {"p": p32(2 * k + 1 + (first if ml else 1 - first)), "l": l}, "entries": lists[ml]})
            asks.append({"e": "coalesce", "pms": [{"store": "s0", "idx": 0, "nonov": [], "weight": rng.choice([600000, 600000, 1000000]), "mask": [0],
                                                   "keys": [{"key": {"kind": "range", "start": p32(2 * k + 1), "end": p32(2 * k + 3), "l": LANGS[1]},
                                                             "nearby": False, "len": 3, "id": 0}]}],
                         "opts": {"bbox": [], "prox": [500, 500], "zoom": 14}, "streams": 100000})
        steps += [{"e": "finish", "b": "b0"}, {"e": "open", "s": "s0", "b": "b0", "zoom": 14, "type": 1, "radius": 20,
                                               "bboxes": [[0, 0, 16383, 16383]], "max_score": 7}]
        scns.append({"steps": steps + asks})
    return scns


def languages(ctx, n):
    """Features near and far in several languages: matches that are penalised come between others."""
    rng, scns = ctx.rng, []
    for _ in range(n):
        z = rng.choice([6, 11, 14, 16])
        c = min(3000, 1 << (z - 1))
        steps, nf = [{"e": "build", "b": "b0"}], rng.choice([1, 2, 4, 30, 50, 80, 100])
        np = rng.choice([2, 4, 8])
        for p in range(np):
            es = [{"r": rng.choice([600000, 1000000, 1000000]), "s": rng.randrange(8),
                   "x": min((1 << z) - 1, max(0, c + rng.choice([1, -1, 2, 5, 8, 300, -900]))), "y": c + rng.choice([0, 1, -3]),
                   "id": p32(rng.randrange(nf)), "h": 0} for _ in range(rng.choice([2, 4, 12]) if nf < 10 else nf // 2)]
            steps.append({"e": "insert", "b": "b0", "key": {"p": p32(p + 1), "l": rng.choice(LANGS[1:])}, "entries": es})
        steps += [{"e": "finish", "b": "b0"}, {"e": "open", "s": "s0", "b": "b0", "zoom": z, "type": 1,
                                               "radius": {6: 400, 11: 100, 14: 20, 16: 5}[z] * rng.choice([0.5, 1, 2]),
                                               "bboxes": [[0, 0, (1 << z) - 1, (1 << z) - 1]], "max_score": 7}]
        for _ in range(4):
            steps.append({"e": "coalesce", "pms": [{"store": "s0", "idx": 0, "nonov": [], "weight": rng.choice([600000, 610000, 1000000, 750000]),
                                                   "mask": [0], "keys": [{"key": {"kind": "range", "start": p32(1), "end": p32(np + 1),
                                                                                  "l": rng.choice(LANGS)}, "nearby": False, "len": 3, "id": 0}]}],
                         "opts": {"bbox": [], "prox": [c, c] if rng.random() < 0.9 else [], "zoom": z}, "streams": 100000})
        scns.append({"steps": steps})
    return scns


def single(ctx):
    rng, scns = ctx.rng, from_streams(ctx, ctx.pick(1600, 40000)) + languages(ctx, ctx.pick(60, 600))
    for _ in range(ctx.pick(250, 1500)):
        k = rng.randrange(4)
        zs = [(i, z) for i, z in enumerate(rng.choice([0, 2, 6, 9, 11, 14, 16]) for _ in range(2))]
        nf = rng.choice([1, 2, 5, 30]) if k == 0 else rng.choice([39, 41, 60, 80, 100, 200])
        ne = rng.choice([3, 20, 100]) if k == 1 else max(1, nf // 3)
        w = World(rng, zs, lambda r: r.choice([1, 3, 5] if k < 3 else [100, 120]), ne if k < 3 else rng.choice([1, 2]),
                  rng.choice([1, 4, 30, 200]), nf)
        steps = list(w.steps)
        for _ in range(6):
            s = rng.choice(w.stores)
            key = dict(w.match_key(s, 0.3 if k < 3 else 0.02), id=rng.randrange(9))
            steps.append({"e": "coalesce", "pms": [w.pm(s, [rng.randrange(4)], [key])], "opts": w.opts(s["zoom"]), "streams": 100000})
        scns.append({"steps": steps})
    return scns


MULTI = """SPECIFICATION Spec
CONSTANTS
  ZoomLists <- ZL%d
  MaskLists <- ML%d
  Weights = {500000}
  Relevs = {1000000, 800000}
  Xs = {%s}
  MaxMs = %d
  Emit = %s
INVARIANTS AllLegal AtMost BestOfAll Pairs PrintScenario
CHECK_DEADLOCK FALSE
"""


def multi_models(ctx):
    def holds(n, *k):
        return lambda: core.model_check(ctx, "MC_Multi", MULTI % ((n, n) + k + ("FALSE",)), name="MC_Multi-%d" % n, workers=4)
    return [holds(3, ctx.pick("0, 1", "0, 1, 2"), ctx.pick(1, 2)), holds(2, "0, 1, 2", ctx.pick(2, 3))]


def from_multi(ctx, n):
    """The phrasematches that the model explored, many of them over the same stores."""
    rng, scns = ctx.rng, []
    got = parts.behaviours(ctx, "MC_Multi", MULTI % (3, 3, ctx.pick("0, 1", "0, 1, 2"), ctx.pick(1, 2), "TRUE"))
    more = parts.behaviours(ctx, "MC_Multi", MULTI % (2, 2, "0, 1", 2, "TRUE"))
    rng.shuffle(got)
    rng.shuffle(more)
    got = [g for pair in zip(got, more) for g in pair] + got[len(more):] + more[len(got):]
    for i in range(0, min(n, len(got)), 40):
        stores, asks = {}, []
        for q, g in enumerate(got[i:i + 40]):
            pms, x0, y0 = [], rng.randrange(1, 60), rng.randrange(1, 60)
            lowest = g["pms"][0]["zoom"]
            for k, pm in enumerate(g["pms"]):
                z, phrase = pm["zoom"], q + 1
                far = z - lowest
                base = (x0 << far) if lowest else 0
                es = [{"r": r, "s": rng.choice([0, 7]), "x": base + x, "y": (y0 << far) + rng.randrange(1 << min(far, 3)) if lowest else 0,
                       "id": p32(fid), "h": 0} for r, x, fid in pm["ms"] if base + x < 1 << z]
                stores.setdefault((k, z), []).append((phrase, es))
                name = "%d%d" % (k, z)
                pms.append({"store": "s" + name, "idx": k + 1, "nonov": [], "weight": pm["weight"], "mask": pm["mask"],
                            "keys": [{"key": {"kind": "exact", "start": p32(phrase), "end": p32(0), "l": ALL}, "nearby": False, "len": 3, "id": k}]})
            asked = pms[:]
            rng.shuffle(asked)
            asks.append({"e": "coalesce", "pms": asked, "opts": {"bbox": [], "prox": [], "zoom": lowest}, "streams": 100000})
        steps = []
        for (k, z), phrases in sorted(stores.items()):
            b = "b%d%d" % (k, z)
            steps.append({"e": "build", "b": b})
            steps += [{"e": "insert", "b": b, "key": {"p": p32(p), "l": ALL}, "entries": es} for p, es in phrases]
            edge = (1 << z) - 1
            steps += [{"e": "finish", "b": b}, {"e": "open", "s": "s" + b[1:], "b": b, "zoom": z, "type": k, "radius": 400,
                                                "bboxes": [[0, 0, edge, edge]], "max_score": 7}]
        scns.append({"steps": steps + asks})
    return scns


def stacks(ctx):
    rng, scns = ctx.rng, from_multi(ctx, ctx.pick(1200, 20000))
    for _ in range(ctx.pick(1000, 6000)):
        zs = ladder(rng, rng.choice([2, 2, 3, 4]), rng.choice([0, 0.5, 1]))
        w = World(rng, zs, lambda r: r.choice([1, 2, 3]), lambda r: r.choice([1, 2, 5, 12]), rng.choice([1, 2, 5, 20]),
                  lambda r: r.choice([1, 3, 10, 30]))
        steps = list(w.steps)
        for _ in range(6):
            words = rng.choice([2, 3, 4])
            pms = []
            for s in rng.sample(w.stores, rng.randrange(2, len(w.stores) + 1)) * rng.choice([1, 1, 1, 2]):
                mask = rng.choice([[len(pms) % words], rng.sample(range(words), rng.randrange(1, 3)), [rng.randrange(words)]])
                pms.append(w.pm(s, mask, [dict(w.match_key(s), id=len(pms))]))
            rng.shuffle(pms)
            steps.append({"e": "coalesce", "pms": pms, "opts": w.opts(rng.choice([s["zoom"] for s in w.stores])), "streams": 100000})
        if rng.random() < 0.02:
            steps.append({"e": "coalesce", "pms": [], "opts": w.opts(6), "streams": 10})
        scns.append({"steps": steps})
    return scns


def tree_pms(w, rng, n, words, maxkeys, nearby, excl=0.1, weights=WEIGHTS, exact=0.4):
    """Phrasematches; every match key has an id of its own."""
    pms, last = [], rng.choice([0, 0, 1000])
    non = {s["idx"]: set() for s in w.stores}
    for a in w.stores:
        for b in w.stores:
            if a["idx"] < b["idx"] and rng.random() < excl:
                non[a["idx"]].add(b["idx"])
                non[b["idx"]].add(a["idx"])
    for _ in range(n):
        s = rng.choice(w.stores)
        a = rng.randrange(words)
        mask = rng.choice([[a], [a], list(range(a, min(words, a + 2)))])
        keys = []
        for _ in range(rng.randrange(1, maxkeys + 1)):
            k = w.match_key(s, exact, nearby)
            last += 1
            k["id"] = last
            keys.append(k)
        pms.append(w.pm(s, mask, keys, rng.choice(weights), sorted(non[s["idx"]])))
    return pms


def tree_steps(ctx, w, rng, n, **kw):
    steps = []
    for _ in range(n):
        pms = tree_pms(w, rng, rng.randrange(1, kw.get("pms", 6) + 1), rng.choice([1, 2, 3, 4]), rng.choice([1, 1, 2, 3]),
                       rng.choice([0, 0.2]))
        steps.append({"e": rng.choice(["tree_coalesce", "stack_and_coalesce"]), "pms": pms,
                      "opts": w.opts(rng.choice([s["zoom"] for s in w.stores])), "streams": True})
    return steps


TREE = """SPECIFICATION Spec
CONSTANTS
  MaxContexts <- Most
  MaxAll <- MostAll
  Quota <- QuotaHere
  Shapes <- %s
  Relevs = {%s}
  Xs = {0, 1}
  MaxMs = %d
  Most = %d
  MostAll = %d
  Chunk = %d
  Few <- %s
  Wrong = {%s}
  Emit = %s
INVARIANTS Sound Complete EndsInTime OrderIsNothing QuotasHold RefusedForAReason OnceEach PrintScenario
%s
CHECK_DEADLOCK FALSE
"""
ONE, TWO = "1000000", "1000000, 800000"


def tree_models(ctx):
    """The search of the tree: chunks, early end, quotas, skipped scans."""
    def holds(name, *k):
        return lambda: core.model_check(ctx, "MC_Tree", TREE % (k + ("", "FALSE", "")), name="MC_Tree-" + name, workers=3)

    def fails(name, *k):
        return lambda: core.model_fails(ctx, "MC_Tree", TREE % (k + ('"%s"' % name, "FALSE", "")), name="MC_Tree-wrong-" + name)
    full = {"C15": [("crowded", "Crowded", TWO, 1, 2, 3, 2, "Plenty"), ("lonely", "Lonely", ONE, 1, 2, 2, 2, "Plenty")],
            "C16": [("crowded", "Crowded", ONE if ctx.quick else TWO, 1, 2, 1, 2, "Plenty"),
                    ("slowly", "Slowly", ONE, 1, 20, 40, 1, "Plenty"), ("deep", "Deep", ONE, 1, 1, 1, 2, "Plenty")],
            "C24": [("chunks", "Slowly", ONE, 1, 2, 3, 3, "Plenty")],
            "C27": [("scarce", "Slowly", ONE, 1, 20, 40, 2, "Scarce"), ("scarce1", "Slowly", ONE, 1, 20, 40, 1, "Scarce"),
                    ("mingled", "Mingled", ONE, 1, 20, 40, 2, "Scarce"), ("shared", "Shared", ONE, 1, 20, 40, 2, "Scarce")]}[ctx.prop]
    if not ctx.quick:
        full += [("many", "Crowded", TWO, 2, 2, 3, 2, "Plenty"), ("alone", "Lonely", TWO, 1, 2, 3, 2, "Plenty"),
                 ("slow3", "Slowly", TWO, 1, 20, 40, 3, "Plenty"), ("few", "Slowly", TWO, 1, 20, 40, 2, "Scarce")]
    jobs = [holds(*k) for k in full]
    if ctx.prop == "C16":
        jobs += [fails("bound", "Crowded", TWO, 1, 2, 1, 2, "Plenty"), fails("leaf", "Slowly", ONE, 1, 20, 40, 1, "Plenty"),
                 fails("ends", "Deep", ONE, 1, 1, 1, 2, "Plenty")]
    if ctx.prop == "C27":
        jobs += [fails("quota", "Slowly", ONE, 1, 20, 40, 2, "Scarce"), fails("waste", "Mingled", ONE, 1, 20, 40, 2, "Scarce"),
                 fails("twice", "Shared", ONE, 1, 20, 40, 2, "Scarce")]
    return jobs


def from_trees(ctx, n):
    """The phrasematches that the model explored, many of them over the same stores."""
    rng, scns, got = ctx.rng, [], []
    for shapes in ("Crowded", "Lonely", "Slowly"):
        some = parts.behaviours(ctx, "MC_Tree", TREE % (shapes, ctx.pick(ONE, TWO), 1, 2, 3, 2, "Plenty", "", "TRUE", ""))
        rng.shuffle(some)
        got += some[:n // 3]
    rng.shuffle(got)
    for i in range(0, len(got), 40):
        stores, asks, last = {}, [], 0
        for q, g in enumerate(got[i:i + 40]):
            pms, x0 = [], rng.randrange(1, 60)
            for k, pm in enumerate(g["pms"]):
                z, keys = pm["zoom"], []
                for key in pm["keys"]:
                    last += 1
                    phrase = 2 * last
                    stores.setdefault((pm["type"], z), []).append(
                        (phrase, [{"r": r, "s": 0, "x": (x0 << (z - 6)) + x, "y": 5 << (z - 6), "id": p32(fid), "h": 0} for r, x, fid in key["ms"]]))
                    keys.append({"key": {"kind": "range" if key["range"] else "exact", "start": p32(phrase),
                                         "end": p32(phrase + 2 if key["range"] else 0), "l": ALL},
                                 "nearby": key["nearby"], "len": key["len"], "id": last})
                pms.append({"store": "s%d%d" % (pm["type"], z), "idx": pm["type"], "nonov": [], "weight": pm["weight"], "mask": pm["mask"],
                            "keys": keys})
            rng.shuffle(pms)
            asks.append({"e": rng.choice(["tree_coalesce", "stack_and_coalesce"]), "pms": pms,
                         "opts": {"bbox": [], "prox": [x0, 5] if rng.random() < 0.3 else [], "zoom": 6}, "streams": True})
        steps = []
        for (t, z), phrases in sorted(stores.items()):
            b = "b%d%d" % (t, z)
            steps.append({"e": "build", "b": b})
            steps += [{"e": "insert", "b": b, "key": {"p": p32(p), "l": ALL}, "entries": es} for p, es in phrases]
            edge = (1 << z) - 1
            steps += [{"e": "finish", "b": b}, {"e": "open", "s": "s" + b[1:], "b": b, "zoom": z, "type": t, "radius": 400,
                                                "bboxes": [[0, 0, edge, edge]], "max_score": 7}]
        scns.append({"steps": steps + asks})
    return scns


def trees(ctx):
    rng, scns = ctx.rng, from_trees(ctx, ctx.pick(900, 9000))
    for _ in range(ctx.pick(600, 4000)):
        big = rng.random() < 0.25
        zs = ladder(rng, 2 if big else rng.choice([1, 2, 3, 4]), rng.choice([0, 0.5, 1]))
        w = World(rng, zs, lambda r: r.choice([1, 2, 3]), lambda r: r.choice([20, 50] if big else [1, 2, 5, 12]),
                  rng.choice([1, 2, 5, 20]) if not big else rng.choice([5, 20, 60]), lambda r: r.choice([1, 3, 10, 30, 90]))
        scns.append({"steps": w.steps + tree_steps(ctx, w, rng, 5, pms=3 if big else 6)})
    return scns


def crowds(ctx):
    """More contexts than are kept: many phrasematches of many features, alone and stacked."""
    rng, scns = ctx.rng, []
    for _ in range(ctx.pick(12, 80)):
        zs = ladder(rng, 2, rng.choice([0, 1]))
        w = World(rng, zs, lambda r: r.choice([2, 4]), lambda r: r.choice([30, 60]), rng.choice([5, 20]), lambda r: r.choice([50, 90]))
        steps = list(w.steps)
        for _ in range(2):
            weights = rng.choice([[100000 * k for k in range(1, 11)], [1000000], [500000, 1000000], WEIGHTS])
            if rng.random() < 0.5:
                pms = tree_pms(w, rng, 26, 1, 3, 0.1, weights=weights, exact=0.6)
            else:
                pms = tree_pms(w, rng, 12, 2, 1, 0.1, weights=weights, exact=0.8)
            steps.append({"e": rng.choice(["tree_coalesce", "stack_and_coalesce"]), "pms": pms,
                          "opts": w.opts(rng.choice([s["zoom"] for s in w.stores])), "streams": True})
        scns.append({"steps": steps})
    return scns


def plain(name, zoom, typ, phrases):
    """Steps that make and open store s+name of phrases 1.. (lists of (relevance, score, x, y, feature))."""
    edge = (1 << zoom) - 1
    steps = [{"e": "build", "b": "b" + name}]
    for i, es in enumerate(phrases):
        steps.append({"e": "insert", "b": "b" + name, "key": {"p": p32(2 * i + 2), "l": ALL},
                      "entries": [{"r": r, "s": s, "x": x, "y": y, "id": p32(f), "h": 0} for r, s, x, y, f in es]})
    return steps + [{"e": "finish", "b": "b" + name},
                    {"e": "open", "s": "s" + name, "b": "b" + name, "zoom": zoom, "type": typ, "radius": 400,
                     "bboxes": [[0, 0, edge, edge]], "max_score": 7}]


def asking(name, idx, mask, weight, keys):
    """A phrasematch; keys: (phrase, whether a range, id)."""
    return {"store": "s" + name, "idx": idx, "nonov": [], "weight": weight, "mask": mask,
            "keys": [{"key": {"kind": "range" if rnge else "exact", "start": p32(2 * p), "end": p32(2 * p + 2 if rnge else 0), "l": ALL},
                      "nearby": False, "len": 4, "id": i} for p, rnge, i in keys]}


def leaves(ctx):
    """Slow prefix scans at the ends of paths that lead to about 75% of the best result, which is known before."""
    rng, scns = ctx.rng, []
    for _ in range(ctx.pick(100, 700)):
        zs = [rng.choice([6, 12]), rng.choice([12, 13, 14]), rng.choice([14, 16])]
        at = lambda z: (3 << (z - 6), 5 << (z - 6))
        steps = []
        for t, z in enumerate(zs):
            x, y = at(z)
            steps += plain(str(t), z, t + 1, [[(r, rng.randrange(8), x + d, y, f) for f, (r, d) in enumerate(es)] for es in
                                              ([(1000000, 0)], [(800000, 0), (600000, 0)], [(1000000, 0), (800000, 1)])])
        x, y = at(zs[0])
        steps += plain("9", zs[0], 9, [[(1000000, 3, x, y, 1)], [(1000000, 2, x, y, 2)]])
        for _ in range(4):
            last, pms = 0, []

            def add(st, mask, weight, rnge=False, phrase=None):
                nonlocal last
                last += 1
                pms.append(asking(str(st), st, mask, weight, [(phrase or rng.choice([1, 1, 2, 3]), rnge, last)]))
            best = rng.choice([1000000, 800000])
            for _ in range(rng.choice([1, 1, 8, 9])):
                add(9, [0, 1, 2], best, phrase=rng.choice([1, 2]))
            for _ in range(rng.choice([1, 2, 3])):
                goal = best * rng.choice([60, 74, 75, 76, 78, 85, 95, 100, 104]) // 100000 * 1000
                depth = rng.choice([1, 2, 2, 3, 3])
                parts_ = [goal]
                if depth > 1:
                    a = goal * rng.choice([30, 50, 60]) // 100000 * 1000
                    parts_ = [a, goal - a]
                if depth > 2:
                    a = parts_[0] // 2000 * 1000
                    parts_ = [a, parts_[0] - a, parts_[1]]
                for k, w in enumerate(parts_):
                    end = k == len(parts_) - 1
                    add(2 if end else k, [0, 1, 2] if len(parts_) == 1 and rng.random() < 0.3 else [2 if end else k], w, end and rng.random() < 0.9)
            rng.shuffle(pms)
            steps.append({"e": rng.choice(["tree_coalesce", "stack_and_coalesce"]), "pms": pms,
                          "opts": {"bbox": [], "prox": list(at(zs[0])) if rng.random() < 0.3 else [], "zoom": zs[0]}, "streams": True})
        scns.append({"steps": steps})
    return scns


def deep(ctx):
    """Paths whose end belongs in the answer, while their beginning is worse than the worst of as many contexts as are kept."""
    rng, scns = ctx.rng, []
    for _ in range(ctx.pick(6, 30)):
        n = rng.choice([1, 2, 3])
        r = rng.choice([800000, 600000])
        steps = plain("0", 6, 9, [[(r, rng.randrange(8), f % 8, f // 8, f) for f in range(44)] for _ in range(3)])
        for t in range(1, n + 2):
            steps += plain(str(t), 6 + t, t, [[(1000000, 1, 1 << t, 1 << t, 7)]])
        pms, last = [], 0
        worst = 700000 * r // 1000000
        for i in range(rng.choice([8, 10])):
            keys = []
            for _ in range(3):
                last += 1
                keys.append((last % 3 + 1, False, last))
            pms.append(asking("0", 9, [0, 1, 2, 3, 4], 700000, keys))
        total = worst + rng.choice([-30000, 20000, 60000, 100000])
        for t in range(1, n + 2):
            last += 1
            pms.append(asking(str(t), t, [t - 1], total // (n + 1) // 1000 * 1000, [(1, False, last)]))
        steps.append({"e": "tree_coalesce", "pms": pms, "opts": {"bbox": [], "prox": [], "zoom": 6}, "streams": True})
        scns.append({"steps": steps})
    return scns


def schedules(ctx):
    """The same questions from pools of several sizes, with fetches in several orders, and all at once."""
    rng, scns = ctx.rng, []
    for _ in range(ctx.pick(60, 400)):
        n = rng.choice([3, 5, 7])
        zs = ladder(rng, n, rng.choice([0.3, 1]))
        big = rng.random() < 0.3
        w = World(rng, zs, lambda r: r.choice([1, 3]), lambda r: r.choice([30, 60] if big else [2, 5, 12]), rng.choice([3, 10, 40]),
                  lambda r: r.choice([10, 60]))
        steps, asked = list(w.steps), []
        for q in range(3):
            words = rng.choice([1, 2, 2, 3, 4])
            pms = []
            for s in rng.sample(w.stores, rng.randrange(2, n + 1)):
                k = dict(w.match_key(s, 0.3, 0.1), id=len(pms) + 1)
                pms.append(w.pm(s, rng.choice([[len(pms) % words], [rng.randrange(words)]]), [k], rng.choice([None, 500000])))
            if rng.random() < 0.5:       # alike but for the mask
                for p in rng.sample(pms, min(2, len(pms))):
                    pms.append(dict(p, mask=[words], keys=[dict(k, id=k["id"] + 50) for k in p["keys"]]))
            ask = {"e": rng.choice(["tree_coalesce", "stack_and_coalesce"]), "q": q, "pms": pms,
                   "opts": w.opts(rng.choice([s["zoom"] for s in w.stores]))}
            asked.append(ask)
            dirs = sorted({"b" + p["store"][1:] for p in pms})
            steps.append(ask)
            for pool in (1, 2, 3, 8):
                steps.append(dict(ask, pool=pool))
            if len(pms) <= 8:
                for _ in range(ctx.pick(4, 8)):
                    rng.shuffle(dirs)
                    steps.append(dict(ask, pool=8, schedule=list(dirs)))
        steps.append({"e": "concurrent", "qs": [{"pms": a["pms"], "opts": a["opts"]} for a in asked], "threads": 6})
        scns.append({"steps": steps})
    return scns


def mingled(ctx, n):
    """Scans that several quotas may refuse come before others that only one may; several nodes want the same scan."""
    rng, scns = ctx.rng, []
    for _ in range(n):
        m = 120
        parents = rng.choice([0, 0, 1, 2, 3])
        zooms = [rng.choice([0, 6, 13]), 14, rng.choice([14, 16])]
        types = [1, 2, 2] if parents else [2, 2, 2]
        steps = []
        for i, z in enumerate(zooms):
            steps.append({"e": "build", "b": "b%d" % i})
            for p in range(1, m + 1):
                steps.append({"e": "insert", "b": "b%d" % i, "key": {"p": p32(p), "l": ALL},
                              "entries": [{"r": 1000000, "s": rng.randrange(8), "x": 0, "y": 0, "id": p32(p % 3), "h": 0}]})
            steps += [{"e": "finish", "b": "b%d" % i},
                      {"e": "open", "s": "s%d" % i, "b": "b%d" % i, "zoom": z, "type": types[i], "radius": 400,
                       "bboxes": [[0, 0, (1 << z) - 1, (1 << z) - 1]], "max_score": 7}]
        for _ in range(3):
            starts = [rng.sample(range(1, m - 6), m - 8) for _ in zooms]
            last, pms = 0, []

            def pm(st, mask, weight, keys):
                nonlocal last
                ks = []
                for rnge, ln, near in keys:
                    a, last = starts[st].pop(), last + 1
                    ks.append({"key": {"kind": "range" if rnge else "exact", "start": p32(a), "end": p32(a + 3 if rnge else 0), "l": ALL},
                               "nearby": near, "len": ln, "id": last})
                pms.append({"store": "s%d" % st, "idx": st, "nonov": [], "weight": weight, "mask": mask, "keys": ks})
            more = rng.choice([2, 2, 3, 4, 20])
            letter, word, near, exact = (True, 1, False), (True, more, False), (True, more, True), (False, 4, False)
            # ever lighter: first what exhausts one quota, then what asks it and another, then what asks only the other
            top = 1000000
            for _ in range(parents):
                pm(0, [0], 400000, [exact])
            one = [1] if parents else [0]
            waves = rng.choice([
                [(1, one, word, 8), (2, one, letter, 9), (0, [0], letter, 8)],
                [(1, one, word, 8), (2, one, word, 40), (1, one, near, 30)],
                [(1, one + [4], word, 40), (2, one, letter, 9), (0, [0], letter, 8)],
                [(0, [0], letter, 8), (1, one, letter, 9), (2, one, word, 8)],
                [(1, one + [4], word, 20), (2, one + [4], word, 19), (1, one, word, 4)],
                [(1, one, near, 39), (2, one, letter, 3), (2, one, word, 9)]])
            for w, (st, mask, kind, count) in enumerate(waves):
                count = max(1, count + rng.choice([-1, 0, 0, 0, 1]))
                while count > 0:
                    k = min(count, rng.choice([1, 1, 2, 4] if not parents else [1, 4, 10]))
                    pm(st, mask, top - 20000 * w if not parents else 500000 - 20000 * w - 1000 * rng.randrange(15), [kind] * k)
                    count -= k
            rng.shuffle(pms)
            steps.append({"e": rng.choice(["tree_coalesce", "tree_coalesce", "stack_and_coalesce"]), "pms": pms,
                          "opts": {"zoom": zooms[0], "bbox": [], "prox": [0, 0] if any(k["nearby"] for p in pms for k in p["keys"]) else []}})
        scns.append({"steps": steps})
    return scns


def quotas(ctx):
    rng, scns = ctx.rng, mingled(ctx, ctx.pick(60, 500))
    for _ in range(ctx.pick(60, 400)):
        n = 700
        steps = []
        zooms = [rng.choice([0, 6, 11, 13]), rng.choice([14, 16]), rng.choice([14, 15])]
        types = rng.choice([[2, 2, 2], [2, 2, 2], [1, 3, 3]])
        wide = rng.random() < 0.2
        for i, z in enumerate(zooms):
            steps.append({"e": "build", "b": "b%d" % i})
            m = n if i == 1 and wide else 120
            for p in range(1, m + 1):
                steps.append({"e": "insert", "b": "b%d" % i, "key": {"p": p32(p), "l": ALL},
                              "entries": [{"r": rng.choice([800000, 1000000]), "s": rng.randrange(8), "x": 0, "y": 0, "id": p32(p % 7), "h": 0}]})
            if rng.random() < 0.3:
                steps.append({"e": "bounds", "b": "b%d" % i, "bounds": [p32(p) for p in sorted(rng.sample(range(1, m + 2), 20))]})
            steps += [{"e": "finish", "b": "b%d" % i},
                      {"e": "open", "s": "s%d" % i, "b": "b%d" % i, "zoom": z, "type": types[i], "radius": 400,
                       "bboxes": [[0, 0, (1 << z) - 1, (1 << z) - 1]], "max_score": 7}]
        for _ in range(3):
            starts = [rng.sample(range(1, (n if i == 1 and wide else 120) - 6), (n if i == 1 and wide else 120) - 8) for i in range(3)]
            near = rng.choice([0, 0, 0.3])
            # kind of key -> (stores, range, bits of mask, length, how many)
            plan = []
            pick = lambda q: rng.choice([q - 1, q, q + 1, q + 5])
            kinds = rng.choice([["letter"], ["letter9"], ["wordslow"], ["word"], ["slowrange"], ["letter", "wordslow"], ["word", "letter"],
                                ["slowrange", "wordslow"], ["word", "slowrange", "letter"], ["letter", "exact"]])
            if types[0] != types[1]:
                kinds = rng.choice([["letter"], ["wordslow"], ["letter", "wordslow"]])
            if wide:
                kinds = ["slow"] if rng.random() < 0.6 else ["slow", "slowrange"]
            for k in kinds:
                plan += {"letter": [(0, True, 1, 1, pick(8))], "letter9": [(rng.choice([0, 1]), True, 1, 1, pick(8))],
                         "wordslow": [(rng.choice([1, 2]), True, 1, rng.choice([2, 2, 5, 11]), pick(8))],
                         "word": [(0, True, 1, rng.choice([2, 2, 3, 30]), pick(40))], "slowrange": [(rng.choice([1, 2]), True, 2, rng.choice([1, 4]), pick(40))],
                         "slow": [(1, False, rng.choice([1, 2]), 4, pick(600))], "exact": [(0, False, 1, 1, 12)]}[k]
            keys = []
            for st, rnge, bits, ln, count in plan:
                for _ in range(count):
                    if starts[st]:
                        a = starts[st].pop()
                        keys.append((st, bits, {"key": {"kind": "range" if rnge else "exact", "start": p32(a),
                                                       "end": p32(a + rng.randrange(2, 6)) if rnge else p32(0), "l": ALL},
                                                "nearby": rng.random() < near, "len": ln, "id": 0}))
            if rng.random() < 0.3:      # a range of one phrase is none
                for _, _, k in rng.sample(keys, min(3, len(keys))):
                    if k["key"]["kind"] == "range":
                        k["key"]["end"] = p32(k["key"]["start"][1] + 1)
            rng.shuffle(keys)
            for i, k in enumerate(keys):
                k[2]["id"] = i + 1
            weights = rng.choice([[1000000], [800000, 900000, 1000000], [770000 + 10000 * k for k in range(23)], [300000, 1000000]])
            pms, per = [], rng.choice([1, 1, 2, 4])
            while keys:
                st, bits, _ = keys[0]
                mine = [k for k in keys if k[0] == st and k[1] == bits][:rng.randrange(1, per + 1)]
                keys = [k for k in keys if k not in mine]
                one = [0 if types[st] == types[0] else 1]
                pms.append({"store": "s%d" % st, "idx": st, "nonov": [], "weight": rng.choice(weights),
                            "mask": one if bits == 1 else [one[0], 4], "keys": [k for _, _, k in mine]})
            e = "tree_coalesce" if rng.random() < 0.7 else "stack_and_coalesce"
            steps.append({"e": e, "pms": pms, "opts": {"zoom": zooms[0], "bbox": [], "prox": [0, 0] if near else []}})
        scns.append({"steps": steps})
    return scns


def run(ctx):
    models = {"C13": single_models, "C14": multi_models}.get(ctx.prop, tree_models)(ctx)
    wait = core.together(models)
    scns = {"C13": single, "C14": stacks, "C15": trees, "C16": trees, "C24": schedules, "C27": quotas}[ctx.prop](ctx)
    if ctx.prop in ("C15", "C16"):
        scns += single_trees(ctx) + crowds(ctx) + leaves(ctx) + deep(ctx)
    ctx.log("%d scenarios with %d steps" % (len(scns), sum(len(s["steps"]) for s in scns)))
    ctx.sample(scns[0]["steps"][-1])
    ctx.sample(scns[-1]["steps"][-1])
    traces = core.run_driver(ctx, core.core_driver(), scns)
    core.validate(ctx, "Trace_Coalesce", traces, scenarios=scns, shards=core.CORES)
    wait()


def single_trees(ctx):
    """Phrasematches that stand alone in the tree."""
    out = []
    for s in ctx.rng.sample(single(ctx), ctx.pick(90, 700)):
        for e in s["steps"]:
            if e["e"] == "coalesce":
                e["e"] = ctx.rng.choice(["tree_coalesce", "stack_and_coalesce"])
                e["streams"] = True
        out.append(s)
    return out
