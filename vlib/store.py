"""C03 to C12, C25, C26, C28, C29: building stores and asking them."""
import itertools
from . import core

ALL = [255] * 16
NONE = [0] * 16


def p32(n):
    return [n >> 16, n & 0xffff]


def n32(p):
    return p[0] * 65536 + p[1]


def lang(rng):
    k = rng.randrange(8)
    if k == 0:
        return list(ALL)
    if k == 1:
        return list(NONE)
    l = [0] * 16
    if k == 2:                               # one bit anywhere
        l[rng.randrange(16)] = 1 << rng.randrange(8)
    elif k == 3:                             # a few low bits
        l[15] = rng.choice([1, 2, 3, 4, 128, 255])
    elif k == 4:                             # zero bytes before, within and after
        for i in rng.sample(range(16), 3):
            l[i] = rng.choice([1, 128, 255])
    elif k == 5:
        l = [rng.randrange(256) for _ in range(16)]
    elif k == 6:
        l[0] = rng.choice([1, 128, 255])
    else:
        l = list(ALL)
        l[rng.choice([0, 15])] = rng.choice([254, 127, 0])
    return l


def tile(rng, span):
    edge = (1 << span) - 1
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([0, edge])
    if k == 1:
        return min(edge, max(0, (1 << rng.randrange(span + 1)) - rng.randrange(2)))
    return rng.randrange(edge + 1)


def entry(rng, span=16, wild=True):
    return {"r": rng.choice([400000, 600000, 800000, 1000000, 1000000] +
                            ([500000, 0, 799999, 400001, 999999, 1200000, 200000] if wild else [])),
            "s": rng.choice([0, 1, 2, 6, 7, 8, 14, 15, rng.randrange(16)] + ([16, 17, 31, 64, 200, 255] if wild else [])),
            "x": tile(rng, span), "y": tile(rng, span),
            "id": rng.choice([p32(rng.randrange(1, 10)), p32(rng.randrange(1 << 24)), p32((1 << 24) - 1), [0, 0],
                              p32(65535), p32(65536)] + ([p32(rng.randrange(1 << 32)), p32(1 << 24), [65535, 65535]] if wild else [])),
            "h": rng.choice([0, 1, 255, rng.randrange(256)])}


def like(rng, e):
    """An entry that differs from `e` in one part."""
    f = entry(rng)
    k = rng.choice(["r", "s", "x", "y", "id", "h"])
    g = dict(e)
    g[k] = f[k]
    return g


def lists(rng, n):
    """Tiles with lists of features that are alike: the same ends, the same lengths, permuted, one more or less."""
    ids = sorted(rng.sample(range(1, 12), rng.randint(3, 6)))
    r, s, h = rng.choice([1000000, 800000]), rng.randrange(16), rng.choice([0, 1, 255])
    out = []
    for _ in range(n):
        some = rng.choice([ids, ids[:1] + rng.sample(ids[1:-1], rng.randint(1, len(ids) - 2)) + ids[-1:], rng.sample(ids, rng.randint(1, len(ids)))])
        x, y = rng.randrange(4), rng.randrange(4)
        out += [{"r": r, "s": s if rng.random() < 0.8 else (s + 1) % 16, "x": x, "y": y, "id": p32(i), "h": h} for i in some]
    return out


def entries(rng, n, span=16, wild=True, pool=()):
    if n > 2 and rng.random() < 0.15:
        return lists(rng, rng.randint(2, 5))
    out = []
    for _ in range(n):
        k = rng.random()
        if pool and k < 0.7:             # seen before, or seen before but for one part
            e = rng.choice(pool)
            out.append(dict(e) if k < 0.3 else like(rng, e))
        elif out and k < 0.6:
            out.append(like(rng, rng.choice(out)))
        else:
            out.append(entry(rng, span, wild))
    return out


def phrases(rng, n, top=True):
    k = rng.randrange(4)
    if k == 0:
        base = rng.choice([0, 0, 3, 250, 65530, (1 << 24) - 3])
        out = list(range(base, base + n))
    elif k == 1:
        out = rng.sample(range(12), min(n, 12))
    elif k == 2:
        out = [rng.randrange(1 << 32) for _ in range(n)]
    else:
        out = [rng.choice([0, 1, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 2] +
                          ([(1 << 32) - 1] if top else [])) for _ in range(n)]
    return out


def content(rng, nkeys, nents, span=16, wild=True, top=True):
    """[(key, entries)] with distinct keys."""
    ps = phrases(rng, nkeys, top)
    ls = [lang(rng) for _ in range(rng.choice([1, 2, 4]))]
    got = {}
    pool = []                    # half the time the keys share tiles, scores or ids
    share = rng.random() < 0.5
    for p in ps:
        for l in rng.sample(ls, rng.randint(1, len(ls))):
            if len(got) < nkeys:
                got[(p, tuple(l))] = ({"p": p32(p), "l": l}, entries(rng, rng.randint(0, nents), span, wild, pool))
                if share:
                    pool += got[(p, tuple(l))][1]
    return list(got.values())


def as_compact(rng, es):
    """Groups entries that differ only in their tile into compact appends."""
    groups = {}
    for e in es:
        groups.setdefault((e["r"], e["s"], tuple(e["id"]), e["h"]), []).append([e["x"], e["y"]])
    return [{"e": "compact", "r": r, "s": s, "id": list(i), "h": h, "coords": cs} for (r, s, i, h), cs in groups.items()]


def history(rng, b, cont, plain=False):
    """Steps that leave `cont` in builder b."""
    steps = [{"e": "build", "b": b}]
    per = []
    for key, es in cont:
        ops = []
        if plain:
            per.append([{"e": "insert", "b": b, "key": key, "entries": es}])
            continue
        es = list(es)
        if rng.random() < 0.3 and es:
            es += rng.sample(es, rng.randint(1, len(es)))      # twice
        rng.shuffle(es)
        if rng.random() < 0.3:                                  # replaced afterwards
            ops.append({"e": rng.choice(["insert", "append"]), "entries": entries(rng, 3)})
            cut = rng.randint(0, len(es))
            ops.append({"e": "insert", "entries": es[:cut]})
            es = es[cut:]
        elif rng.random() < 0.5:
            cut = rng.randint(0, len(es))
            ops.append({"e": rng.choice(["insert", "append"]), "entries": es[:cut]})
            es = es[cut:]
        while es:
            cut = rng.randint(1, len(es))
            if rng.random() < 0.5:
                ops += as_compact(rng, es[:cut])
            else:
                ops.append({"e": "append", "entries": es[:cut]})
            es = es[cut:]
        if not ops:
            ops.append({"e": rng.choice(["insert", "append"]), "entries": []})
        per.append([dict(o, b=b, key=key) for o in ops])
    # interleave the keys' operations
    while any(per):
        ops = rng.choice([o for o in per if o])
        steps.append(ops.pop(0))
    return steps


def boundaries(rng, cont):
    ps = sorted({n32(k["p"]) for k, _ in cont})
    if not ps:
        return []
    pts = set()
    for p in ps:
        pts |= {max(0, p - 1), p, min((1 << 32) - 1, p + 1)}
    pts |= {0, ps[-1] + 2 if ps[-1] < (1 << 32) - 3 else (1 << 32) - 1, (1 << 32) - 1}
    k = rng.choice([1, 2, 3, 4, 6])
    bs = set(rng.sample(sorted(pts), min(k, len(pts))))
    if rng.random() < 0.5:
        bs.add(ps[0])
    return [p32(n) for n in sorted(bs)]


def loaded(rng, bs):
    """The boundaries as they are loaded: in any order, some of them twice."""
    if rng.random() < 0.6:
        return bs
    return rng.sample(bs, len(bs)) + rng.choice([[], [], bs[:1]])


def bbox(rng, cont, span=16):
    top = (1 << span) - 1
    ts = [(e["x"], e["y"]) for _, es in cont for e in es]
    k = rng.randrange(5)
    if k == 0 or not ts:
        a, b = sorted([tile(rng, span), tile(rng, span)])
        c, d = sorted([tile(rng, span), tile(rng, span)])
        return [a, c, b, d]
    x, y = rng.choice(ts)
    if k == 1:
        return [x, y, x, y]
    if k == 2:
        x2, y2 = rng.choice(ts)
        return [min(x, x2), min(y, y2), max(x, x2), max(y, y2)]
    d = rng.choice([1, 2, 5, 100, 5000])
    b = [max(0, x - rng.randint(0, d)), max(0, y - rng.randint(0, d)), min(top, x + rng.randint(0, d)), min(top, y + rng.randint(0, d))]
    if k == 3:      # just beside the tile
        i = rng.randrange(2)
        v = (x, y)[i]
        if v < top and rng.random() < 0.5:
            b[i], b[i + 2] = v + 1, max(b[i + 2], v + 1)
        elif v > 0:
            b[i + 2], b[i] = v - 1, min(b[i], v - 1)
    return b


def point(rng, cont, span=16):
    top = (1 << span) - 1
    ts = [(e["x"], e["y"]) for _, es in cont for e in es]
    if not ts or rng.random() < 0.2:
        return [tile(rng, span), tile(rng, span)]
    x, y = rng.choice(ts)
    d = rng.choice([0, 0, 1, 3, 20, 300])
    return [min(top, max(0, x + rng.randint(-d, d))), min(top, max(0, y + rng.randint(-d, d)))]


def asked_lang(rng, cont):
    if cont and rng.random() < 0.6:
        l = list(rng.choice(cont)[0]["l"])
        if rng.random() < 0.3:
            l[rng.randrange(16)] ^= 1 << rng.randrange(8)
        return l
    return lang(rng)


def match_key(rng, cont, bounds=(), exact=None):
    ps = sorted({n32(k["p"]) for k, _ in cont}) or [0]
    l = asked_lang(rng, cont)
    if exact or (exact is None and rng.random() < 0.25):
        p = rng.choice(ps) if rng.random() < 0.9 else rng.choice(ps) + 1
        return {"kind": "exact", "start": p32(min(p, (1 << 32) - 1)), "end": [0, 0], "l": l}
    if len(bounds) >= 2 and rng.random() < 0.6:
        a, b = sorted(rng.sample([n32(x) for x in bounds], 2))
    else:
        pts = sorted({0, (1 << 32) - 1} | {max(0, p + d) for p in ps for d in (-1, 0, 1) if p + d < 1 << 32})
        a, b = sorted([rng.choice(pts), rng.choice(pts)]) if rng.random() < 0.8 else [0, (1 << 32) - 1]
    return {"kind": "range", "start": p32(a), "end": p32(b), "l": l}


def opts(rng, cont, zoom, span=16, prox=None, box=None):
    return {"bbox": bbox(rng, cont, span) if (box if box is not None else rng.random() < 0.5) else [],
            "prox": point(rng, cont, span) if (prox if prox is not None else rng.random() < 0.5) else [],
            "zoom": zoom}


def gets(rng, s, cont, extra=2):
    keys = [k for k, _ in cont]
    out = [{"e": "get", "s": s, "key": k} for k in keys]
    for _ in range(extra):                      # keys that are not there
        k = {"p": rng.choice(keys)["p"] if keys else [0, 1], "l": lang(rng)}
        out.append({"e": "get", "s": s, "key": k})
        out.append({"e": "get", "s": s, "key": {"p": p32(rng.randrange(1 << 32)), "l": list(ALL)}})
    return out


# ----------------------------------------------------------------------------- scenarios

def loading(rng, prop, nkeys=6, nents=8, twins=False, binned=None):
    cont = content(rng, rng.randint(1, nkeys), nents)
    bs = boundaries(rng, cont) if (binned if binned is not None else rng.random() < 0.4) else []
    steps = []
    names = ["A", "B"] if twins else ["A"]
    for b in names:
        steps += history(rng, b, cont, plain=(b == "A" and twins and rng.random() < 0.5))
        if bs:
            at = rng.randint(1, len(steps)) if b == "A" else len(steps)
            steps.insert(at, {"e": "bounds", "b": b, "bounds": loaded(rng, bs)})
        steps.append({"e": "finish", "b": b})
    for b in names:
        steps.append({"e": "open", "b": b, "s": "s" + b, "zoom": 14, "radius": 40})
    qs = [{"key": match_key(rng, cont, bs), "opts": opts(rng, cont, 14)} for _ in range(3)]
    g = gets(rng, "s", cont)
    for b in names:
        s = "s" + b
        steps += [dict(x, s=s) for x in g]
        steps.append({"e": "keys", "s": s})
        steps.append({"e": "iter", "s": s})
        if prop in ("C05",):
            steps += [dict({"e": "search", "s": s}, **q) for q in qs]
    return {"steps": steps}


def renumbering(rng):
    """Maps that are permutations, injective, too short, colliding."""
    n = rng.randint(1, 6)
    ids = rng.sample(range(12), n)
    ls = [lang(rng) for _ in range(2)]
    cont = []
    for p in ids:
        for l in ls[:rng.randint(1, 2)]:
            if (p, l) not in [(n32(k["p"]), k["l"]) for k, _ in cont]:
                cont.append(({"p": p32(p), "l": l}, entries(rng, rng.randint(0, 5))))
    size = max(ids) + 1 + rng.choice([0, 0, 0, 1, 3])
    kind = rng.randrange(5)
    if kind == 4:
        size = max(ids)                          # lacks the last one
    elif rng.random() < 0.02:                    # of a big store
        far = rng.choice([300, 1000, 5000, 7000, 9000])
        ids = [i * far for i in ids]
        cont = [(dict(k, p=p32(n32(k["p"]) * far)), es) for k, es in cont]
        size = max(ids) + 1
    if kind in (0, 4):
        m = rng.sample(range(size), size)
    elif kind == 1:
        m = rng.sample(range(max(40, size + 9)), size)
    elif kind == 2:
        m = [rng.choice([rng.randrange(1 << 32), i, 255, 256, 65536]) for i in range(size)]
    else:
        m = [rng.randrange(size) for i in range(size)]
    if rng.random() < 0.08:                      # a number far beyond the map's
        ids = ids + [rng.choice([1, 255, 256, 65535]) * 65536 + rng.choice(ids)]
        cont = cont + [({"p": p32(ids[-1]), "l": ls[0]}, entries(rng, 2))]
    steps = history(rng, "A", cont)
    ok = size > max(ids)
    seen = set()
    for k, _ in cont:
        if ok:
            t = (m[n32(k["p"])], tuple(k["l"]))
            ok = t not in seen
            seen.add(t)
    steps.append({"e": "renumber", "b": "A", "map": [p32(x) for x in m]})
    # a rejected mapping changes nothing, and loading and renumbering go on
    final = [({"p": p32(m[n32(k["p"])]), "l": k["l"]}, es) for k, es in cont] if ok else cont
    if not ok and max(ids) < 65536 and rng.random() < 0.3:
        size = max(ids) + 1
        m = rng.sample(range(size), size)
        steps.append({"e": "renumber", "b": "A", "map": [p32(x) for x in m]})
        final = [({"p": p32(m[n32(k["p"])]), "l": k["l"]}, es) for k, es in cont]
    if rng.random() < 0.4:                       # loading goes on under the final ids
        for k, es in rng.sample(final, min(2, len(final))):
            steps.append({"e": rng.choice(["append", "insert"]), "b": "A", "key": k, "entries": entries(rng, 2)})
    steps += [{"e": "finish", "b": "A"}, {"e": "open", "b": "A", "s": "s"}, {"e": "keys", "s": "s"}, {"e": "iter", "s": "s"}]
    steps += gets(rng, "s", final, 1)
    steps += [{"e": "get", "s": "s", "key": k} for k, _ in cont]
    return {"steps": steps}


def binning(rng):
    cont = content(rng, rng.randint(1, 8), 4)
    bs = boundaries(rng, cont)
    steps = []
    for b in ("A", "B"):
        steps += history(rng, b, cont)
        if b == "A":
            steps.append({"e": "bounds", "b": b, "bounds": loaded(rng, bs)})
        steps += [{"e": "finish", "b": b}, {"e": "open", "b": b, "s": "s" + b, "zoom": 14, "radius": 40}]
    qs = []
    pairs = list(itertools.combinations([n32(b) for b in bs], 2))
    for a, b in rng.sample(pairs, min(8, len(pairs))):
        qs.append({"key": {"kind": "range", "start": p32(a), "end": p32(b), "l": asked_lang(rng, cont)},
                   "opts": opts(rng, cont, 14) if rng.random() < 0.3 else {"bbox": [], "prox": [], "zoom": 14}})
    qs += [{"key": match_key(rng, cont, bs), "opts": opts(rng, cont, 14)} for _ in range(4)]
    for b in ("A", "B"):
        steps += [{"e": "keys", "s": "s" + b}, {"e": "searches", "s": "s" + b, "qs": qs}]
    return {"steps": steps}


def searching(rng, prop, nq=12):
    zoom = rng.choice([14, 14, 6, 0, 1, 5, 8, 12, 13, 15, 16, 16])
    span = zoom if rng.random() < 0.7 else 16
    if rng.random() < 0.3:
        span = min(span, rng.choice([2, 3, 4]))
    cont = content(rng, rng.randint(1, 5), rng.choice([3, 6, 10]), span, wild=False)
    if prop == "C10" and rng.random() < 0.4:
        # every score at tiles around one point, some just at the radius
        r = rng.choice([4, 8, 32])
        x, y = rng.randint(0, 200) + 400, rng.randint(0, 200) + 400
        es = [{"r": rng.choice([400000, 600000, 800000, 1000000]), "s": rng.randrange(16), "x": x + dx, "y": y + dy,
               "id": p32(i + 1), "h": 0} for i, (dx, dy) in enumerate(
                   [(r, 0), (0, r), (r + 1, 0), (r - 1, 0), (0, 0), (1, 0), (1, 1), (r, 1), (r * 3 // 5, r * 4 // 5), (-r, 0), (0, -r)])]
        cont = [({"p": [0, 1], "l": lang(rng)}, es)]
        zoom, radius = 14, r * 5 // 4
        prox = [x, y]
    else:
        radius = rng.choice([0, 1, 5, 10, 40, 200, 400])
        prox = None
    bs = boundaries(rng, cont) if rng.random() < 0.35 else []
    steps = history(rng, "A", cont)
    if bs:
        steps.append({"e": "bounds", "b": "A", "bounds": loaded(rng, bs)})
    steps += [{"e": "finish", "b": "A"}, {"e": "open", "b": "A", "s": "s", "zoom": zoom, "radius": radius}]
    qs = []
    for _ in range(nq):
        q = {"key": match_key(rng, cont, bs), "opts": opts(rng, cont, zoom, span)}
        if prop == "C10" and rng.random() < 0.7:
            q["opts"]["prox"] = prox or point(rng, cont, span)
        if prop == "C10" and rng.random() < 0.5:
            q["opts"]["bbox"] = []
        qs.append(q)
    steps.append({"e": "searches", "s": "s", "qs": qs})
    return {"steps": steps}


def ordering(rng, nq=8):
    """Streams that share no entries: the source of each match is known."""
    zoom = rng.choice([14, 14, 6, 10, 16])
    span = rng.choice([2, 3, 5, zoom])
    cont = content(rng, rng.randint(2, 5), 9, span, wild=False)
    for i, (k, es) in enumerate(cont):
        for e in es:
            e["id"] = p32(n32(e["id"]) % 1000 * 8 + i)
            if rng.random() < 0.5:
                e["s"] = rng.choice([1, 7, 9])
            if rng.random() < 0.5:
                e["r"] = rng.choice([1000000, 800000])
    steps = history(rng, "A", cont) + [{"e": "finish", "b": "A"},
            {"e": "open", "b": "A", "s": "s", "zoom": zoom, "radius": rng.choice([0, 1, 5, 40, 400])}]
    qs = []
    for _ in range(nq):
        q = {"key": match_key(rng, cont, (), exact=False if rng.random() < 0.8 else None), "opts": opts(rng, cont, zoom, span, prox=rng.random() < 0.8)}
        if rng.random() < 0.7:
            q["key"].update(start=[0, 0], end=[65535, 65535])
        qs.append(q)
    steps.append({"e": "searches", "s": "s", "qs": qs})
    return {"steps": steps}


def unzip(z):
    return [sum(((z >> (2 * i + k)) & 1) << i for i in range(16)) for k in (0, 1)]


def mirrored(rng, nq=3):
    """Tiles before and after a point on the curve, equally far or almost, near and far."""
    zoom = rng.choice([16, 16, 14, 10, 6])
    top = 4 ** zoom - 1
    c = rng.choice([rng.randrange(top + 1), top // 2, top // 2 + 1, rng.randrange(top // 4, 3 * top // 4 + 1)])
    ps = set()
    for _ in range(rng.randint(2, 5)):
        d = rng.randrange(1 << rng.randrange(2 * zoom)) if rng.random() < 0.7 else (1 << rng.randrange(2 * zoom))
        for v in (c + d, c - d + rng.choice([-2, -1, 0, 1, 2]), c + d + rng.choice([-1, 0, 1])):
            if 0 <= v <= top:
                ps.add(v)
    es = [{"r": 1000000, "s": rng.choice([1, 1, 1, 7]), "x": unzip(v)[0], "y": unzip(v)[1], "id": p32(i + 1), "h": 0} for i, v in enumerate(sorted(ps))]
    key = {"p": [0, 1], "l": list(ALL)}
    steps = history(rng, "A", [(key, es)]) + [{"e": "finish", "b": "A"},
            {"e": "open", "b": "A", "s": "s", "zoom": zoom, "radius": rng.choice([0, 1, 40, 400])}]
    qs = []
    for i in range(nq):
        v = c if i == 0 else min(top, max(0, c + rng.choice([-1, 1, rng.randrange(-9, 10)])))
        qs.append({"key": {"kind": "exact", "start": [0, 1], "end": [0, 0], "l": list(ALL)},
                   "opts": {"bbox": [] if rng.random() < 0.8 else [0, 0, (1 << zoom) - 1, (1 << zoom) - 1], "prox": unzip(v), "zoom": zoom}})
    steps.append({"e": "searches", "s": "s", "qs": qs})
    return {"steps": steps}


def limiting(rng, nq=4):
    scn = ordering(rng, nq) if rng.random() < 0.7 else searching(rng, "C12", nq)
    st = scn["steps"][-1]
    qs = []
    for q in st["qs"]:
        qs.append(q)
        for k in sorted({1, 2, 3, 4, rng.randint(0, 12)}):
            qs.append(dict(q, k=k))
    st["qs"] = qs
    return scn


def grid(rng, nx, ny, boxes, points):
    """Every box and point of a small grid against some sets of tiles, one key each."""
    tiles = [(x, y) for x in range(nx) for y in range(ny)]
    ox, oy = rng.choice([(0, 0), (0, 0), (7, 3), (127, 255), (65536 - nx, 65536 - ny), (65536 - nx, 0), (0, 65536 - ny)])
    steps, qs = [{"e": "build", "b": "A"}], []
    for p in range(4):
        ts = rng.sample(tiles, rng.randint(0, min(len(tiles), 8)))
        steps.append({"e": "insert", "b": "A", "key": {"p": [0, p], "l": list(ALL)},
                      "entries": [{"r": 1000000, "s": 1, "x": ox + x, "y": oy + y, "id": [0, 1], "h": 0} for x, y in ts]})
        bx = [[x1, y1, x2, y2] for x1 in range(nx) for x2 in range(x1, nx) for y1 in range(ny) for y2 in range(y1, ny)]
        for b in rng.sample(bx, min(boxes, len(bx))):
            for pt in [None] + rng.sample(tiles, points):
                qs.append({"key": {"kind": "exact", "start": [0, p], "end": [0, 0], "l": list(ALL)},
                           "opts": {"bbox": [b[0] + ox, b[1] + oy, b[2] + ox, b[3] + oy],
                                    "prox": [pt[0] + ox, pt[1] + oy] if pt else [], "zoom": 16}})
        for pt in tiles:
            qs.append({"key": {"kind": "exact", "start": [0, p], "end": [0, 0], "l": list(ALL)},
                       "opts": {"bbox": [], "prox": [pt[0] + ox, pt[1] + oy], "zoom": 16}})
    steps += [{"e": "finish", "b": "A"}, {"e": "open", "b": "A", "s": "s", "zoom": 16, "radius": 1}]
    steps.append({"e": "searches", "s": "s", "qs": qs})
    return {"steps": steps}


def few_or_many(rng):
    return content(rng, rng.randint(20, 40), 2) if rng.random() < 0.03 else content(rng, rng.randint(1, 5), 4)


def failing(rng):
    cont = few_or_many(rng)
    bs = boundaries(rng, cont) if rng.random() < 0.6 else []
    puts = len(cont) + 1 + (len(bs) if bs else 0)
    steps = history(rng, "A", cont)
    if bs:
        steps.append({"e": "bounds", "b": "A", "bounds": loaded(rng, bs)})
    k = rng.random()
    repeat = rng.random() < 0.3
    if k < 0.55:
        steps += [{"e": "faults", "write": rng.randrange(puts + 2), "sticky": rng.random() < 0.4}]
    elif k < 0.65:
        steps += [{"e": "faults", "open": 0}]
    steps.append({"e": "finish", "b": "A"})
    steps.append({"e": "open", "b": "A", "s": "t"} if k < 0.65 else {"e": "faults", rng.choice(["get", "open"]): 0})
    if k < 0.65 and repeat:                      # built again over what is left
        steps += [{"e": "faults"}] + again(rng, "A", cont, bs)
        steps += [{"e": "open", "b": "A", "s": "s"}, {"e": "keys", "s": "s"}] + gets(rng, "s", cont, 1)
    if k >= 0.65:
        steps += [{"e": "open", "b": "A", "s": "t", "zoom": 6}, {"e": "open", "b": "A", "s": "s"}]
        g = gets(rng, "s", cont, 1)
        for x in g:
            if rng.random() < 0.5:
                steps.append({"e": "faults", "get": 0})
            steps.append(x)
    return {"steps": steps}


def crashing(rng, n, torn):
    cont = few_or_many(rng)
    if len(cont) > 5:
        n = n or 12
    bs = boundaries(rng, cont) if rng.random() < 0.85 else []
    steps = history(rng, "A", cont)
    if bs:
        steps.append({"e": "bounds", "b": "A", "bounds": loaded(rng, bs)})
    steps.append({"e": "finish", "b": "A"})
    puts = len(cont) + 1 + 3 * len(bs)
    pairs = list(itertools.combinations([n32(b) for b in bs], 2))
    qs = [{"key": {"kind": "range", "start": p32(a), "end": p32(b), "l": asked_lang(rng, cont)},
           "opts": {"bbox": [], "prox": [], "zoom": 6}} for a, b in rng.sample(pairs, min(4, len(pairs)))]
    qs += [{"key": match_key(rng, cont, bs), "opts": opts(rng, cont, 6)} for _ in range(2)]
    cuts = sorted(set(range(puts + 1)) if n is None else {rng.randrange(puts + 1) for _ in range(n)})
    for i, c in enumerate(cuts):
        t = rng.choice([0, 0, 1, 5, 9, 40]) if torn else 0
        a, s = "K%d" % i, "s%d" % i
        steps += [{"e": "crash", "b": "A", "as": a, "n": c, "torn": t}, {"e": "open", "b": a, "s": s}]
        ask = {"e": "asking", "s": s, "steps": [{"e": "keys"}, {"e": "iter"}] +
               [{"e": "get", "key": k} for k, _ in cont] + [{"e": "searches", "qs": qs}]}
        steps.append(ask)
        if rng.random() < 0.3:                   # built again over what is left
            steps += again(rng, a, cont, bs) + [{"e": "open", "b": a, "s": s + "w"}, dict(ask, s=s + "w")]
    return {"steps": steps}


def again(rng, b, cont, bs):
    steps = history(rng, b, cont)
    if bs:
        steps.append({"e": "bounds", "b": b, "bounds": loaded(rng, bs)})
    return steps + [{"e": "finish", "b": b}]


def reading(rng):
    """Several stores over one directory, opened, asked, read half way and closed in any order; directories that hold none."""
    cont = content(rng, rng.randint(1, 5), 5, wild=False)
    bs = boundaries(rng, cont) if rng.random() < 0.5 else []
    steps = history(rng, "A", cont)
    if bs:
        steps.append({"e": "bounds", "b": "A", "bounds": loaded(rng, bs)})
    before = rng.random() < 0.5
    if before:
        steps += [{"e": "open", "b": "A", "s": "x"}, {"e": "state", "b": "A"}]
        steps[-1]["b"] = "Z"
    steps += [{"e": "finish", "b": "A"}, {"e": "state", "b": "A"}]
    live, n, other = [], 0, None
    for _ in range(rng.randint(5, 25)):
        k = rng.choice(["open", "open", "close", "get", "get", "keys", "iter", "searches", "streams", "missing", "state", "build", "cut", "query"])
        s = rng.choice(live) if live else None
        if k == "open":
            n += 1
            live.append("s%d" % n)
            steps.append({"e": "open", "b": "A", "s": "s%d" % n, "zoom": rng.choice([6, 14, 16]), "radius": rng.choice([0, 40, 400])})
        elif k == "missing":
            d = rng.choice(["Z", "Y", "Y2"])
            steps += [{"e": "open", "b": d, "s": "z", **rng.choice([{}, {"zoom": 6, "radius": 40}])}, {"e": "state", "b": d}]
        elif k == "state":
            steps.append({"e": "state", "b": "A"})
        elif k == "cut":                         # what a build that was interrupted left
            n += 1
            d, t = "K%d" % n, "t%d" % n
            steps += [{"e": "crash", "b": "A", "as": d, "n": rng.randrange(len(cont) + 2 + 3 * len(bs)), "torn": rng.choice([0, 0, 1, 9, 40])},
                      {"e": "state", "b": d}, {"e": "open", "b": d, "s": t, **rng.choice([{}, {"zoom": 14, "radius": 40}])},
                      {"e": "asking", "s": t, "steps": [{"e": "keys"}, {"e": "iter"}, {"e": "searches", "qs": [
                          {"key": match_key(rng, cont, bs), "opts": opts(rng, cont, 14)}]}]}, {"e": "state", "b": d}]
        elif k == "query" and live:
            pms = [{"store": x, "idx": i, "nonov": [], "weight": 500000, "mask": [i],
                    "keys": [{"key": match_key(rng, cont, bs), "nearby": rng.random() < 0.3, "id": i, "len": rng.randint(0, 9)}]}
                   for i, x in enumerate(rng.sample(live, min(len(live), rng.randint(1, 3))))]
            steps.append({"e": "tree_coalesce", "pms": pms, "opts": opts(rng, cont, 14)})
        elif k == "build":
            n += 1
            steps += again(rng, "B%d" % n, content(rng, 2, 3), []) + [{"e": "state", "b": "B%d" % n}]
        elif s is None:
            continue
        elif k == "close":
            live.remove(s)
            steps.append({"e": "close", "s": s})
        elif k == "get":
            steps += rng.sample(gets(rng, s, cont, 1), 1)
        elif k in ("keys", "iter"):
            steps.append({"e": k, "s": s})
        elif k == "searches":
            steps.append({"e": "searches", "s": s, "qs": [{"key": match_key(rng, cont, bs), "opts": opts(rng, cont, 14)} for _ in range(3)]})
        else:
            defs = {"n%d_%d" % (len(steps), i): d for i, d in enumerate(
                [{"kind": "search", "s": s, "key": match_key(rng, cont, bs), "opts": opts(rng, cont, 14)}, {"kind": "keys", "s": s},
                 {"kind": "iter", "s": rng.choice(live)}, {"kind": "get", "s": s, "key": rng.choice(cont)[0]}])}
            script = [["open", d] for d in defs] + [["next", rng.choice(list(defs))] for _ in range(rng.randint(0, 12))]
            script += [["drop", d] for d in defs]
            steps += [{"e": "alone", "defs": defs}, {"e": "streams", "defs": defs, "script": script}]
    steps.append({"e": "state", "b": "A"})
    return {"steps": steps}


def streaming(rng):
    much = rng.random() < 0.03
    cont = content(rng, rng.randint(2, 5), 80 if much else 6, rng.choice([3, 16]), wild=False)
    steps = history(rng, "A", cont) + [{"e": "finish", "b": "A"}, {"e": "open", "b": "A", "s": "s", "zoom": 14, "radius": 40}]
    stores = ["s"]
    if rng.random() < 0.5:
        c2 = content(rng, 3, 6, 16, wild=False)
        steps += history(rng, "B", c2) + [{"e": "finish", "b": "B"}, {"e": "open", "b": "B", "s": "t", "zoom": 14, "radius": 40}]
        stores.append("t")
    defs = {}
    for i in range(rng.randint(2, 6)):
        k = rng.choice(["search", "search", "search", "get", "keys", "iter"])
        d = {"kind": k, "s": rng.choice(stores)}
        if k == "search":
            d.update(key=match_key(rng, cont), opts=opts(rng, cont, 14))
            if rng.random() < 0.7:
                d["key"].update(kind="range", start=[0, 0], end=[65535, 65535])
        elif k == "get":
            d["key"] = rng.choice(cont)[0]
        defs["n%d" % i] = d
    steps.append({"e": "alone", "defs": defs})
    script, names, live = [], list(defs), []
    for _ in range(rng.randint(10, 80) * (6 if much else 1)):
        r = rng.random()
        if (r < (0.03 if much else 0.2) or not live) and names:
            n = names.pop()
            live.append(n)
            script.append(["open", n])
        elif live and r < (0.035 if much else 0.27):
            n = live.pop(rng.randrange(len(live)))
            script.append(["drop", n])
        elif live:
            script.append(["next", rng.choice(live)])
    if rng.random() < 0.5:
        script += [["next", n] for n in live for _ in range(40)]
    steps.append({"e": "streams", "defs": defs, "script": script})
    if rng.random() < 0.5:
        steps += [{"e": "get", "s": "s", "key": cont[0][0]}]
    return {"steps": steps}


def big(rng, n):
    """A key with many entries: records of more than 256 and 65536 bytes."""
    key = {"p": [0, 7], "l": list(ALL)}
    es = [{"r": 1000000, "s": i % 3, "x": rng.randrange(65536), "y": rng.randrange(256), "id": p32(rng.randrange(1 << 24)),
           "h": i % 256} for i in range(n)]
    many = [{"r": 600000, "s": 5, "x": 9, "y": 9, "id": p32(i * 3), "h": 1} for i in range(n // 4)]
    steps = [{"e": "build", "b": "A"}, {"e": "append", "b": "A", "key": key, "entries": es},
             {"e": "append", "b": "A", "key": key, "entries": many},
             {"e": "compact", "b": "A", "key": key, "r": 800000, "s": 2, "id": [0, 5], "h": 3, "coords": [[i, i // 2] for i in range(n // 4)]},
             {"e": "finish", "b": "A"}, {"e": "open", "b": "A", "s": "s"}, {"e": "get", "s": "s", "key": key}]
    return {"steps": steps}


def wide(rng, prop, n):
    """Stores of many keys, and bins of many keys or many bins."""
    step = rng.choice([1, 1, 2, 300, 70000])
    base = rng.choice([0, 1, 200, 65400])
    ls = [lang(rng) for _ in range(rng.choice([1, 1, 2]))]
    span = rng.choice([2, 6, 14])
    cont, ps = [], []
    for i in range(n):
        ps.append(base + i * step)
        for l in ls:
            if len(cont) < n:
                cont.append(({"p": p32(ps[-1]), "l": l}, [dict(entry(rng, span, False), id=p32(i + 1)) for _ in range(rng.choice([1, 1, 1, 2, 0]))]))
    ps = ps[:(n - 1) // len(ls) + 1]
    bs = [p32(p) for p in sorted(set(rng.sample(ps, rng.choice([2, 5, len(ps) // 4])) + rng.sample([ps[0], ps[-1] + 1], 1)))]
    plain = rng.random() < 0.5
    twins = prop == "C08"
    steps = []
    for b in ("A", "B") if twins else ("A",):
        steps += history(rng, b, cont, plain=plain)
        if b == "A" and (twins or rng.random() < 0.5):
            steps.append({"e": "bounds", "b": b, "bounds": loaded(rng, bs)})
        steps += [{"e": "finish", "b": b}, {"e": "open", "b": b, "s": "s" + b, "zoom": 14, "radius": 40}]
    qs = []
    for _ in range(5):
        a, b = sorted(rng.sample([n32(x) for x in bs], 2)) if rng.random() < 0.6 else sorted([rng.choice(ps), rng.choice(ps) + rng.randrange(2)])
        qs.append({"key": {"kind": "range", "start": p32(a), "end": p32(b), "l": asked_lang(rng, cont)}, "opts": opts(rng, cont, 14, span)})
    qs.append({"key": {"kind": "range", "start": p32(0), "end": [65535, 65535], "l": list(ALL)}, "opts": opts(rng, cont, 14, span)})
    if prop == "C12":
        qs = [dict(q, **x) for q in qs for x in [{}] + [{"k": k} for k in (1, 2, rng.randint(3, 30), rng.randint(30, 80))]]
    for s in ("sA", "sB") if twins else ("sA",):
        if prop in ("C03", "C07", "C04"):
            steps += rng.sample(gets(rng, s, cont, 20), 40) + [{"e": "keys", "s": s}, {"e": "iter", "s": s}]
        else:
            steps += [{"e": "searches", "s": s, "qs": qs}]
    return {"steps": steps}


def dense(rng, sizes, nq):
    """One key with many tiles close to one another."""
    zoom = rng.choice([14, 6, 16, 10])
    w, h = rng.choice([(16, 16), (40, 6), (6, 60), (128, 128)])
    top = (1 << zoom) - 1
    ox, oy = rng.choice([(0, 0), (max(0, top - w), max(0, top - h)), (rng.randrange(top + 1), rng.randrange(top + 1))])
    es = []
    for i in range(rng.choice(sizes)):
        es.append({"r": rng.choice([1000000, 1000000, 1000000, 800000]), "s": rng.choice([1, 1, 1, 7]), "x": min(top, ox + rng.randrange(w)),
                   "y": min(top, oy + rng.randrange(h)), "id": p32(i + 1), "h": 0})
    cont = [({"p": [0, 1], "l": list(ALL)}, es)]
    steps = history(rng, "A", cont, plain=True) + [{"e": "finish", "b": "A"},
            {"e": "open", "b": "A", "s": "s", "zoom": zoom, "radius": rng.choice([0, 5, 40, 400])}]
    qs = [{"key": {"kind": "exact", "start": [0, 1], "end": [0, 0], "l": list(ALL)}, "opts": opts(rng, cont, zoom, zoom)} for _ in range(nq)]
    steps.append({"e": "searches", "s": "s", "qs": qs})
    return {"steps": steps}


MODEL = """SPECIFICATION MSpec
CONSTANTS
  Phrases = {%s}
  LangCodes = {%s}
  EntCodes = {%s}
  MaxLoads = %d
  MaxList = %d
  MaxBounds = %d
  Renumber = %s
  Partial = %s
  Emit = %s
INVARIANTS KeysDecode Listed NothingLost BinsAgree BoundsLast WholeAtTheEnd DumpComesBack PrintScenario
CHECK_DEADLOCK FALSE
"""


def from_model(rng, scn):
    """A history printed by MC_Store with the model's few values renamed to real ones."""
    ops = scn["ops"]
    if any(o["op"] == "renumber" for o in ops):
        ph = list(range(12))
    else:
        ph = sorted(rng.sample([0, 1, 2, 255, 256, 65535, 65536, 1 << 31, (1 << 32) - 2, (1 << 32) - 1], 6))
    mid = lambda first: [first] + [rng.randrange(256) for _ in range(14)] + [rng.randrange(256)]
    ls = {(1, 1): ALL, (0, 0): NONE, (1, 0): mid(rng.randint(1, 254)), (0, 1): [0] * rng.randint(1, 14) + [rng.randint(1, 255)]}
    ls[(0, 1)] += [rng.randrange(256) for _ in range(16 - len(ls[(0, 1)]))]
    rs = rng.sample([(r, s_) for r in (400000, 600000, 800000, 1000000) for s_ in range(16)], 4)
    zs = rng.sample([(tile(rng, 16), tile(rng, 16)) for _ in range(3)] + [(0, 0), (1, 0), (0, 1), (65535, 65535), (65535, 0)], 4)
    zs = list(dict.fromkeys(zs + [(7, 7), (8, 7), (7, 8), (300, 2)]))
    ids = rng.sample([(i, h) for i in (0, 1, 65535, 65536, (1 << 24) - 1) for h in (0, 1, 255)], 4)
    key = lambda k: {"p": p32(ph[k[0]]), "l": ls[tuple(k[1])]}
    ent = lambda e: {"r": rs[e[0]][0], "s": rs[e[0]][1], "x": zs[e[1]][0], "y": zs[e[1]][1],
                     "id": p32(ids[e[2]][0]), "h": ids[e[2]][1]}
    steps = [{"e": "build", "b": "A"}]
    bs, seen = [], {}
    for o in ops:
        if o["op"] in ("insert", "append"):
            steps.append({"e": o["op"], "b": "A", "key": key(o["key"]), "entries": [ent(e) for e in o["es"]]})
        elif o["op"] == "compact":
            e = ent(o["es"][0] if o["es"] else [0, 0, 0])
            steps.append({"e": "compact", "b": "A", "key": key(o["key"]), "r": e["r"], "s": e["s"], "id": e["id"], "h": e["h"],
                          "coords": [[ent(x)["x"], ent(x)["y"]] for x in o["es"]]})
        elif o["op"] == "renumber":
            steps.append({"e": "renumber", "b": "A", "map": [p32(ph[x]) for x in o["map"]]})
        elif o["op"] == "bounds":
            bs = [p32(ph[x]) for x in o["bounds"]]
            steps.append({"e": "bounds", "b": "A", "bounds": loaded(rng, bs)})
        if "key" in o:
            k = key(o["key"])
            seen[(n32(k["p"]), tuple(k["l"]))] = k
    steps += [{"e": "finish", "b": "A"}, {"e": "open", "b": "A", "s": "s", "zoom": 14, "radius": 40}, {"e": "keys", "s": "s"}, {"e": "iter", "s": "s"}]
    keys = list(seen.values())
    for p in range(4):
        keys.append({"p": p32(ph[p]), "l": rng.choice(list(ls.values()))})
    steps += [{"e": "get", "s": "s", "key": k} for k in keys]
    free = {"bbox": [], "prox": [], "zoom": 14}
    qs = [{"key": {"kind": "range", "start": a, "end": b, "l": rng.choice(list(ls.values()))}, "opts": free}
          for a, b in itertools.combinations(bs, 2)]
    qs += [{"key": {"kind": "exact", "start": k["p"], "end": [0, 0], "l": k["l"]}, "opts": free} for k in keys[:2]]
    steps.append({"e": "searches", "s": "s", "qs": qs})
    return {"steps": steps}


# constants of MC_Store: phrases, language codes, entry codes, loads, list length, boundaries, renumbering, partly, print
MODELS = [("0, 1", "0, 2, 3", "0, 11, 101", 1, 2, 1, "FALSE", "FALSE", "FALSE"),
          ("0, 1, 2", "1, 3", "0, 101", 2, 1, 2, "TRUE", "FALSE", "FALSE"),
          ("0, 1", "1", "0, 1, 101", 2, 2, 2, "TRUE", "FALSE", "FALSE")]
DEEP = [("0, 1, 2", "0, 3", "0, 1, 101", 2, 2, 3, "TRUE", "FALSE", "FALSE"),
        ("0, 1", "1, 3", "0, 10, 101", 3, 1, 2, "TRUE", "FALSE", "FALSE")]


def modelled(ctx, n):
    """Exhausts the model of builders and databases, and takes n histories of it."""
    for i, m in enumerate(MODELS if ctx.quick else MODELS + DEEP):
        core.model_check(ctx, "MC_Store", MODEL % m, "MC_Store_%d" % i)
    cfg = core.config(ctx, "MC_Store_sim", MODEL % ("0, 1, 2, 3", "0, 1, 2, 3", "0, 1, 10, 11, 100, 101, 211, 320", 4, 3, 3, "TRUE", "FALSE", "TRUE"))
    r = core.tlc(ctx, "MC_Store", cfg, "MC_Store_sim", workers=1, fast=True,
                 extra=["-simulate", "num=%d" % n, "-depth", "30", "-seed", str(ctx.seed)])
    got = core.emitted(r["out"])
    if not got:
        raise core.ToolError("no histories from MC_Store:\n" + r["out"][-3000:])
    ctx.extra["histories_from_model"] = len(got)
    return [from_model(ctx.rng, s) for s in got]


def run(ctx):
    rng, prop = ctx.rng, ctx.prop
    scns = []
    if prop in ("C03", "C04", "C05", "C06", "C07", "C08", "C25", "C26"):
        scns += modelled(ctx, ctx.pick(150, 2000))
    many = lambda q, t, f: scns.extend(f(rng) for _ in range(ctx.pick(q, t)))
    if prop in ("C03", "C04"):
        many(800, 6000, lambda r: loading(r, prop))
        scns.append(big(rng, ctx.pick(300, 4000)))
        scns.append(big(rng, ctx.pick(40, 9000)))
    elif prop == "C05":
        many(500, 4000, lambda r: loading(r, prop, 4, 8, twins=True))
    elif prop == "C06":
        core.model_fails(ctx, "MC_Store", MODEL % ("0, 1", "1", "0", 2, 1, 0, "TRUE", "TRUE", "FALSE"), "MC_Store_partial")
        many(600, 8000, renumbering)
    elif prop == "C07":
        many(700, 6000, lambda r: loading(r, prop, 10, 3))
    elif prop == "C08":
        many(600, 5000, binning)
    elif prop == "C09":
        many(800, 8000, lambda r: searching(r, prop))
        for nx, ny in ((4, 2), (2, 4), (3, 3), (4, 4), (8, 2)):
            for _ in range(ctx.pick(8, 40)):
                scns.append(grid(rng, nx, ny, ctx.pick(12, 60), ctx.pick(2, 4)))
    elif prop == "C10":
        many(1200, 10000, lambda r: searching(r, prop))
        many(150, 1500, mirrored)
    elif prop == "C11":
        many(800, 6000, ordering)
        many(150, 1500, lambda r: searching(r, prop))
        many(250, 2500, mirrored)
    elif prop == "C12":
        many(900, 8000, limiting)
    elif prop == "C25":
        many(700, 8000, failing)
    elif prop == "C26":
        many(200, 1600, lambda r: crashing(r, None, False))
        many(40, 400, lambda r: crashing(r, 8, True))
    elif prop == "C28":
        many(1500, 12000, streaming)
    elif prop == "C29":
        many(800, 8000, reading)
    if prop in ("C03", "C07", "C08", "C09", "C12"):
        for i in range(ctx.pick(8, 60)):
            scns.append(wide(rng, prop, rng.choice([100, 150, 300]) if i else 600))
    if prop == "C09":
        many(10, 150, lambda r: dense(r, (60, 150, 250), 8))
    if prop == "C11":
        many(4, 60, lambda r: dense(r, (40, 80), 6))
    ctx.log("%d scenarios" % len(scns))
    ctx.sample(scns[0])
    ctx.sample(scns[-1])
    traces = core.run_driver(ctx, core.core_driver(), scns)
    ctx.log("driver done")
    core.validate(ctx, "Trace_Store", traces, scenarios=scns)
