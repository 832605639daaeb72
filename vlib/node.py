"""C30 to C33: the node binding."""
import json
import math

from . import coalesce, core
from .store import ALL, lang, n32, p32

PHRASES = ["é", "a", "main street", "", "北京市", "x" * 40, "Straße"]


def numbers(l):
    return [8 * (15 - i) + b for i in range(16) for b in range(8) if l[i] >> b & 1]


def js_langs(rng, l):
    """A language set as a caller may write it."""
    if l == ALL and rng.random() < 0.8:
        return {"k": rng.choice(["null", "undefined", "absent"])}
    ns = numbers(l)
    ns += rng.choice([[], [], [128], [rng.randrange(128, 1 << 20)] * 2]) + (rng.sample(ns, 1) if ns else [])
    rng.shuffle(ns)
    return {"k": "value", "v": ns}


def option(rng, v):
    return {"k": "value", "v": v} if v else {"k": rng.choice(["absent", "absent", "undefined", "null"])}


def js_step(rng, s):
    """The call of the binding that stands for a step of the crate's driver."""
    t = {k: v for k, v in s.items() if k not in ("key", "zoom", "type", "radius", "bboxes", "max_score")}
    if "key" in s:
        t.update(p=s["key"]["p"], ls=js_langs(rng, s["key"]["l"]))
    if s["e"] == "open":
        t["opts"] = [{"zoom": s["zoom"], "type_id": s["type"], "coalesce_radius": s["radius"], "bboxes": s["bboxes"], "max_score": s["max_score"]}]
    return t


def js_pm(rng, p, phrase=None):
    k = p["keys"][0]
    phrase = rng.choice(PHRASES) if phrase is None else phrase
    k["len"] = len(phrase.encode())
    return {"store": p["store"], "idx": p["idx"], "weight": p["weight"], "mask": p["mask"], "nonov": p["nonov"], "id": k["id"],
            "key": {x: k["key"][x] for x in ("kind", "start", "end")}, "ls": js_langs(rng, k["key"]["l"]), "phrase": phrase, "bytes": k["len"],
            "nearby": {"k": "value", "v": True} if k["nearby"] else rng.choice([{"k": "absent"}, {"k": "undefined"}, {"k": "value", "v": False}])}


def question(rng, w, q, mayfail=False):
    """A query: (call of the binding, call of the crate)."""
    how = rng.choice(["coalesce", "stackAndCoalesce", "stackAndCoalesce"])
    z = rng.choice([s["zoom"] for s in w.stores])
    if how == "coalesce":
        pms = []
        if rng.random() < 0.03:
            pass
        elif rng.random() < 0.5:
            s = rng.choice(w.stores)
            pms = [w.pm(s, [rng.choice([0, 3, 31])], [dict(w.match_key(s), id=rng.choice([0, 7, (1 << 31) - 1]))])]
            z = s["zoom"]
        else:
            for s in rng.sample(w.stores, rng.randrange(1, len(w.stores) + 1)):
                pms.append(w.pm(s, [len(pms)], [dict(w.match_key(s), id=len(pms))]))
                z = z if len(pms) > 1 else s["zoom"]
    else:
        pms = coalesce.tree_pms(w, rng, rng.randrange(0 if rng.random() < 0.1 else 1, 6), rng.choice([1, 2, 3]), 1, rng.choice([0, 0.3]))
    opts = w.opts(z)
    js = {"e": "ask", "q": q, "how": how, "pms": [js_pm(rng, p) for p in pms],
          "opts": {"zoom": opts["zoom"], "bbox": option(rng, opts["bbox"]), "prox": option(rng, opts["prox"])}}
    return js, {"e": "coalesce" if how == "coalesce" else "stack_and_coalesce", "q": q, "pms": pms, "opts": opts}


class Play:
    """A scenario for the binding, and beside it one for the crate that is asked the same."""

    def __init__(self, rng):
        self.rng, self.js, self.core, self.n = rng, [], [], 0

    def both(self, steps):
        for s in steps:
            self.js.append(js_step(self.rng, s))
            self.core.append(s)

    def ask(self, w):
        js, c = question(self.rng, w, self.n)
        self.n += 1
        self.js.append(js)
        self.core.append(c)


def world(rng, first=0, few=False):
    zs = coalesce.ladder(rng, rng.choice([1, 2, 3]), rng.choice([0, 0.5]))
    return coalesce.World(rng, zs, lambda r: r.choice([1, 2, 4]), lambda r: r.choice([1, 2, 5] if few else [1, 2, 5, 15]), rng.choice([1, 3, 10]),
                          lambda r: r.choice([1, 3, 10]), first=first)


def phrase_of(rng, n):
    """n bytes"""
    return "é" * (n // 2) + "b" * (n % 2) if rng.random() < 0.5 else "b" * n


def translated(rng, scn):
    """A scenario of the crate's with its questions asked through the binding, one match key per phrasematch."""
    p, opened = Play(rng), {s["s"]: s for s in scn["steps"] if s["e"] == "open"}
    mixed = rng.random() < 0.5         # stores of one type share what is asked
    for s in scn["steps"]:
        if s["e"] not in ("tree_coalesce", "stack_and_coalesce", "coalesce"):
            p.both([dict(s, max_score=rng.choice([0, 3, 7, 15])) if s["e"] == "open" else s])
            continue
        how = "coalesce" if s["e"] == "coalesce" else "stackAndCoalesce"
        if how == "coalesce" and any(len(pm["keys"]) != 1 for pm in s["pms"]):
            continue
        pms = [dict(pm, keys=[dict(k)]) for pm in s["pms"] for k in pm["keys"]]
        for pm in pms:
            alike = [o for o in opened if mixed and opened[o]["type"] == opened[pm["store"]]["type"]]
            if how != "coalesce" and len(alike) > 1:
                o = rng.choice(alike)
                pm.update(store=o, idx=next((q["idx"] for q in s["pms"] if q["store"] == o), pm["idx"]))
        p.js.append({"e": "ask", "q": p.n, "how": how, "pms": [js_pm(rng, pm, phrase_of(rng, pm["keys"][0]["len"])) for pm in pms],
                     "opts": {"zoom": s["opts"]["zoom"], "bbox": option(rng, s["opts"]["bbox"]), "prox": option(rng, s["opts"]["prox"])}})
        p.core.append({"e": "coalesce" if how == "coalesce" else "stack_and_coalesce", "q": p.n, "pms": pms, "opts": s["opts"]})
        p.n += 1
    p.js.append({"e": "settle"})
    return p


def entry(rng):
    return {"r": rng.choice([400000, 600000, 800000, 1000000, 500000]), "s": rng.choice([0, 1, 7, 15, 16, 130, 255]), "x": rng.choice([0, 1, 63, 65535]),
            "y": rng.choice([0, 2, 300, 65535]), "id": p32(rng.choice([0, 1, 70000, (1 << 24) - 1])), "h": rng.choice([0, 1, 129, 255])}


def loads(rng, b, keys, n):
    """Calls that load, some with a key's languages written differently."""
    out = []
    for _ in range(n):
        p, l = rng.choice(keys)
        k = {"p": p32(p), "ls": js_langs(rng, l)}
        c = rng.choice(["insert", "append", "compact"])
        if c == "compact":
            e = entry(rng)
            out.append(dict(k, e=c, b=b, r=e["r"], s=e["s"], id=e["id"], h=e["h"], coords=[[entry(rng)["x"], entry(rng)["y"]] for _ in range(rng.randrange(4))]))
        else:
            out.append(dict(k, e=c, b=b, entries=[entry(rng) for _ in range(rng.randrange(4))]))
    return out


def keyset(rng, n):
    ps = rng.sample([0, 1, 2, 5, 255, 65536, (1 << 32) - 1] if rng.random() < 0.5 else list(range(9)), n)
    return [(p, rng.choice([ALL, lang(rng), [0] * 15 + [rng.randrange(256)], [128] + [0] * 15])) for p in ps]


def renumbering(rng, b, keys):
    top = rng.choice([9, 9, 3])
    m = list(range(top))
    rng.shuffle(m)
    m = [x + rng.choice([0, 0, 100]) for x in m]
    if rng.random() < 0.2 and top > 1:
        m[0] = m[1]
    return {"e": "renumber", "b": b, "map": [p32(x) for x in m]}


def reads(rng, s, keys):
    out = [{"e": "keys", "s": s}]
    for p, l in rng.sample(keys, min(len(keys), 4)):
        out.append({"e": "get", "s": s, "p": p32(p), "ls": js_langs(rng, l)})
    out.append({"e": "get", "s": s, "p": p32(rng.choice([0, 3, 100])), "ls": js_langs(rng, lang(rng))})
    return out


def building(rng):
    p, keys = Play(rng), keyset(rng, rng.randrange(1, 6))
    p.js.append({"e": "build", "b": "A"})
    p.js += loads(rng, "A", keys, rng.randrange(1, 8))
    if rng.random() < 0.3:
        p.js.append(renumbering(rng, "A", keys))
    if rng.random() < 0.3:
        p.js.append({"e": "bounds", "b": "A", "bounds": [p32(x) for x in sorted(rng.sample([0, 1, 5, 9, 65536], rng.randrange(4)))]})
    p.js.append({"e": "finish", "b": "A"})
    p.js.append({"e": "open", "s": "s", "b": "A", "opts": rng.choice([[], [{"zoom": 14, "type_id": 2, "coalesce_radius": 40, "bboxes": [], "max_score": 0}]])})
    p.js += reads(rng, "s", keys)
    return p


def querying(rng, few=False):
    p, w = Play(rng), world(rng, few=few)
    p.both(w.steps)
    for _ in range(6):
        p.ask(w)
        if rng.random() < 0.5:
            p.js.append({"e": "settle"})
    if rng.random() < 0.3:
        js, _ = question(rng, w, 0)
        p.js.append({"e": "stackable", "pms": js["pms"]})
    p.js.append({"e": "settle"})
    return p


# ----------------------------------------------------------------------------- C31
U = {"$": "undefined"}
NOT_OBJECT = [U, None, 7, "x", True]
KEY = {"phrase_id": 1, "lang_set": [1]}
ENT = {"relev": 1, "score": 1, "x": 1, "y": 1, "id": 1, "source_phrase_hash": 0}


def bad_key(rng):
    return rng.choice(NOT_OBJECT + [{}, {"lang_set": [1]}, {"phrase_id": "1", "lang_set": [1]}, {"phrase_id": None}, {"phrase_id": {}, "lang_set": [1]},
                                    dict(KEY, lang_set="en"), dict(KEY, lang_set=1), dict(KEY, lang_set={}), dict(KEY, lang_set=["en"]),
                                    dict(KEY, lang_set=[1, None]), dict(KEY, lang_set=[U]), dict(KEY, lang_set=True)])


def without(o, f):
    return {k: v for k, v in o.items() if k != f}


def bad_entries(rng):
    f = rng.choice(list(ENT))
    e = rng.choice([without(ENT, f), dict(ENT, **{f: "1"}), dict(ENT, **{f: None}), dict(ENT, **{f: U}), dict(ENT, **{f: {}}),
                    dict(ENT, **{rng.choice(["x", "y"]): rng.choice([-1, 65536])}), dict(ENT, **{rng.choice(["score", "source_phrase_hash"]): rng.choice([-1, 256])}),
                    dict(ENT, id=rng.choice([-1, 1 << 32])), 5, None, "x", []])
    return rng.choice([U, None, 7, "x", ENT, [e], [ENT, e], [e, ENT]])


def good_pm(s):
    return {"store": {"$": "store", "v": s}, "weight": 0.5, "mask": 1, "match_key": {"match_phrase": {"Range": {"start": 0, "end": 9}}, "lang_set": [1]},
            "id": 1, "idx": 0, "phrase": "a", "non_overlapping_indexes": []}


def bad_pm(rng, s):
    g = good_pm(s)
    m = g["match_key"]
    mk = lambda **k: dict(g, match_key=dict(m, **k))
    return rng.choice([
        U, None, 7, "x", {}, without(g, rng.choice([k for k in g])),
        dict(g, store={}), dict(g, store={"$": "builder", "v": "A"}), dict(g, store="s"), dict(g, store=None),
        dict(g, weight="1"), dict(g, weight=None), dict(g, mask=-1), dict(g, mask=1 << 32), dict(g, mask="1"), dict(g, id=-1), dict(g, id="1"),
        dict(g, id=1 << 32), dict(g, idx=-1), dict(g, idx=None), dict(g, idx=1 << 16), dict(g, phrase=7), dict(g, phrase=None), dict(g, phrase=["a"]),
        dict(g, nearby_only=None), dict(g, nearby_only=1), dict(g, nearby_only="yes"),
        dict(g, non_overlapping_indexes=None), dict(g, non_overlapping_indexes=7), dict(g, non_overlapping_indexes=["1"]), dict(g, non_overlapping_indexes=[-1]),
        dict(g, match_key=None), dict(g, match_key=7), dict(g, match_key=without(m, "match_phrase")), mk(match_phrase=None), mk(match_phrase={}),
        mk(match_phrase={"Between": {"start": 0, "end": 1}}), mk(match_phrase={"Range": {"start": 0}}), mk(match_phrase={"Range": 7}),
        mk(match_phrase={"Exact": "1"}), mk(match_phrase={"Exact": -1}), mk(match_phrase={"Exact": 1, "Range": {"start": 0, "end": 1}}),
        mk(lang_set="en"), mk(lang_set=1), mk(lang_set=["en"]), mk(lang_set={})])


def bad_opts(rng):
    o = {"zoom": 6}
    return rng.choice([U, None, 7, "x", {}, dict(o, zoom="6"), dict(o, zoom=-1), dict(o, zoom=65536), dict(o, zoom=None), dict(o, bbox=[0, 0, 1]),
                       dict(o, bbox=7), dict(o, bbox=[0, 0, 1, 65536]), dict(o, bbox="0000"), dict(o, proximity=[1]), dict(o, proximity=7),
                       dict(o, proximity=[1, -1]), dict(o, proximity=["1", "2"]), dict(o, bbox=[0, 0, 1, None])])


def wrong_call(rng, p, s, f, fb):
    """A call with a wrong argument, or on a wrong object."""
    q = p.n
    cb = {"$": "callback", "q": 1000 + q}
    p.n += 1
    w = lambda on, call, args, **k: dict({"e": "wrong", "on": on, "call": call, "args": args}, **k)
    bufs = [U, None, 7, "x", [1, 2], {}, {"$": "words", "v": [0, 1]}]
    words = [U, None, 7, "ab", [1], [None], {}]
    def query():
        how = rng.choice(["coalesce", "stackAndCoalesce"])
        g, o = good_pm(s), {"zoom": 6}
        k = rng.randrange(5)
        args = [[[bad_pm(rng, s)], o, cb], [[g, bad_pm(rng, s)], o, cb], [rng.choice([U, None, 7, {}, g, "x"]), o, cb], [[g], bad_opts(rng), cb],
                rng.choice([[[g], o], [[g]], [], [[g], o, None], [[g], o, {}], [[g], o, 7]])][k]
        return w("addon", how, args)
    def load():
        c = rng.choice(["insert", "append"])
        return w("builder", c, rng.choice([[], [KEY], [bad_key(rng), [ENT]], [KEY, bad_entries(rng)]]), name="A")
    def compact():
        good = [KEY, 1, 1, 1, 1, [[1, 1]]]
        i = rng.randrange(6)
        bad = bad_key(rng) if i == 0 else rng.choice([U, None, 7, "x", [[1]], [1, 1], [[1, 65536]], [[-1, 0]], [[1, "1"]]]) if i == 5 else rng.choice([U, None, "1", {}, []])
        args = good[:i] + [bad] + good[i + 1:] if rng.random() < 0.8 else good[:i]
        return w("builder", "compactAppend", args, name="A")
    def buffers():
        return w("builder", rng.choice(["renumber", "loadBinBoundaries"]), rng.choice([[], [rng.choice(bufs)]]), name="A")
    def opening():
        o = {"zoom": 6, "type_id": 0, "coalesce_radius": 40, "bboxes": [[0, 0, 1, 1]], "max_score": 1}
        db = {"$": "path", "v": "S"}
        bad = rng.choice([U, None, 7, without(o, rng.choice(list(o))), dict(o, zoom=-1), dict(o, zoom="6"), dict(o, bboxes=[[0, 0, 1]]), dict(o, bboxes=7),
                          dict(o, bboxes=[[0, 0, 1, 65536]]), dict(o, max_score="1"), dict(o, coalesce_radius=None), dict(o, type_id=70000)])
        return w("new", "GridStore", rng.choice([[db, bad], [], [7], [{}], [None], [{"$": "path", "v": "nowhere"}]]))
    def others():
        return rng.choice([
            w("new", "GridStoreBuilder", rng.choice([[], [7], [{}], [None]])), w("store", "get", rng.choice([[], [bad_key(rng)]]), name=s),
            w("new", "GridStoreKeyIterator", rng.choice([[], [{}], [7], [{"$": "builder", "v": "A"}]])),
            w("builder", rng.choice(["insert", "append"]), [KEY, [ENT]], name="A", this=rng.choice([{}, {"$": "store", "v": s}])),
            w("builder", "finish", [], name="A", this=rng.choice([{}, {"$": "store", "v": s}])),
            w("store", "get", [KEY], name=s, this=rng.choice([{}, {"$": "builder", "v": "A"}])),
            w("addon", "stackable", rng.choice([[], [None], [[bad_pm(rng, s)]]]))])
    def phrases():
        good = ["a"]
        return rng.choice([
            w("new", "FuzzyPhraseSet", rng.choice([[], [7], [{}], [{"$": "path", "v": "nowhere"}]])), w("new", "FuzzyPhraseSetBuilder", rng.choice([[], [7], [{}]])),
            w("setBuilder", "insert", rng.choice([[], [rng.choice(words)], [[]]]), name=fb),
            w("setBuilder", "loadWordReplacements", rng.choice([[], [7], [[{"from": "a"}]], [[7]], [[{"from": 1, "to": "b"}]]]), name=fb),
            w("set", "contains", rng.choice([[], [good], [rng.choice(words), 0], [good, rng.choice([None, "x", 3, -1, U])]]), name=f),
            w("set", rng.choice(["fuzzyMatch", "fuzzyMatchWindows"]),
              rng.choice([[], [good], [good, 1], [good, 1, 1], [good, "1", 1, 0], [good, 1, None, 0], [good, 1, 1, 3], [rng.choice(words), 1, 1, 0]]), name=f),
            w("set", "fuzzyMatchMulti", rng.choice([[], [7, 1, 1], [[[good]], 1, 1], [[[good, 3]], 1, 1], [[[good, 0]], 1], [[[good, 0]], "1", 1], [[good], 1, 1]]), name=f),
            w("set", "getByPhraseId", rng.choice([[], ["1"], [None], [{}]]), name=f), w("set", "getPrefixBins", rng.choice([[], ["1"], [None], [0]]), name=f)])
    return rng.choice([query, query, load, load, compact, buffers, opening, others, phrases])()


def mistaken(rng):
    """Proper calls with wrong ones in between: what was wrong changes nothing."""
    p, keys = Play(rng), keyset(rng, rng.randrange(1, 5))
    w = coalesce.World(rng, [(0, 6)], lambda r: 2, lambda r: 3, 3, lambda r: 3, first=5)
    p.both(w.steps)
    p.js += [{"e": "phrases", "f": "F"}, {"e": "phrase", "f": "F", "words": ["a", "b"]}, {"e": "phrases_done", "f": "F"}, {"e": "phrases_open", "f": "F"},
             {"e": "phrases", "f": "G"}]
    s = w.stores[0]["s"]
    wrong = lambda: p.js.append(wrong_call(rng, p, s, "F", "G"))
    p.js += [{"e": "build", "b": "S"}, {"e": "finish", "b": "S"}, {"e": "build", "b": "A"}]
    for step in loads(rng, "A", keys, rng.randrange(2, 7)) + [renumbering(rng, "A", keys)] * rng.choice([0, 1]):
        if rng.random() < 0.3 and step["e"] in ("insert", "append") and step["entries"]:
            rng.choice(step["entries"]).update(rng.choice([{"x": 65536}, {"y": -1}, {"s": 256}, {"h": -1}, {"id": [65536, 0]}]))
        p.js.append(step)
        for _ in range(rng.randrange(6)):
            wrong()
    if rng.random() < 0.5:
        p.js.append({"e": "open", "s": "s", "b": "A", "opts": []})
    p.js.append({"e": "finish", "b": "A"})
    if rng.random() < 0.7:             # a finished builder follows no more
        late = loads(rng, "A", keys, rng.randrange(4)) + [{"e": "finish", "b": "A"}, renumbering(rng, "A", keys),
                                                          {"e": "bounds", "b": "A", "bounds": [[0, 1]]}]
        p.js += rng.sample(late, rng.randrange(1, len(late) + 1))
    p.js += [{"e": "phrase", "f": "F", "words": ["c"]}, {"e": "phrases_done", "f": "F"}, {"e": "replace", "f": "F", "words": []}][:rng.randrange(4)]
    p.js.append({"e": "open", "s": "s", "b": "A", "opts": []})
    for _ in range(rng.randrange(6)):
        wrong()
    p.js += reads(rng, "s", keys)
    p.ask(w)
    wrong()
    p.js += [{"e": "settle"}]
    return p


def failing(rng):
    """A database that fails while a builder is finished, a store opened or a key looked up."""
    p, keys = Play(rng), keyset(rng, rng.randrange(1, 5))
    none = {"e": "faults", "write": -1, "get": -1, "open": -1, "sticky": False}
    content = loads(rng, "A", keys, rng.randrange(1, 5)) + [{"e": "bounds", "b": "A", "bounds": [p32(0), p32(5)]}] * rng.choice([0, 1])
    p.js += [{"e": "build", "b": "A"}] + content
    k = rng.random()
    if k < 0.6:
        p.js.append(dict(none, write=rng.randrange(len(keys) + 3), sticky=rng.random() < 0.4) if rng.random() < 0.8 else dict(none, open=0))
    p.js.append({"e": "finish", "b": "A"})
    if k < 0.6:
        p.js += [none] + rng.sample(content + [{"e": "finish", "b": "A"}], 1)      # it is used up
        p.js += [{"e": "open", "s": "t", "b": "A", "opts": []}, {"e": "drop", "s": "t"}] * rng.choice([0, 1])
        p.js += [{"e": "build", "b": "A"}] + content + [{"e": "finish", "b": "A"}]
    elif rng.random() < 0.6:
        p.js += [dict(none, **{rng.choice(["open", "get"]): 0}), {"e": "open", "s": "t", "b": "A", "opts": []}, none]
    p.js.append({"e": "open", "s": "s", "b": "A", "opts": []})
    for r in reads(rng, "s", keys):
        p.js += [dict(none, get=0)] * (r["e"] == "get" and rng.random() < 0.4) + [r]
    return p


# ----------------------------------------------------------------------------- C32
LIFE = """SPECIFICATION Spec
CONSTANTS
  Stores = {%s}
  Iters = {%s}
  Queries = {%s}
  Steps = %d
  Weak = {%s}
  Emit = %s
INVARIANTS NothingDangles OnceEach AfterReturning %s
%s
CHECK_DEADLOCK FALSE
"""


def from_life(rng, scn):
    """A history of the model of ownership on stores of real content."""
    p, w = Play(rng), coalesce.World(rng, [(0, 14), (1, 14)], lambda r: r.choice([1, 2, 3]), lambda r: r.choice([1, 3]), 4, lambda r: 4)
    p.both(w.steps)
    for op in scn["hist"]:
        a, n = op[0], op[1:]
        s = w.stores[n[0] % 2] if n else None
        if a == "drop":
            p.js += [{"e": "drop", "s": s["s"]}] + [{"e": "gc"}] * rng.choice([0, 1])
        elif a == "gc":
            p.js.append({"e": "gc"})
        elif a == "iterator":
            p.js.append({"e": "iterator", "it": "i%d" % n[1], "s": s["s"]})
        elif a == "next":
            p.js += [{"e": "next", "it": "i%d" % n[0]}] * rng.choice([1, 1, 2])
        elif a == "forget":
            p.js.append({"e": "drop", "it": "i%d" % n[0]})
        elif a == "ask":
            key = dict(w.match_key(s), id=1)
            js, c = question(rng, Only(w, s), p.n)
            p.n += 1
            p.js.append(js)
            p.core.append(c)
        elif a == "turn":
            p.js.append({"e": "settle"})
    p.js += [{"e": "gc"}, {"e": "settle"}]
    return p


class Only:
    """A world seen with one of its stores."""

    def __init__(self, w, s):
        self.__dict__.update(w.__dict__)
        self.stores, self.w = [s], w

    def __getattr__(self, f):
        return getattr(self.w, f)


def owning(rng):
    """Iterators and queries that go on while stores are dropped, collected and built."""
    p, w = Play(rng), world(rng, few=True)
    p.both(w.steps)
    live, its, n = list(w.stores), [], 0
    for _ in range(rng.randrange(5, 25)):
        k = rng.choice(["ask", "ask", "iterator", "next", "next", "next", "drop", "gc", "settle", "forget", "get"])
        if k == "ask" and live:
            o = Only(w, None)
            o.stores = live
            js, c = question(rng, o, p.n)
            p.n += 1
            p.js.append(js)
            p.core.append(c)
        elif k == "iterator" and live:
            n += 1
            its.append("i%d" % n)
            p.js.append({"e": "iterator", "it": its[-1], "s": rng.choice(live)["s"], "again": rng.random() < 0.5})
        elif k == "next" and its:
            p.js += [{"e": "next", "it": rng.choice(its)}] * rng.choice([1, 1, 3])
        elif k == "drop" and live:
            s = live.pop(rng.randrange(len(live)))
            p.js.append({"e": "drop", "s": s["s"]})
        elif k == "forget" and its:
            p.js.append({"e": "drop", "it": its.pop(rng.randrange(len(its)))})
        elif k == "gc":
            p.js.append({"e": "gc"})
        elif k == "settle":
            p.js.append({"e": "settle"})
        elif k == "get" and live:
            p.js.append({"e": "keys", "s": rng.choice(live)["s"]})
    p.js += [{"e": "gc"}] + [{"e": "next", "it": i} for i in its] + [{"e": "settle"}]
    return p


def life(ctx):
    core.model_check(ctx, "MC_Binding", LIFE % ("0, 1", "0, 1" if ctx.quick else "0, 1, 2", "0, 1" if ctx.quick else "0, 1, 2", 1000, "", "FALSE", "", "VIEW Now"))
    for weak in ("iterator", "query"):
        core.model_fails(ctx, "MC_Binding", LIFE % ("0", "0", "0", 6, '"%s"' % weak, "FALSE", "", "VIEW Now"), "MC_Binding-weak-" + weak)
    cfg = core.config(ctx, "MC_Binding_sim", LIFE % ("0, 1", "0, 1, 2", "0, 1, 2, 3", 16, "", "TRUE", "PrintScenario", ""))
    r = core.tlc(ctx, "MC_Binding", cfg, "MC_Binding_sim", workers=1, fast=True,
                 extra=["-simulate", "num=%d" % ctx.pick(150, 1500), "-depth", "60", "-seed", str(ctx.seed)])
    got = core.emitted(r["out"])
    if not got:
        raise core.ToolError("no histories from MC_Binding:\n" + r["out"][-3000:])
    ctx.extra["histories_from_model"] = len(got)
    return [from_life(ctx.rng, s) for s in got]


# ----------------------------------------------------------------------------- C33
def word(rng):
    return rng.choice(["main", "mainly", "st", "street", "a", "ab", "b", "ave", "avenue", "elm", "el", "mlk"])


def worded(rng):
    """Phrases numbered by one set, their places loaded under those numbers, renumbered and binned with what the set hands out, and found again."""
    p = Play(rng)
    p.js.append({"e": "phrases", "f": "F"})
    if rng.random() < 0.5:
        p.js.append({"e": "replace", "f": "F", "words": [{"from": a, "to": b} for a, b in rng.sample([("st", "street"), ("ave", "avenue"), ("b", "a")], rng.randrange(1, 4))]})
    by = {r["from"]: r["to"] for r in p.js[-1]["words"]} if p.js[-1]["e"] == "replace" else {}
    seen, said = [], []
    for _ in range(rng.randrange(1, 12)):
        ws = [word(rng) for _ in range(rng.randrange(1, 4))]
        if said and rng.random() < 0.4:
            ws = rng.choice(said)[:rng.randrange(1, 4)] + [word(rng)]
        said.append(ws)
        p.js.append({"e": "phrase", "f": "F", "words": ws})
        r = [by.get(w, w) for w in ws]
        if r not in seen:
            seen.append(r)
    p.js += [{"e": "phrases_done", "f": "F"}, {"e": "phrases_open", "f": "F"}]
    # places, under the numbers so far
    keys = [(i, rng.choice([ALL, [0] * 15 + [2]])) for i in range(len(seen))]
    p.js.append({"e": "build", "b": "A"})
    reach = rng.random() < 0.8         # places that are on a par, so that all of them are found
    for i, l in keys:
        es = [dict(entry(rng), id=p32(1000 * i + j), **({"r": 1000000} if reach else {})) for j in range(rng.randrange(1, 4))]
        p.js.append({"e": rng.choice(["insert", "append"]), "b": "A", "p": p32(i), "ls": js_langs(rng, l), "entries": es})
    p.js.append({"e": "renumber", "b": "A", "from": "F"})
    if rng.random() < 0.7:
        p.js += [{"e": "bins", "f": "F", "as": "bins", "max": rng.choice([1, 2, 3, 100])}, {"e": "bounds", "b": "A", "f": "F", "from": "bins"}]
    p.js += [{"e": "finish", "b": "A"}, {"e": "open", "s": "s", "b": "A", "opts": []}] + reads(rng, "s", keys)
    if rng.random() < 0.3:
        p.js += [{"e": "bins", "f": "F", "as": "more", "max": rng.choice([1, 2, 5])}]
    for _ in range(6):
        ws = rng.choice(said) if rng.random() < 0.6 else [word(rng) for _ in range(rng.randrange(1, 4))]
        ws = ws[:rng.randrange(1, len(ws) + 1)]
        if rng.random() < 0.4:
            ws = ws[:-1] + [ws[-1][:rng.randrange(1, len(ws[-1]) + 1)]]
        if rng.random() < 0.3:
            ws = [rng.choice([w, w + "x", w[1:] or w]) for w in ws]
        e = rng.choice(["nonPrefix", "anyPrefix", "wordBoundaryPrefix"])
        q = {"words": ws, "ending": e}
        d = {"word": rng.choice([0, 0, 1, 2]), "phrase": rng.choice([0, 1, 2, 3])}
        if reach:
            p.n += 1
            p.js.append(dict(q, e="reach", f="F", s="s", q=p.n, zoom=6, exact=rng.random() < 0.5))
        p.js.append(rng.choice([dict(q, e="contains", f="F"), dict(q, **d, e="fuzzy", f="F"), dict(q, **d, e="fuzzy", f="F"), dict(q, **d, e="windows", f="F"),
                                dict(d, e="multi", f="F", qs=[q, {"words": rng.choice(said), "ending": "nonPrefix"}]),
                                {"e": "by_id", "f": "F", "id": p32(rng.randrange(len(seen) + 2) + rng.choice([0, 0, 0, 65536, 1 << 31]))}]))
    p.js.append({"e": "settle"})
    return p


def crowd(rng, n):
    """More phrases than 16 bits can number."""
    p = Play(rng)
    step = next(s for s in iter(lambda: rng.randrange(3, 20000), None) if math.gcd(s, n) == 1)
    p.js.append({"e": "crowd", "f": "F", "n": n, "step": step, "max": rng.choice([100, 1000, 5000, 70001]),
                 "some": sorted(rng.sample(range(n), 8)) + [n - 1], "asked": [0, n - 1, n, 65535, 65536, rng.randrange(n)]})
    return p


def run(ctx):
    rng, prop, plays = ctx.rng, ctx.prop, []
    many = lambda q, t, f: plays.extend(f(rng) for _ in range(ctx.pick(q, t)))
    if prop == "C30":
        many(500, 5000, building)
        many(500, 4000, querying)
        for made, n in ((coalesce.quotas, ctx.pick(40, 400)), (coalesce.leaves, ctx.pick(30, 300)), (coalesce.trees, ctx.pick(200, 2000)), (coalesce.stacks, ctx.pick(100, 1000))):
            plays += [translated(rng, s) for s in rng.sample(made(ctx), n)]
    elif prop == "C31":
        many(800, 8000, mistaken)
        many(200, 2000, failing)
    elif prop == "C32":
        plays += life(ctx)
        many(500, 5000, owning)
    elif prop == "C33":
        many(600, 6000, worded)
        plays += [crowd(rng, n) for n in ctx.pick([70001], [16385, 65536, 65537, 70001, 100003])]
    ctx.log("%d scenarios" % len(plays))
    scns = [{"steps": p.js, **({"limit_s": 60} if p.js[0]["e"] == "crowd" else {})} for p in plays]
    ctx.sample(scns[0])
    ctx.sample(scns[-1])
    traces = core.run_driver(ctx, core.node_driver(), scns, name="node")
    ctx.log("binding done")
    asked = [i for i, p in enumerate(plays) if p.core]
    own = {}
    if asked:
        got = core.run_driver(ctx, core.core_driver(), [{"steps": plays[i].core} for i in asked], name="core")
        ctx.evaluations -= len(asked)
        own = dict(zip(asked, got))
    for i, t in enumerate(traces):
        if not t:
            continue
        answers = {e["q"]: e for e in own.get(i) or [] if e["e"] in ("coalesce", "stack_and_coalesce")}
        for e in t:
            if e["e"] == "wrong":        # for people; the specification only knows that it was wrong
                e["args"] = json.dumps(e["args"])
                e["this"] = json.dumps(e.get("this"))
            if e["e"] == "ask":
                c = answers.get(e["q"])
                if c is None:        # the crate itself fails here: other checks say so
                    if prop == "C30":
                        traces[i] = None
                        break
                    e["core"] = {"panicked": True, "ok": True}
                    continue
                e["core"] = {"panicked": False, "q": {"pms": c["pms"], "opts": c["opts"]}, "ok": c["ok"], "contexts": c.get("contexts", [])}
    ctx.log("the crate's answers done")
    core.validate(ctx, "Trace_Node", traces, scenarios=scns)
