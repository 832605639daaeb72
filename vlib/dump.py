"""C34: stores dumped to files, and files loaded as stores."""
from . import core, store


def asking(rng, s, cont, bs):
    free = [{"key": store.match_key(rng, cont, bs), "opts": store.opts(rng, cont, 14)} for _ in range(2)]
    return ([dict(x, s=s) for x in store.gets(rng, s, cont)] + [{"e": "keys", "s": s}, {"e": "iter", "s": s}] +
            [{"e": "searches", "s": s, "qs": free}])


def there_and_back(rng):
    """Built, dumped, loaded, dumped again; asked in between."""
    cont = store.content(rng, rng.randint(0, 6), rng.choice([1, 6, 6, 20]))
    bs = store.boundaries(rng, cont) if rng.random() < 0.6 else []
    steps = store.history(rng, "A", cont)
    if bs:
        steps.append({"e": "bounds", "b": "A", "bounds": store.loaded(rng, bs)})
    steps.append({"e": "finish", "b": "A"})
    if rng.random() < 0.2:
        steps += [{"e": "faults", rng.choice(["open", "get"]): 0}, {"e": "dump", "b": "A", "f": "x"}]
    steps.append({"e": "dump", "b": "A", "f": "f"})
    if rng.random() < 0.2:
        steps += [{"e": "faults", "write": rng.randrange(len(cont) + 2), "sticky": rng.random() < 0.5},
                  {"e": "load", "f": "f", "b": "X"}]
    steps += [{"e": "faults"}, {"e": "load", "f": "f", "b": "B"},
              {"e": "open", "b": "B", "s": "s", "zoom": 14, "radius": 40}]
    steps += asking(rng, "s", cont, bs)
    if rng.random() < 0.5:
        steps.append({"e": "dump", "b": "B", "f": "g"})
    return {"steps": steps}


def from_elsewhere(rng):
    """Files that no dump_store has written."""
    cont = store.content(rng, rng.randint(0, 6), rng.choice([1, 6, 12]))
    bs = store.boundaries(rng, cont) if rng.random() < 0.6 else []
    lines = [{"key": k, "entries": es} for k, es in cont]
    rng.shuffle(lines)
    if lines and rng.random() < 0.4:             # a key twice: the later record counts
        k, es = rng.choice(cont)
        lines.insert(rng.randint(0, len(lines)), {"key": k, "entries": store.entries(rng, 3)})
    while rng.random() < 0.3:
        lines.insert(rng.randint(0, len(lines)), {})
    steps = [{"e": "written", "f": "f", "lines": lines, "splits": store.loaded(rng, bs), "turned": rng.random() < 0.5,
              "unended": rng.random() < 0.3 and bool(lines)},
             {"e": "load", "f": "f", "b": "A"}, {"e": "open", "b": "A", "s": "s", "zoom": 14, "radius": 40}]
    steps += asking(rng, "s", cont, bs) + [{"e": "dump", "b": "A", "f": "g"}]
    if rng.random() < 0.5:
        steps += [{"e": "load", "f": "g", "b": "B"}, {"e": "open", "b": "B", "s": "t", "zoom": 14, "radius": 40}]
        steps += asking(rng, "t", cont, bs)
    return {"steps": steps}


def crowded(rng, nkeys, nents):
    """More than fits into any buffer."""
    cont = [({"p": store.p32(rng.randrange(1 << 32)), "l": store.lang(rng)}, store.entries(rng, nents)) for _ in range(nkeys)]
    bs = [store.p32(n) for n in sorted(rng.sample(range(1 << 32), min(nkeys, 60)))]
    steps = store.history(rng, "A", cont, plain=True)
    steps += [{"e": "bounds", "b": "A", "bounds": bs}, {"e": "finish", "b": "A"}, {"e": "dump", "b": "A", "f": "f"},
              {"e": "load", "f": "f", "b": "B"}, {"e": "open", "b": "B", "s": "s", "zoom": 14}, {"e": "iter", "s": "s"}]
    return {"steps": steps, "limit_s": 60}


def full(rng, which, many):
    """The device of one of the files is full."""
    cont = store.content(rng, 4, 4) or [({"p": [0, 0], "l": store.ALL}, [])]
    if many:
        cont += [({"p": store.p32(500000 + i), "l": store.ALL}, store.entries(rng, 12)) for i in range(30)]
    bs = [store.p32(n) for n in sorted(rng.sample(range(1 << 32), 1500 if many else 40))] if many or which == "splits" else []
    steps = store.history(rng, "A", cont, plain=True)
    if bs:
        steps.append({"e": "bounds", "b": "A", "bounds": bs})
    return {"steps": steps + [{"e": "finish", "b": "A"}, {"e": "dump", "b": "A", "f": "f", "full": which}]}


def site(event):
    """The known finding that a wrongly accepted dump may be: less than a buffer was lost."""
    if event["e"] == "dump" and "full" in event and event["ok"] and event["lost"] < 8192:
        return "full-" + event["full"]


def run(ctx):
    scns = store.modelled(ctx, ctx.pick(100, 1500))
    for s in scns:                               # the model's histories, asked after a dump
        at = [x["e"] for x in s["steps"]].index("finish") + 1
        s["steps"][at:at] = [{"e": "dump", "b": "A", "f": "f"}, {"e": "load", "f": "f", "b": "B"}]
        for x in s["steps"][at + 2:]:
            if x["e"] == "open":
                x["b"] = "B"
    rng = ctx.rng
    scns += [there_and_back(rng) for _ in range(ctx.pick(600, 6000))]
    scns += [from_elsewhere(rng) for _ in range(ctx.pick(400, 4000))]
    scns += [crowded(rng, n, k) for n, k in ctx.pick([(200, 6), (20, 100)], [(200, 6), (20, 100), (600, 8), (40, 400), (1000, 2)])]
    ctx.log("%d scenarios" % len(scns))
    ctx.sample(scns[-3])
    traces = core.run_driver(ctx, core.dump_driver(), scns)
    ctx.log("driver done")
    core.validate(ctx, "Trace_Dump", traces, scenarios=scns, spec="DumpSpec")
    scns = [full(rng, which, many) for which in ("lines", "splits") for many in (False, True) for _ in range(ctx.pick(1, 5))]
    traces = core.run_driver(ctx, core.dump_driver(), scns, name="full")
    for i, t in enumerate(traces):               # each on its own, as most of them are the known finding
        core.validate(ctx, "Trace_Dump", [t], name="full-%d" % i, scenarios=[scns[i]], spec="DumpSpec", known=site)
