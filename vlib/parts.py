"""C20 to C23: search areas, bounded queues, grouping."""
from . import core

ZOOMS = """SPECIFICATION Spec
CONSTANTS
  MaxZoom = %d
  MaxFrom = %d
  Pads = {%s}
  Emit = %s
INVARIANTS Contains Inside ThereAndBack BackAndThere InSteps StaysInGrid OnlyNearby PointStays PrintScenario
CHECK_DEADLOCK FALSE
"""
QUEUE = """SPECIFICATION Spec
CONSTANTS
  Values = {%s}
  Maxes = {%s}
  Steps = %d
  Emit = %s
INVARIANTS Agrees Bounded BestOfAll KeptMeansIn PrintScenario
CHECK_DEADLOCK FALSE
"""
GROUPING = """SPECIFICATION Spec
CONSTANTS
  Keys = {%s}
  MaxLen = %d
  Emit = %s
INVARIANTS WhenDone OneAhead PrintScenario
CHECK_DEADLOCK FALSE
"""


def behaviours(ctx, module, cfg):
    """All the scenarios a small model prints."""
    r = core.model_check(ctx, module, cfg, module + "_emit", workers=1)
    got, seen = [], set()
    for s in core.emitted(r["out"]):
        k = repr(s)
        if k not in seen:
            seen.add(k)
            got.append(s)
    if not got:
        raise core.ToolError("nothing from " + module)
    ctx.extra["behaviours_from_model"] = ctx.extra.get("behaviours_from_model", 0) + len(got)
    return got


def coord(rng, z, around=()):
    top = (1 << z) - 1
    k = rng.randrange(5)
    if k == 0:
        v = rng.choice([0, 1, top, top - 1, top // 2, top // 2 + 1])
    elif k == 1:
        v = (1 << rng.randrange(z + 1)) - rng.randrange(2)
    elif k == 2 and around:
        v = rng.choice(around) + rng.choice([-1, 0, 1])
    else:
        v = rng.randrange(top + 1)
    return min(top, max(0, v))


def area(rng, z, near=False):
    pad = (25 * (1 << z) + 24900) // 24901
    top = (1 << z) - 1
    edge = [pad, top - pad]
    p = [coord(rng, z, edge), coord(rng, z, edge)] if rng.random() < 0.85 else []
    b = []
    if rng.random() < 0.8:
        about = lambda v: (v - pad, v, v + pad)
        xs = sorted([coord(rng, z, about(p[0]) if p else ()), coord(rng, z, about(p[0]) if p else ())])
        ys = sorted([coord(rng, z, about(p[1]) if p else ()), coord(rng, z, about(p[1]) if p else ())])
        b = [xs[0], ys[0], xs[1], ys[1]]
    return {"zoom": z, "prox": p, "bbox": b}


def packed(steps, n=250):
    return [{"steps": steps[i:i + n]} for i in range(0, len(steps), n)]


def zooms(ctx):
    rng, out = ctx.rng, []
    core.model_check(ctx, "MC_Zooms", ZOOMS % (ctx.pick(4, 5), 2, "0, 1, 2", "FALSE"))
    for s in behaviours(ctx, "MC_Zooms", ZOOMS % (3, ctx.pick(1, 2), "0", "TRUE")):
        out.append({"e": "adjust", "opts": s["opts"], "to": s["to"]})
    for z in range(17):
        out.append({"e": "global", "zoom": z})
        for to in range(17):
            for _ in range(ctx.pick(16, 200)):
                out.append({"e": "adjust", "opts": area(rng, z), "to": to})
    return packed(out)


def nearby(ctx):
    rng, out = ctx.rng, []
    core.model_check(ctx, "MC_Zooms", ZOOMS % (3, ctx.pick(2, 3), "0, 1, 2, 3", "FALSE"))
    for s in behaviours(ctx, "MC_Zooms", ZOOMS % (2, 2, "0, 1", "TRUE")):
        out.append({"e": "nearby", "opts": s["opts"]})
    for z in range(17):
        top = (1 << z) - 1
        pad = (25 * (1 << z) + 24900) // 24901
        edges = sorted({min(top, max(0, v)) for v in (0, 1, pad - 1, pad, pad + 1, top // 2, top - pad - 1, top - pad, top - pad + 1, top - 1, top)})
        for x in edges:
            for y in edges:
                out.append({"e": "nearby", "opts": {"zoom": z, "prox": [x, y], "bbox": []}})
        for _ in range(ctx.pick(250, 4000)):
            out.append({"e": "nearby", "opts": area(rng, z)})
    return packed(out)


def queues(ctx):
    rng, out = ctx.rng, []
    core.model_check(ctx, "MC_Queue", QUEUE % ("1, 2, 3", "0, 1, 2, 3, 4", ctx.pick(6, 8), "FALSE"))
    for s in behaviours(ctx, "MC_Queue", QUEUE % ("1, 2, 3", "0, 1, 2, 3", ctx.pick(5, 6), "TRUE")):
        out.append({"e": "queue", "max": s["max"], "desc": rng.random() < 0.5,
                    "ops": [["push", v] if v else ["pop"] for v in s["hist"]]})
    for _ in range(ctx.pick(1200, 12000)):
        n = rng.choice([3, 10, 40, 120])
        top = rng.choice([3, 10, 1000])
        pops = rng.choice([0, 0, 0.1, 0.4])
        out.append({"e": "queue", "max": rng.choice([0, 1, 2, 3, 7, 8, 40, n]), "desc": rng.random() < 0.5,
                    "ops": [["pop"] if rng.random() < pops else ["push", rng.randint(-top, top)] for _ in range(n)]})
    for n in ctx.pick((900,), (900, 2500, 5000)):      # the size used by the search
        out.append({"e": "queue", "max": 800, "desc": True, "ops": [["push", rng.randrange(2000)] for _ in range(n)]})
    return packed(out, 60)


def grouping(ctx):
    rng, out = ctx.rng, []
    core.model_check(ctx, "MC_Grouping", GROUPING % ("1, 2, 3", ctx.pick(7, 9), "FALSE"))
    for s in behaviours(ctx, "MC_Grouping", GROUPING % ("1, 2, 3", ctx.pick(6, 7), "TRUE")):
        out.append({"e": "groupby", "items": s["keys"], "hint": rng.choice(["exact", "nothing", "most"])})
    for _ in range(ctx.pick(800, 10000)):
        k = rng.choice([1, 2, 3, 50])
        items, p = [], rng.choice([0.1, 0.5, 0.9])
        for _ in range(rng.choice([0, 1, 2, 5, 20, 100])):
            items.append(items[-1] if items and rng.random() < p else rng.randint(-k, k))
        out.append({"e": "groupby", "items": items, "hint": rng.choice(["exact", "nothing", "most"])})
    return packed(out, 60)


def run(ctx):
    scns = {"C20": zooms, "C21": nearby, "C22": queues, "C23": grouping}[ctx.prop](ctx)
    ctx.log("%d scenarios" % len(scns))
    ctx.sample(scns[0]["steps"][:3])
    ctx.sample(scns[-1]["steps"][-2:])
    traces = core.run_driver(ctx, core.core_driver(), scns)
    core.validate(ctx, "Trace_Parts", traces, scenarios=scns)
