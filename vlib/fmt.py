"""C01, C02: the record format."""
import json, os, re, shutil
from . import core

TARGETS = [128, 256, 16384, 65536]
BIG = [2097152, 16777216]


def varint_len(n):
    k = 1
    while n >= 128:
        n >>= 7
        k += 1
    return k


def pad(target):
    """Lists that take exactly `target` bytes."""
    ops = []
    c = max(0, (target - 5) // 4)
    if c:
        ops.append({"op": "ids", "val": [[c, [0, 0, 0, 0]]]})
    used = varint_len(c) + 4 * c if c else 0
    while used < target:
        ops.append({"op": "ids", "val": []})
        used += 1
    assert used == target, (used, target)
    return ops


def shift(ops, by):
    out = []
    for op in ops:
        k = op["op"]
        if k == "ids":
            out.append(op)
        elif k in ("tiles", "groups"):
            out.append({"op": k, "val": [[n, dict(v, ref=v["ref"] + by)] for n, v in op["val"]]})
        else:
            out.append({"op": k, "val": op["val"] + by})
    return out


def padded(ops, target):
    p = pad(target)
    return p + shift(ops, len(p))


def rle(xs):
    out = []
    for x in xs:
        if out and out[-1][1] == x:
            out[-1][0] += 1
        else:
            out.append([1, x])
    return out


def from_model(scn, m):
    """A scenario printed by MC_Format, with the model's digits renamed to bytes by `m`."""
    ops = []
    d = lambda ds: [m[x] for x in ds]
    for op in scn["ops"]:
        if op["op"] == "ids":
            ops.append({"op": "ids", "val": rle([d(x) for x in op["val"]])})
        elif op["op"] == "tiles":
            ops.append({"op": "tiles", "val": rle([{"coord": d(t["coord"]), "ref": t["ref"]} for t in op["val"]])})
        elif op["op"] == "groups":
            ops.append({"op": "groups", "val": rle([{"rs": m[g["rs"]], "ref": g["ref"]} for g in op["val"]])})
        else:
            ops.append({"op": "root", "val": op["ref"]})
    return ops


def segments(b):
    out, at, lit = [], 0, 0

    def flush(f, t):
        while f < t:
            e = min(t, f + 512)
            out.append({"s": f, "n": e - f, "b": -1, "lit": b[f:e]})
            f = e
    while at < len(b):
        n = 1
        while at + n < len(b) and b[at + n] == b[at]:
            n += 1
        if n >= 16:
            flush(lit, at)
            out.append({"s": at, "n": n, "b": b[at], "lit": []})
            lit = at + n
        at += n
    flush(lit, len(b))
    return out


def listed(xs):
    return {"len": len(xs), "items": rle(xs)}


def foreign(scn):
    tiles = lambda ts: listed([{"coord": t["coord"], "ids": listed(t["ids"])} for t in ts])
    return {"e": "read", "mem": segments(scn["mem"]),
            "meant": listed([{"rs": g["rs"], "tiles": tiles(g["tiles"])} for g in scn["meant"]])}


def u32(rng):
    k = rng.randrange(4)
    if k == 0:
        return [rng.choice([0, 1, 127, 128, 255]) for _ in range(4)]
    if k == 1:
        return [rng.randrange(256), 0, 0, 0]
    return [rng.randrange(256) for _ in range(4)]


def random_record(rng):
    """A record with unequal content, large in at most one dimension."""
    ops, ids, tiles = [], [], []
    big = rng.choice(["ids", "tiles", "groups", "lists", None])
    for _ in range(rng.randint(1, 20 if big == "lists" else 5)):
        n = rng.choice([31, 62, 63, 64, 127, 128] if big == "ids" else [0, 1, 2, 3, 4])
        ops.append({"op": "ids", "val": rle([u32(rng) for _ in range(n)])})
        ids.append(len(ops))
        if rng.random() < 0.4 and len(tiles) < 5:
            n = rng.choice([20, 50, 127, 128] if big == "tiles" else [0, 1, 2, 3])
            ops.append({"op": "tiles", "val": rle([{"coord": u32(rng), "ref": rng.choice(ids)} for _ in range(n)])})
            tiles.append(len(ops))
    if not tiles:
        ops.append({"op": "tiles", "val": rle([{"coord": u32(rng), "ref": rng.choice(ids)} for _ in range(3)])})
        tiles.append(len(ops))
    n = rng.choice([16, 63, 64, 127, 128, 200]) if big == "groups" else rng.randint(0, 4)
    ops.append({"op": "groups", "val": rle([{"rs": rng.randrange(256), "ref": rng.choice(tiles)} for _ in range(n)])})
    ops.append({"op": "root", "val": len(ops)})
    return ops


def lengths(kind, n):
    """One list of n elements inside a small record."""
    ops = [{"op": "ids", "val": []}]
    if kind == "ids":
        ops.append({"op": "ids", "val": [[n, [9, 9, 9, 9]]] if n else []})
        ops.append({"op": "tiles", "val": [[1, {"coord": [1, 2, 3, 4], "ref": 2}], [1, {"coord": [5, 6, 7, 8], "ref": 1}]]})
        ops.append({"op": "groups", "val": [[1, {"rs": 63, "ref": 3}]]})
        ops.append({"op": "root", "val": 4})
    elif kind == "tiles":
        ops.append({"op": "ids", "val": [[2, [3, 3, 3, 3]]]})
        ops.append({"op": "tiles", "val": [[n, {"coord": [1, 1, 1, 1], "ref": 2}]] if n else []})
        ops.append({"op": "groups", "val": [[1, {"rs": 63, "ref": 3}]]})
        ops.append({"op": "root", "val": 4})
    elif kind == "groups":
        ops.append({"op": "tiles", "val": [[1, {"coord": [1, 1, 1, 1], "ref": 1}]]})
        ops.append({"op": "groups", "val": [[n, {"rs": 1, "ref": 2}]] if n else []})
        ops.append({"op": "root", "val": 3})
    return ops


CFG = """SPECIFICATION MSpec
CONSTANTS
  B = %d
  W = 4
  MaxIdLists = %d
  IdLens = {%s}
  MaxTileLists = %d
  MaxTiles = %d
  MaxGroups = %d
  Extras = {%s}
  Emit = %s
  Sample = %s
INVARIANTS EveryListReadsBack RecordReadsBack PrintScenario
%s
CHECK_DEADLOCK FALSE
"""


def opened():
    """A copy of the crate whose record module is public, and the driver on top of it: for when that module does not
    compile on its own, because it has come to use other parts of the crate."""
    repo, drv, here = (os.path.join(core.BUILD, d) for d in ("open-repo", "open-driver", "../harness"))
    for d in (repo, drv):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    shutil.copytree(core.REPO + "/rust-src", repo + "/rust-src")
    shutil.copy(core.REPO + "/Cargo.toml", repo)
    os.symlink(core.REPO + "/test_utils", repo + "/test_utils")
    os.symlink(core.REPO + "/benches", repo + "/benches")
    for f, old, new in (("gridstore/mod.rs", r"^\s*(pub\([a-z]+\) )?mod gridstore_format", "pub mod gridstore_format"),
                        ("gridstore/gridstore_format.rs", r"pub\((crate|super)\)", "pub"), ("lib.rs", r"^\s*mod gridstore", "pub mod gridstore")):
        p = os.path.join(repo, "rust-src/src", f)
        text = open(p).read()
        open(p, "w").write(re.sub(old, new, text, flags=re.M))
    os.makedirs(drv + "/src")
    main = open(core.VERIF + "/harness/fmt-driver/src/main.rs").read()
    open(drv + "/src/main.rs", "w").write(re.sub(r'#\[path = .*\npub mod gridstore_format;', "use carmen_core::gridstore::gridstore_format;", main))
    toml = open(core.VERIF + "/harness/core-driver/Cargo.toml").read()
    toml = toml.replace('name = "core-driver"', 'name = "fmt-driver"').replace('path = "/repo"', 'path = "%s"' % repo)
    open(drv + "/Cargo.toml", "w").write(toml.replace("../standins", core.VERIF + "/harness/standins").replace(
        "[dependencies]", "[features]\nscalars = []\n\n[dependencies]"))
    shutil.copy(core.VERIF + "/harness/core-driver/Cargo.lock", drv)
    return drv


def driver():
    b, msg = core.cargo_build("fmt-driver", "fmt-driver", ("scalars",))
    if not b:
        b, msg = core.cargo_build("fmt-driver", "fmt-driver")
    if not b:
        drv = opened()
        b, more = core.cargo_build("fmt-driver-open", "fmt-driver", ("scalars",), src=drv)
        if not b:
            b, more = core.cargo_build("fmt-driver-open", "fmt-driver", src=drv)
        msg += more
    return b, msg


def run(ctx):
    rng = ctx.rng
    r = core.model_check(ctx, "MC_Format", CFG % (4, 2, ctx.pick("0, 1, 2", "0, 1, 2, 3"), ctx.pick(1, 2), 2,
                         ctx.pick(2, 2), "0", "TRUE", "FALSE", "PROPERTY Grows"), "MC_Format_exhaustive")
    model = core.emitted(r["out"])
    ctx.extra["records_from_model"] = len(model)
    binary, msg = driver()
    if not binary:
        raise core.ToolError("fmt-driver does not build:\n" + msg)
    scns = []
    for s in rng.sample(model, min(len(model), ctx.pick(160, 3000))):
        m = rng.sample([0, 1, 2, 64, 127, 128, 200, 254, 255], 4)
        ops = from_model(s, m)
        t = rng.choice([0, 0] + TARGETS)
        if t:
            ops = padded(ops, t - rng.randrange(0, 12))
        scns.append({"e": "write", "ops": ops})
    for k, ns in (("ids", [0, 1, 127, 128, 129, 16383, 16384, 2097151, 2097152]),
                  ("tiles", [0, 1, 127, 128, 16383, 16384]),
                  ("groups", [0, 1, 2, 127, 128, 255, 256, 16383, 16384])):
        for n in ns:
            scns.append({"e": "write", "ops": lengths(k, n)})
    for t in TARGETS + BIG:
        for off in range(0, ctx.pick(6, 16) if t in TARGETS else ctx.pick(0, 4)):
            base = from_model(rng.choice(model), [0, 1, 128, 255]) if model else lengths("ids", 2)
            scns.append({"e": "write", "ops": padded(base, t - off)})
    # one list right at and right before each change of pointer width and of varint length
    for t in TARGETS + BIG:
        for at in (t - 1, t):
            scns.append({"e": "write", "ops": padded(
                [{"op": "ids", "val": [[1, [1, 2, 3, 4]], [1, [5, 0, 0, 255]]]},
                 {"op": "tiles", "val": [[1, {"coord": [9, 8, 7, 6], "ref": 1}]]},
                 {"op": "groups", "val": [[1, {"rs": 63, "ref": 2}]]}, {"op": "root", "val": 3}], at)})
            if t in TARGETS + BIG[:1]:
                scns.append({"e": "write", "ops": padded(
                    [{"op": "tiles", "val": [[1, {"coord": [9, 8, 7, 6], "ref": 0}]]},
                     {"op": "groups", "val": [[1, {"rs": 63, "ref": 1}], [1, {"rs": 7, "ref": 1}]]},
                     {"op": "root", "val": 2}], at)})
    for _ in range(ctx.pick(60, 1500)):
        ops = random_record(rng)
        if rng.random() < 0.3:
            t = rng.choice(TARGETS)
            ops = padded(ops, t - rng.randrange(0, min(t, 300)))
        scns.append({"e": "write", "ops": ops})
    for _ in range(ctx.pick(20, 200)):
        scns.append({"e": "scalars", "u32": u32(rng), "size": rng.choice([7, 8]),
                     "pad": rng.choice([0, 1, 30, 31, 32, 62, 63, 64, 4000, 16383, 16384])})
    if ctx.prop == "C02":
        f = core.config(ctx, "foreign", CFG % (256, 4, "0, 1, 2, 64, 100", 3, 3, 3, "0, 1, 2, 3", "TRUE", "TRUE", ""))
        r = core.tlc(ctx, "MC_Format", f, "foreign", workers=1, extra=[
            "-simulate", "num=%d" % ctx.pick(60, 2500), "-depth", "12", "-seed", str(ctx.seed)], fast=ctx.quick)
        fs = core.emitted(r["out"])
        if not fs:
            raise core.ToolError("no records from the specification's encoder:\n" + r["out"][-3000:])
        ctx.extra["records_laid_out_by_the_specification"] = len(fs)
        scns += [foreign(s) for s in fs]
    ctx.log("%d scenarios" % len(scns))
    ctx.sample(scns[0])
    ctx.sample(scns[-1])
    traces = core.run_driver(ctx, binary, scns)
    ctx.log("driver done")
    core.validate(ctx, "Trace_Format", traces, scenarios=scns)
    ctx.assumptions += ["the record module is compiled on its own from rust-src/src/gridstore/gridstore_format.rs"]
