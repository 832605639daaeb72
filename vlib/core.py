"""What all checks share: building the drivers, running TLC, recording violations and evidence.

The Python side makes inputs, runs programs and counts.  It never judges: every verdict comes from
TLC evaluating a specification, either over the specification's own state space or over a trace
recorded from the real code.
"""
import fcntl, hashlib, json, os, random, re, resource, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(1, min(8, os.cpu_count() or 1))


class ToolError(Exception):
    """Something other than the code under test went wrong: no verdict (exit 2)."""


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.out = os.path.join(VERIF, "out", "%s-%s" % (prop, tier))
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = self.evaluations = 0
        self.samples, self.violations, self.known, self.notes = [], [], [], []
        self.extra, self.assumptions = {}, []
        self.distinct = set()
        self.lock = threading.Lock()

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, *names):
        return os.path.join(self.out, *names)

    def sample(self, what, n=4):
        with self.lock:
            if len(self.samples) < n:
                t = json.dumps(what, separators=(",", ":"))
                self.samples.append(t if len(t) < 700 else t[:700] + "...")

    def violation(self, what, detail):
        """Records a violation; `detail` goes into the replay file."""
        with self.lock:
            n = len(self.violations) + 1
            path = self.path("violation-%d.json" % n)
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                           "what": what, "detail": detail}, f, indent=1)
                f.write("\n")
            self.violations.append((what, path))

    def log(self, msg):
        print("[%6.1fs] %s" % (time.time() - self.t0, msg), flush=True)


# ----------------------------------------------------------------------------- building

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode() + b"\0")
                    with open(q, "rb") as g:
                        h.update(g.read())
        elif os.path.exists(p):
            h.update(p.encode() + b"\0")
            with open(p, "rb") as g:
                h.update(g.read())
    return h.hexdigest()


def cargo_build(crate, package, features=(), pkgs_of_repo=("carmen-core",), src=None, also=()):
    """Builds harness/<crate> (or the crate in src) against /repo's current tree; returns the binary's path, or None and
    the compiler's messages when it does not compile."""
    os.makedirs(BUILD, exist_ok=True)
    tag = crate + "".join("-" + f for f in features)
    target = os.path.join(BUILD, tag)
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    src = src or os.path.join(VERIF, "harness", crate)
    with open(os.path.join(BUILD, tag + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        now = tree_hash([os.path.join(REPO, "rust-src"), os.path.join(REPO, "Cargo.toml"), src,
                         os.path.join(VERIF, "harness", "standins"), *also])
        stamp = os.path.join(BUILD, tag + ".stamp")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        binary = os.path.join(target, "release", package)
        if old == now and os.path.exists(binary):
            return binary, ""
        # cargo goes by modification times; a changed tree may carry old ones
        for p in set(pkgs_of_repo) | {package}:
            subprocess.run(["cargo", "clean", "--release", "--offline", "-p", p], cwd=src, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cmd = ["cargo", "build", "--release", "--offline"]
        if features:
            cmd += ["--features", ",".join(features)]
        r = subprocess.run(cmd, cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True)
        if r.returncode != 0 or not os.path.exists(binary):
            if os.path.exists(stamp):
                os.remove(stamp)
            return None, r.stdout[-6000:]
        with open(stamp, "w") as f:
            f.write(now)
        return binary, ""


def node_driver():
    """The node binding with stand-ins for neon and fuzzy-phrase, as an addon beside /repo's index.js, and a script that
    plays scenarios on it."""
    src = os.path.join(VERIF, "harness", "node")
    addon = os.path.join(BUILD, "node-addon")
    script = os.path.join(addon, "play.sh")
    target = os.path.join(BUILD, "node-binding")
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    with open(os.path.join(BUILD, "node-binding.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        now = tree_hash([os.path.join(REPO, d) for d in ("rust-src", "Cargo.toml", "native/src", "index.js")] +
                        [src, os.path.join(VERIF, "harness", "standins")])
        stamp = os.path.join(BUILD, "node-binding.stamp")
        if os.path.exists(stamp) and open(stamp).read() == now and os.path.exists(script):
            return script
        if os.path.exists(stamp):
            os.remove(stamp)
        for p in ("carmen-core", "node-binding"):
            subprocess.run(["cargo", "clean", "--release", "--offline", "-p", p], cwd=os.path.join(src, "binding"), env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(src, "binding"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        lib = os.path.join(target, "release", "libnode_carmen_core.so")
        if r.returncode != 0 or not os.path.exists(lib):
            raise ToolError("the node binding does not build:\n" + r.stdout[-6000:])
        # a new place each time: another check may be running the old one
        shutil.rmtree(addon, ignore_errors=True)
        os.makedirs(os.path.join(addon, "native"))
        shutil.copy(lib, os.path.join(addon, "native", "index.node"))
        shutil.copy(os.path.join(REPO, "index.js"), os.path.join(addon, "index.js"))
        with open(script, "w") as f:
            f.write("#!/bin/sh\nexec node --expose-gc %s %s \"$@\"\n" % (os.path.join(src, "driver.js"), addon))
        os.chmod(script, 0o755)
        with open(stamp, "w") as f:
            f.write(now)
        return script


def dump_driver():
    b, msg = cargo_build("dump-driver", "dump-driver", pkgs_of_repo=("carmen-core", "test_utils"),
                         also=[os.path.join(REPO, "test_utils", "src"), os.path.join(VERIF, "harness", "core-driver"),
                               os.path.join(VERIF, "harness", "dumps")])
    if not b:
        raise ToolError("dump-driver does not build:\n" + msg)
    return b


def core_driver():
    b, msg = cargo_build("core-driver", "core-driver")
    if not b:
        raise ToolError("core-driver does not build:\n" + msg)
    return b


# ----------------------------------------------------------------------------- drivers

def limit_memory(gb=6):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")))
            f.write("\n")


def read_ndjson(path):
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.endswith("\n"):
                    out.append(json.loads(line))
    return out


def run_driver(ctx, binary, scenarios, name="run", timeout=300, shards=None, env=None, gb=6):
    """Plays scenarios on the real code, in parallel shards.  Returns one list of events per
    scenario.  A driver that dies leaves a "died" event for the scenario it was in."""
    n = shards or CORES
    n = max(1, min(n, len(scenarios)))
    todo = [scenarios[i::n] for i in range(n)]
    res = [None] * n

    def one(i):
        out, rest, base, rounds = [], todo[i], 0, 0
        while rest:
            rounds += 1
            sp = ctx.path("%s-%d-%d.scn" % (name, i, rounds))
            tp = ctx.path("%s-%d-%d.log" % (name, i, rounds))
            work = ctx.path("%s-%d-%d.work" % (name, i, rounds))
            os.makedirs(work)
            write_ndjson(sp, rest)
            open(tp, "w").close()
            try:
                r = subprocess.run([binary, sp, tp, work], stdout=subprocess.DEVNULL,
                                   stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limit_memory(gb),
                                   env=dict(os.environ, **(env or {})))
                code = r.returncode
            except subprocess.TimeoutExpired:
                # many times what it takes: as bad as a hang
                code, rounds = "timeout", 99
            finally:
                shutil.rmtree(work, ignore_errors=True)
            ev = read_ndjson(tp)
            os.remove(tp)
            os.remove(sp)
            if code == 2:
                raise ToolError("driver: " + r.stderr.decode(errors="replace")[-2000:])
            by = {}
            for e in ev:
                by.setdefault(e.pop("scn"), []).append(e)
            ended = max([k for k in by if by[k] and by[k][-1].get("e") in ("end", "panic", "hang")],
                        default=-1)
            for k in range(ended + 1):
                out.append(by.get(k, []))
            if code == 0 and ended == len(rest) - 1:
                rest = []
            elif ended == len(rest) - 1 and by[ended][-1].get("e") == "end":
                # it ended badly when all was done
                out[-1] = out[-1] + [{"e": "died", "code": code}]
                rest = []
            else:
                # the process ended inside scenario `ended + 1`, or gave up after a hang
                if by.get(ended, [{}])[-1].get("e") != "hang":
                    out.append(by.get(ended + 1, []) + [{"e": "died", "code": code}])
                    ended += 1
                rest = rest[ended + 1:]
                if rounds > 20:
                    for _ in rest:
                        out.append(None)
                    rest = []
        res[i] = out

    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, range(n)))
    out = [None] * len(scenarios)
    for i in range(n):
        for j, ev in enumerate(res[i]):
            out[i + j * n] = ev
    ctx.evaluations += len(scenarios)
    return out


# ----------------------------------------------------------------------------- TLC

def tlc(ctx, module, cfg, name=None, workers=None, env=None, timeout=800, heap="3g", extra=(),
        fast=False):
    """Runs TLC; returns dict(code, out, states, distinct)."""
    name = name or module
    with ctx.lock:
        ctx.ntlc = getattr(ctx, "ntlc", 0) + 1
        meta = ctx.path("tlc-%s-%d" % (name, ctx.ntlc))
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-XX:ParallelGCThreads=2",
           "-Djava.io.tmpdir=" + meta]
    if fast:
        cmd += ["-XX:TieredStopAtLevel=1"]
    cmd += ["-cp", JARS, "tlc2.TLC", "-config", cfg, "-workers", str(workers or CORES), "-noGenerateSpecTE",
            "-metadir", meta] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired:
        raise ToolError("TLC ran out of time on %s / %s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout.decode(errors="replace")
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return {"code": r.returncode, "out": out, "generated": gen, "distinct": dist}


def config(ctx, name, text):
    p = ctx.path(name + ".cfg")
    with open(p, "w") as f:
        f.write(text)
    return p


def model_check(ctx, module, cfg_text, name=None, timeout=800, workers=None, heap="8g", extra=()):
    """Exhausts a model of the design.  A violated invariant means that the design, as specified,
    does not have the property.  This does not depend on /repo."""
    name = name or module
    r = tlc(ctx, module, config(ctx, name, cfg_text), name, workers=workers, timeout=timeout, heap=heap,
            extra=extra)
    if r["code"] != 0 or "No error has been found" not in r["out"]:
        raise ToolError("model %s: TLC says\n%s" % (name, r["out"][-4000:]))
    ctx.states += r["distinct"]
    ctx.transitions += r["generated"]
    ctx.log("model %s: %d distinct states, %d generated" % (name, r["distinct"], r["generated"]))
    return r


def model_fails(ctx, module, cfg_text, name, timeout=800, heap="8g"):
    """A model of a design that is known not to have the property: TLC has to say so."""
    r = tlc(ctx, module, config(ctx, name, cfg_text), name, timeout=timeout, heap=heap)
    if "is violated" not in r["out"]:
        raise ToolError("model %s should fail, but TLC says\n%s" % (name, r["out"][-4000:]))
    ctx.log("model %s: fails, as it should" % name)


def together(jobs):
    """Starts several models; call what is returned to wait for them."""
    ex = ThreadPoolExecutor(3)
    running = [ex.submit(j) for j in jobs]

    def wait():
        for f in running:
            f.result()
        ex.shutdown()
    return wait


def emitted(out):
    """Scenarios a model printed."""
    got = []
    for m in re.finditer(r'"?@@SCN (\{.*\})"?\s*$', out, re.M):
        s = m.group(1)
        if '\\"' in s:
            s = s.replace('\\"', '"').replace("\\\\", "\\")
        got.append(json.loads(s))
    return got


TRACE_CFG = """SPECIFICATION %s
CONSTANTS
  Prop = "%s"
%s
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""


def validate(ctx, module, traces, constants="", name=None, shards=None, timeout=850, heap="3g",
             scenarios=None, spec="TraceSpec", known=None):
    """Checks recorded traces (one list of events per scenario) against a trace specification.
    The traces are joined (each begins with a "begin" event) and split over parallel TLC runs; when
    one is rejected, the rest behind it is checked in another run, up to a few times. `known` names the known finding
    (in KNOWN_FINDINGS) that a rejected event may be."""
    name = name or module
    items = [(i, t) for i, t in enumerate(traces) if t]
    n = max(1, min(shards or 4, len(items)))
    weight = [len(json.dumps(t)) for _, t in items]
    buckets = [[] for _ in range(n)]
    load = [0] * n
    for k in sorted(range(len(items)), key=lambda k: -weight[k]):
        j = load.index(min(load))
        buckets[j].append(items[k])
        load[j] += weight[k] + 200
    cfg = config(ctx, name, TRACE_CFG % (spec, ctx.prop, constants))
    fails = []

    def one(j):
        todo, rounds = buckets[j], 0
        while todo and rounds < 3:
            rounds += 1
            rows, where = [], []
            for pos, (i, t) in enumerate(todo):
                for e in t:
                    rows.append(e)
                    where.append(pos)
            p = ctx.path("%s-%d-%d.trace" % (name, j, rounds))
            write_ndjson(p, rows)
            r = tlc(ctx, module, cfg, name, workers=1, env={"TRACE": p}, timeout=timeout, heap=heap,
                    fast=True)
            m = re.findall(r"@@AT (\d+)", r["out"])
            reached = int(m[-1]) if m else None
            ok = r["code"] == 0 and "No error has been found" in r["out"]
            with ctx.lock:
                ctx.states += r["distinct"]
                ctx.transitions += r["generated"]
            if ok:
                with ctx.lock:
                    ctx.traces += len(todo)
                    ctx.events += len(rows)
                os.remove(p)
                return
            if reached is None:
                m = re.findall(r"@@AT1 (\d+)", r["out"])
                raise ToolError("%s: TLC says\n%s" % (name, r["out"][-4000:]))
            bad = min(reached, len(rows) - 1)    # index of the first line not accepted
            pos = where[bad]
            i, t = todo[pos]
            said = re.findall(r'@@NO (.*)', r["out"])
            errs = re.findall(r"(?:Error: .*|The exception was.*(?:\n.*){0,3}|Attempted.*)", r["out"])
            with ctx.lock:
                ctx.traces += pos
                ctx.events += bad
                fails.append((i, bad, rows[bad], said, errs[:3], t, p))
            todo = todo[pos + 1:]

    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, range(n)))
    for i, bad, row, said, errs, t, p in sorted(fails, key=lambda f: f[0]):
        what = "; ".join(s.strip('"') for s in said[-3:]) or row.get("e", "?")
        listed = dict(known_findings(ctx.prop)).get(known(row)) if known else None
        if listed:
            if listed not in ctx.known:
                ctx.known.append(listed)
            continue
        ctx.violation("%s rejects event %s of scenario %d: %s" % (module, row.get("e"), i, what),
                      {"spec": module + ".tla", "event": row, "said": said, "tlc": errs,
                       "scenario": scenarios[i] if scenarios else None, "trace": t})
    return fails


# ----------------------------------------------------------------------------- results

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) (\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def finish(ctx, level="model_checking", rule=""):
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "coverage": {
            "states": ctx.states, "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.traces,
            "events_validated": ctx.events,
            "evaluations": ctx.evaluations,
            "samples": ctx.samples or ["none"],
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(ctx.violations),
    }
    if rule:
        ev["coverage"]["rule"] = rule
    ev["coverage"].update(ctx.extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for what in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, what))
    for what, path in ctx.violations[:5]:
        print("  " + what[:600])
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
    ctx.log("%s %s: %d states, %d traces, %d events validated, %d violations" % (
        ctx.prop, ctx.tier, ctx.states, ctx.traces, ctx.events, len(ctx.violations)))
    return 1 if ctx.violations else 0
