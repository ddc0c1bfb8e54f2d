"""Runner: seeds, worker processes, hang detection, minimisation, replay, evidence.

A property module provides
    ID, RULE, TITLE
    RUNS = {"quick": n, "thorough": n}
    gen(rng, index, tier) -> plan      (JSON data; the only place randomness is drawn)
    run(plan, ctx)                     (pure function of the plan and the code under test)
and optionally
    reduce(plan) -> iterable of smaller plans (argument shrinking)
    REAL / STUB, ASSUMPTIONS, LEVEL_NOTE ...
Every random choice of run i comes from Random(sha256(VERIF_SEED, ID, i)).
"""
import collections
import hashlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback

from . import seams

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)        # where evidence/ and replays/ go


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__("%s: %s" % (kind, msg))
        self.kind, self.msg = kind, msg


class Skip(Exception):
    """The plan step no longer makes sense (used while shrinking)."""


class Hang(BaseException):
    pass


class Ctx:
    """What one simulated run records."""

    def __init__(self, ident):
        self.ident = ident
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.events = []
        self.h = hashlib.sha256()
        self.now = 0                      # virtual microseconds
        self.ops = 0
        self.states = set()
        self.keep_log = False
        self.known = []
        self.lenient = None               # callable(kind,msg)->bool: is it a listed finding?

    def log(self, *a):
        s = "%d %s" % (self.now, " ".join(str(x) for x in a))
        self.h.update(s.encode() + b"\n")
        if self.keep_log:
            self.events.append(s)

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, kind, n=1):
        self.probes[kind] += n

    def state(self, *a):
        """Note an abstract state / interleaving reached."""
        self.states.add(hashlib.sha256(repr(a).encode()).hexdigest()[:16])

    def violate(self, kind, msg):
        if self.lenient is not None and self.lenient(kind, msg):
            self.known.append((kind, msg))
            return
        self.log("VIOLATION", kind, msg)
        raise Violation(kind, msg)

    def digest(self):
        return self.h.hexdigest()


def rng_for(seed, ident, i):
    return random.Random(int.from_bytes(hashlib.sha256(("%s|%s|%s" % (seed, ident, i)).encode()).digest()[:16], "big"))


def sim_reset(seed="0"):
    seams.S.on = True
    seams.S.armed = False
    seams.S.hook = seams.S.tap = seams.S.after = None
    seams.S.entropy = seams.Stream(seed, "default")
    random.seed(12345)


def sim_off():
    seams.S.on = False
    seams.S.armed = False
    seams.S.hook = seams.S.tap = seams.S.after = None
    seams.S.entropy = None


def run_plan(mod, plan, keep_log=False, known=None):
    """Execute one plan. -> (ctx, violation or None). Harness errors propagate."""
    ctx = Ctx(mod.ID)
    ctx.keep_log = keep_log
    if known:
        ctx.lenient = lambda kind, msg: any(k["kind"] == kind and k.get("match", "") in msg for k in known)
    sim_reset(plan.get("seed", "0"))
    v = None
    try:
        mod.run(plan, ctx)
    except Violation as e:
        v = e
    finally:
        sim_off()
    return ctx, v


# ---------------------------------------------------------------------------- known findings

def load_known(ident):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#") or line.startswith("fixed:"):
                    continue
                d = json.loads(line)
                if d.get("property") == ident and d.get("status") == "known":
                    out.append(d)
    return out


# ---------------------------------------------------------------------------- worker

RUN_LIMIT_S = int(os.environ.get("VERIF_RUN_LIMIT", "60"))


def _alarm(sig, frm):
    raise Hang()


def worker(mod, seed, tier, w, nw, total, wfd, deadline, known):
    """Runs indices w, w+nw, ...; writes one JSON line per batch and per violation."""
    out = os.fdopen(wfd, "w", buffering=1)
    agg = collections.Counter()
    faults, probes = collections.Counter(), collections.Counter()
    sigs, states = set(), set()
    simtime = 0
    samples = []
    done = 0
    knownhits = collections.Counter()
    harness = None
    signal.signal(signal.SIGALRM, _alarm)
    i = w
    try:
        while i < total and time.time() < deadline:
            out.write(json.dumps({"t": "start", "i": i}) + "\n")
            plan = mod.gen(rng_for(seed, mod.ID, i), i, tier)
            plan.setdefault("seed", "%s/%s/%d" % (seed, mod.ID, i))
            signal.alarm(RUN_LIMIT_S)
            try:
                ctx, v = run_plan(mod, plan, known=known)
            except Hang:
                sim_off()
                out.write(json.dumps({"t": "hang", "i": i, "plan": plan}) + "\n")
                break
            finally:
                signal.alarm(0)
            done += 1
            faults.update(ctx.faults)
            probes.update(ctx.probes)
            simtime += ctx.now
            sig = ctx.digest()[:16]
            nontrivial = ctx.ops > 0 and (sum(ctx.faults.values()) > 0 or getattr(mod, "NONTRIVIAL_WITHOUT_FAULT", False))
            if nontrivial:
                sigs.add(sig)
            states |= ctx.states
            agg["ops"] += ctx.ops
            for k, m in ctx.known:
                knownhits[k] += 1
            if len(samples) < 1 and nontrivial:
                samples.append({"run": i, "plan": _clip(plan), "digest": sig, "faults": dict(ctx.faults)})
            if v is not None:
                out.write(json.dumps({"t": "viol", "i": i, "plan": plan, "kind": v.kind, "msg": v.msg}) + "\n")
                break
            i += nw
    except Exception:
        sim_off()
        harness = "run %d: %s" % (i, traceback.format_exc())
    out.write(json.dumps({"t": "sum", "done": done, "faults": faults, "probes": probes, "simtime": simtime,
                          "sigs": sorted(sigs), "states": sorted(states), "samples": samples, "ops": agg["ops"],
                          "harness": harness, "known": knownhits}) + "\n")
    out.close()


def _clip(x, n=160):
    if isinstance(x, str):
        return x if len(x) <= n else x[:n] + "...(%d)" % len(x)
    if isinstance(x, list):
        return [_clip(y, n) for y in x[:12]] + (["...(%d)" % len(x)] if len(x) > 12 else [])
    if isinstance(x, dict):
        return {k: _clip(v, n) for k, v in x.items()}
    return x


def explore(mod, seed, tier, nw, total, budget_s, known):
    """Fork nw workers over `total` runs."""
    deadline = time.time() + budget_s
    import selectors
    sel = selectors.DefaultSelector()
    procs = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nw):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setsid()
                os.close(r)
                for o in procs.values():
                    os.close(o["fd"])
                worker(mod, seed, tier, w, nw, total, wr, deadline, known)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        procs[w] = {"pid": pid, "fd": r, "buf": b"", "last": None, "beat": time.time(), "sum": None}
        sel.register(r, selectors.EVENT_READ, w)
    viols, hangs, errors = [], [], []
    live = set(procs)

    def kill(w):
        p = procs[w]
        try:
            os.killpg(p["pid"], signal.SIGKILL)
        except OSError:
            pass

    grace = None
    while live:
        for key, _ in sel.select(timeout=1.0):
            w = key.data
            p = procs[w]
            data = os.read(p["fd"], 1 << 20)
            if not data:
                sel.unregister(p["fd"])
                os.close(p["fd"])
                os.waitpid(p["pid"], 0)
                live.discard(w)
                if p["sum"] is None and not p.get("killed"):
                    errors.append("worker %d ended without a summary (last run %s)" % (w, p["last"]))
                continue
            p["beat"] = time.time()
            p["buf"] += data
            while b"\n" in p["buf"]:
                line, p["buf"] = p["buf"].split(b"\n", 1)
                d = json.loads(line)
                if d["t"] == "start":
                    p["last"] = d["i"]
                elif d["t"] == "viol":
                    viols.append(d)
                elif d["t"] == "hang":
                    hangs.append(d)
                elif d["t"] == "sum":
                    p["sum"] = d
                    if d["harness"]:
                        errors.append(d["harness"])
        now = time.time()
        for w in list(live):
            p = procs[w]
            if now - p["beat"] > RUN_LIMIT_S + 30 and not p.get("killed"):
                p["killed"] = True
                kill(w)
                hangs.append({"i": p["last"], "plan": None})
        if viols and grace is None:
            grace = now + 2.0
        if grace is not None and now > grace:
            for w in list(live):
                if not procs[w].get("killed"):
                    procs[w]["killed"] = True
                    kill(w)
    return viols, hangs, errors, [p["sum"] for p in procs.values() if p["sum"]]


# ---------------------------------------------------------------------------- minimisation

def _still(mod, plan, kind, known, limit=20):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        _, v = run_plan(mod, plan, known=known)
    except Hang:
        sim_off()
        return False
    except Exception:
        sim_off()
        return False
    finally:
        signal.alarm(0)
    return v is not None and v.kind == kind


def _ddmin_list(plan, get, put, test, deadline):
    items = get(plan)
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        shrunk = False
        for s in range(0, len(items), size):
            cand = items[:s] + items[s + size:]
            p2 = put(plan, cand)
            if test(p2):
                plan, items = p2, cand
                n = max(n - 1, 2)
                shrunk = True
                break
            if time.time() > deadline:
                break
        if not shrunk:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return plan


def minimise(mod, plan, kind, known, budget=60):
    deadline = time.time() + budget
    tested = [0]

    def test(p):
        if time.time() > deadline:
            return False
        tested[0] += 1
        return _still(mod, p, kind, known)

    def put(p, steps):
        q = dict(p)
        q["steps"] = steps
        return q

    plan = _ddmin_list(plan, lambda p: list(p.get("steps", [])), put, test, deadline)
    for _ in range(6):
        changed = False
        # nested lists inside steps (deliveries, damages, edits ...)
        for si, st in enumerate(list(plan.get("steps", []))):
            for key in sorted(st) if isinstance(st, dict) else []:
                if isinstance(st[key], list) and len(st[key]) > 0 and key not in getattr(mod, "NOSHRINK", ()):
                    def get(p, si=si, key=key):
                        return list(p["steps"][si][key])

                    def put2(p, items, si=si, key=key):
                        q = dict(p)
                        q["steps"] = [dict(x) if isinstance(x, dict) else x for x in p["steps"]]
                        q["steps"][si][key] = items
                        return q
                    before = len(get(plan))
                    plan = _ddmin_list(plan, get, put2, test, deadline)
                    changed |= len(get(plan)) < before
        if hasattr(mod, "reduce"):
            progress = True
            while progress and time.time() < deadline:
                progress = False
                for cand in mod.reduce(plan):
                    if test(cand):
                        plan = cand
                        progress = changed = True
                        break
                    if time.time() > deadline:
                        break
        if not changed or time.time() > deadline:
            break
    return plan, tested[0]


# ---------------------------------------------------------------------------- main entry

LINE_LIMIT = 30_000_000


def run_with_line_limit(mod, plan):
    """Deterministic hang test: count executed lines of the library."""
    from . import loader
    prefix = os.path.join(loader.REPO, loader.PKG) + os.sep
    mon = sys.monitoring
    count = [0]
    mon.use_tool_id(4, "dst-hang")

    def line(code, ln):
        if not code.co_filename.startswith(prefix):
            return mon.DISABLE
        count[0] += 1
        if count[0] > LINE_LIMIT:
            raise Hang()
    mon.register_callback(4, mon.events.LINE, line)
    mon.set_events(4, mon.events.LINE)
    try:
        try:
            _, v = run_plan(mod, plan)
            return v
        except Hang:
            return Violation("hang", "no result after %d executed lines" % LINE_LIMIT)
    finally:
        sim_off()
        mon.set_events(4, 0)
        mon.free_tool_id(4)


def write_replay(mod, plan, kind, msg, seed, i, info):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    _, v = (None, None)
    log = []
    if kind != "hang":
        try:
            ctx, v = run_plan(mod, plan, keep_log=True)
            log = ctx.events[-200:]
        except Exception:
            sim_off()
    h = hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s.json" % (mod.ID, h))
    with open(path, "w") as f:
        json.dump({"property": mod.ID, "seed": seed, "run": i, "kind": kind, "msg": msg, "plan": plan,
                   "event_log": log, "info": info}, f, indent=1)
    return path


def replay_file(mod, path):
    with open(path) as f:
        d = json.load(f)
    if d["kind"] == "hang":
        v = run_with_line_limit(mod, d["plan"])
        log = []
    else:
        ctx, v = run_plan(mod, d["plan"], keep_log=True)
        log = ctx.events
    for e in log:
        print("  " + e[:400])
    if v is None:
        print("REPLAY property=%s: no violation" % mod.ID)
        return 0
    print("%s: %s" % (v.kind, v.msg))
    print("VIOLATION property=%s replay=%s" % (mod.ID, path))
    if v.kind != d["kind"]:
        print("note: recorded kind was %s" % d["kind"])
    return 1


def confirm(mod, path, tries=1):
    for _ in range(tries):
        r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), mod.ID, "--replay", path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode == 1 and b"VIOLATION property=" in r.stdout:
            return True
    return False


def main(mod, tier, seed, nw=None, total=None, replay=None, no_evidence=False):
    t0 = time.time()
    if replay:
        return replay_file(mod, replay)
    nw = nw or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    total = total or mod.RUNS[tier]
    budget = float(os.environ.get("VERIF_BUDGET", "0")) or (getattr(mod, "BUDGET", {}).get(tier) or (420 if tier == "quick" else 840))
    print("property=%s tier=%s seed=%s workers=%d runs<=%d" % (mod.ID, tier, seed, nw, total), flush=True)
    known = load_known(mod.ID)
    if hasattr(mod, "prepare"):
        mod.prepare()
    viols, hangs, errors, sums = explore(mod, seed, tier, nw, total, budget, known)
    rc = 0
    vcount = 0
    if viols:
        viols.sort(key=lambda d: d["i"])
        vcount = len(viols)
        for n, d in enumerate(viols[:6]):
            print("run %d violated: %s: %s" % (d["i"], d["kind"], d["msg"]), flush=True)
            info, msg = {"unminimised": True}, d["msg"]
            full = write_replay(mod, d["plan"], d["kind"], d["msg"], seed, d["i"], info)
            if not confirm(mod, full):
                print("note: run %d did not violate again in a fresh process (%s)" % (d["i"], full), flush=True)
                continue
            path = full
            small, tests = minimise(mod, d["plan"], d["kind"], known)
            ctx, v = run_plan(mod, small, known=known)
            if v is not None:
                i2 = {"steps_before": len(d["plan"].get("steps", [])), "steps_after": len(small.get("steps", [])), "shrink_tests": tests}
                p2 = write_replay(mod, small, d["kind"], v.msg, seed, d["i"], i2)
                if p2 == full or confirm(mod, p2):
                    info, msg, path = i2, v.msg, p2
            if path != full:
                os.remove(full)
            print("minimised: %s (%s)" % (info, msg))
            print("VIOLATION property=%s replay=%s" % (mod.ID, path), flush=True)
            rc = 1
            break
        else:
            print("ERROR: no violation replayed in a fresh process")
            return 2
    elif hangs:
        d = hangs[0]
        plan = d["plan"]
        if plan is None:
            plan = mod.gen(rng_for(seed, mod.ID, d["i"]), d["i"], tier)
            plan.setdefault("seed", "%s/%s/%d" % (seed, mod.ID, d["i"]))
        path = write_replay(mod, plan, "hang", "no result", seed, d["i"], {})
        try:
            ok = confirm(mod, path)
        except subprocess.TimeoutExpired:
            ok = False
        if ok:
            print("VIOLATION property=%s replay=%s" % (mod.ID, path), flush=True)
            rc, vcount = 1, 1
        else:
            print("ERROR: run %s exceeded its time limit but not its step limit" % d["i"])
            return 2
    elif errors:
        for e in errors:
            print("ERROR: harness: " + e)
        return 2
    runs = sum(s["done"] for s in sums)
    faults, probes, khits = collections.Counter(), collections.Counter(), collections.Counter()
    sigs, states, samples = set(), set(), []
    for s in sums:
        faults.update(s["faults"])
        probes.update(s["probes"])
        khits.update(s["known"])
        sigs |= set(s["sigs"])
        states |= set(s["states"])
        samples += s["samples"]
    wall = time.time() - t0
    if rc == 0 and runs < total:
        print("note: wall budget reached after %d of %d runs" % (runs, total))
        if runs < max(1, total // 10):
            print("ERROR: fewer than a tenth of the runs finished in the wall budget")
            return 2
    need = getattr(mod, "MUST_REACH", {}).get(tier, ())
    missing = [p for p in need if not (probes.get(p) or faults.get(p))]
    if rc == 0 and missing and runs == mod.RUNS[tier]:
        print("note: probes never hit: %s" % missing)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (mod.ID, k["what"]))
    if not no_evidence:
        ev = {
            "property": mod.ID, "tier": tier, "seed": int(seed), "level": "exploration",
            "coverage": {
                "evaluations": runs,
                "distinct_nontrivial": len(sigs),
                "rule": mod.RULE,
                "samples": samples[:3] or [{"note": "no non-trivial run finished"}],
                "library_operations": sum(s["ops"] for s in sums),
                "runs_per_hour": int(runs / wall * 3600) if wall else 0,
                "seeds_per_hour": int(runs / wall * 3600) if wall else 0,
                "simulated_seconds": round(sum(s["simtime"] for s in sums) / 1e6, 3),
                "faults_injected": dict(sorted(faults.items())),
                "conditions_reached": dict(sorted(probes.items())),
                "distinct_states_or_interleavings": len(states),
                "state_measure": getattr(mod, "STATE_MEASURE", "hash of the event sequence of a run"),
                "components_real": getattr(mod, "REAL", ["pycose (all of it, imported from the working tree, one fresh import per simulated process)", "cbor2", "cryptography/OpenSSL", "ecdsa"]),
                "components_stubbed": getattr(mod, "STUB", ["network and clock (virtual-time event queue)", "entropy (seeded streams)", "disk (in-memory store with crash)"]),
                "workers": nw,
                "known_finding_hits": dict(khits),
                "probes_never_hit": missing,
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2), "violations": vcount,
        }
        d = os.path.join(OUT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, mod.ID + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    digest = hashlib.sha256(repr((sorted(sigs), sorted(states), sorted(faults.items()), sorted(probes.items()))).encode()).hexdigest()[:12]
    print("property=%s runs=%d distinct=%d states=%d faults=%d digest=%s wall=%.1fs rc=%d" % (
        mod.ID, runs, len(sigs), len(states), sum(faults.values()), digest, wall, rc), flush=True)
    return rc
