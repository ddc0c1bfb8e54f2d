"""Concurrent threads get the results they would get alone."""
import json

from .. import msgs, rcpts, ref, seams, threads
from ..core import Ctx, Violation
from ..plain import canon, j
from ..solo import Check, World
from ..traffic import make_spec

ID = "C07"
RULE = ("A run is a seeded set of programs for two to four real threads of one process (create, encode, decode, verify, decrypt, key "
        "generation and loading, on their own messages with shared keys, header maps and received messages) and a seeded schedule that hands "
        "control over at chosen lines or bytecodes inside pycose and at calls into its dependencies. Each program is first run alone. "
        "Non-trivial: at least one hand-over in the middle of an operation; distinct: by the hash of the event log, which contains the "
        "full hand-over sequence.")
RUNS = {"quick": 1800, "thorough": 24000}
STATE_MEASURE = "distinct hand-over sequences (from thread, place in the code, to thread)"
NONTRIVIAL_WITHOUT_FAULT = False
ASSUMPTIONS = ["the dependencies (cbor2, OpenSSL, ecdsa) are themselves thread-safe",
               "threads switch only at lines or bytecodes of pycose and at calls into its dependencies",
               "each message object is changed by one thread only; threads share keys, header maps and received messages they only open"]
MUST_REACH = {"quick": ("shared_key", "shared_headers", "shared_received", "opcode_granularity", "line_granularity", "first_use_race", "meeting_schedule")}
REAL = ["pycose (all of it, one fresh import per simulated process)", "cbor2", "cryptography/OpenSSL", "ecdsa", "Python threads"]
STUB = ["thread scheduler (one thread runs at a time, hand-over at seeded points)", "locks (waiting hands control over)", "entropy (one seeded stream per thread)"]


def gen(rng, i, tier):
    n = rng.choice([2, 2, 3, 4])
    keys, shared = [], {}
    ring = rcpts.KeyRing(keys)
    focus = rng.choice([None, None, ["enc"], ["mac"], ["sign"], ["sign1"], ["enc0"], ["mac0"], ["enc", "mac"], ["enc0", "mac0", "sign1"]])

    made = []

    def spec(kind):
        if made and rng.random() < narrow:
            sp = twin(rng, rng.choice(made), keys)
        else:
            sp = spec0(kind)
        if sp.get("_twin") is None:
            made.append(sp)
        sp.pop("_twin", None)
        return sp

    def spec0(kind):
        if kind in ("enc", "mac"):
            sp = rcpts.gen_spec(rng, ring, kind)
        else:
            sp = make_spec(rng, kind, keys, shared)
        sp["payload"] = sp["payload"][:400]
        sp["aad"] = sp["aad"][:200]
        return sp
    narrow = rng.choice([0, .5, 1])
    kinds = focus or ["enc0", "mac0", "sign1", "enc", "mac", "sign"]
    tmpl = [spec(rng.choice(kinds)) for _ in range(rng.choice([0, 1, 2]))]
    pool = [spec(rng.choice(kinds)) for _ in range(rng.choice([1, 2, 3]))]      # made by the reference peer
    steps = []
    for _ in range(n * rng.choice([1, 2, 3, 4])):
        t = rng.randrange(n)
        x = rng.random()
        if x < .36:
            if tmpl and rng.random() < .6:
                k = rng.randrange(len(tmpl))
                sp = {**tmpl[k], "payload": rng.randbytes(rng.choice([1, 5, 17, 40])).hex(), "_tmpl": k}
                if sp["kind"] != "sign":
                    sp["aad"] = rng.randbytes(rng.choice([0, 1, 9])).hex()
            else:
                sp = spec(rng.choice(kinds))
            steps.append({"op": "send", "t": t, "spec": sp, "again": rng.random() < .3, "rt": rng.random() < .3})
        elif x < .6:
            steps.append({"op": "recv", "t": t, "w": rng.randrange(len(pool)), "how": rng.choice(["right", "right", "right", "aad", "cut"]),
                          "i": rng.randrange(4), "key": rng.choice(["shared", "shared", "own"])})
        elif x < .85:
            steps.append({"op": "open", "t": t, "w": rng.randrange(len(pool)), "i": rng.randrange(4)})
        elif x < .9:
            steps.append({"op": "gen", "t": t, "what": rng.choice(["sym", "ec2", "okp"]), "arg": rng.randrange(10)})
        elif x < .96 and keys:
            steps.append({"op": "load", "t": t, "k": rng.randrange(len(keys)), "enc": rng.choice([0, 1])})
        elif x < .98 and keys:
            steps.append({"op": "store", "t": t, "k": rng.randrange(len(keys)), "n": rng.choice([1, 3])})
        else:
            steps.append({"op": "hash", "t": t, "alg": rng.choice([-16, -44, -15, -17]), "v": rng.randbytes(20).hex()})
    msgs.declare_ops(rng, keys)
    msgs.decorate(rng, keys)
    storm = rng.random()
    if storm < .15:
        # everybody opens the same received message
        del pool[1:]
        steps = [{"op": "open", "t": t, "w": 0, "i": rng.randrange(4)} for t in range(n) for _ in range(rng.choice([1, 2, 3]))]
    elif storm < .3:
        # everybody uses the same key for one kind of operation
        del pool[1:]
        steps = [{"op": "recv", "t": t, "w": 0, "how": "right", "i": rng.randrange(4), "key": "shared"} if rng.random() < .7 else
                 {"op": "send", "t": t, "spec": twin(rng, pool[0], keys) if rng.random() < .5 else {**pool[0]}, "again": False, "rt": rng.random() < .4}
                 for t in range(n) for _ in range(rng.choice([1, 2]))]
        for st in steps:
            if "spec" in st:
                st["spec"].pop("_twin", None)
    elif storm < .4 and keys:
        # the keys in use are stored and looked at meanwhile
        used = [k for sp in pool for k in [sp.get("key")] + [x.get("key") for x in sp.get("recipients", []) + sp.get("signers", [])] if k is not None]
        for st in steps:
            if used and (st["t"] == 0 or rng.random() < .2):
                t = st["t"]
                st.clear()
                st.update({"op": "store", "t": t, "k": rng.choice(used), "n": rng.choice([1, 3, 6])})
    mean = rng.choice([2, 6, 20, 60, 200])
    ns = rng.choice([3, 20, 60, 200])
    gran = "op" if rng.random() < .3 else "line"
    if gran == "op":
        mean *= 4
    sched = [[int(rng.expovariate(1 / mean)), rng.randrange(n)] for _ in range(ns)]
    meet = [rng.randrange(1 << 30), rng.choice([3, 8, 25, 60])] if rng.random() < .5 else None
    return {"keys": keys, "n": n, "tmpl": tmpl, "pool": pool, "steps": steps, "sched": [] if meet else sched, "gran": gran, "meet": meet}


def twin(rng, sp, keys):
    """Another message of the same kind, algorithms and header names but its own content, and often its own keys."""
    sp = json.loads(json.dumps(sp))
    sp["_twin"] = True
    if rng.random() < .8:
        sp["payload"] = rng.randbytes(rng.choice([1, 5, 17, 40])).hex()
    if sp["aad"] is not None and sp["kind"] != "sign":
        sp["aad"] = rng.randbytes(rng.choice([0, 1, 9])).hex()

    def other(i):
        if i is None or rng.random() < .4:
            return i
        d = keys[i]
        if d["t"] == "sym":
            k = msgs.gen_sym(rng, len(d["k"]) // 2)
        else:
            k = {"ec2": msgs.gen_ec, "okp": msgs.gen_okp}[d["t"]](rng, d["crv"]) if d["t"] != "rsa" else msgs.gen_rsa(rng)
        keys.append({**k, **{x: y for x, y in d.items() if x.startswith("_")}})
        return len(keys) - 1
    rl = sp.get("recipients", [])
    if not rl:
        sp["key"] = other(sp.get("key"))
    elif rl[0]["alg"] == ref.DIRECT:
        sp["key"] = other(sp["key"])
        for r in rl:
            r["key"] = sp["key"]
    else:
        for r in rl:
            r["key"] = other(r["key"])
            for b in ("p", "u"):
                for it in r[b]:
                    if it[0] in rcpts.PARTY + (rcpts.SALT,) and rng.random() < .7:
                        it[1] = j(rng.randbytes(rng.choice([1, 4, 16, 32])))
    for s in sp.get("signers", []):
        s["key"] = other(s["key"])
    return sp


def run(plan, ctx):
    chk = Check(plan, ctx)
    n = plan["n"]
    progs = [[(i, st) for i, st in enumerate(plan["steps"]) if st["t"] % n == t] for t in range(n)]
    with threads.coop_locks():
        # alone
        alone = {}
        w = World(plan, ctx, chk)
        seams.S.entropy = seams.Stream(plan["seed"], "alone")
        for t in range(n):
            for i, st in progs[t]:
                alone[i] = chk.result(st, w.op(st), "a thread running alone")
                ctx.ops += 1
        # together, in a fresh process
        chk.secrets = {}
        seams.S.entropy = seams.Stream(plan["seed"], "setup")
        w = World(plan, ctx, chk)
        sch = threads.Scheduler(n, plan["sched"], plan["gran"] == "op", plan.get("meet"))
        EXPLICIT.clear()
        EXPLICIT[json.dumps(plan, sort_keys=True)] = sch.explicit
        if plan.get("meet"):
            ctx.probe("meeting_schedule")
        seams.S.entropy = threads.ThreadEntropy(plan["seed"], "together", sch.ids)
        got = {}

        def prog(t):
            def f():
                for i, st in progs[t]:
                    got[i] = w.op(st)
            return f
        try:
            sch.run([prog(t) for t in range(n)])
        except threads.Deadlock as e:
            ctx.violate("deadlock", str(e))
    seams.S.entropy = seams.Stream(plan["seed"], "after")
    ctx.ops += len(plan["steps"])
    ctx.now += sch.points
    if sch.switched:
        ctx.fault("handover", sch.switched)
    ctx.probe("opcode_granularity" if plan["gran"] == "op" else "line_granularity")
    note(plan, ctx, progs)
    for x in sch.trace:
        ctx.log(*x)
    ctx.state(sch.trace)
    for i, st in enumerate(plan["steps"]):
        r = chk.result(st, got[i], "thread %d" % (st["t"] % n))
        ctx.log("result", i, st["t"] % n, st["op"], r[0] if r[0] == "ok" else r)
        if r != alone[i]:
            ctx.violate("differs", "operation %d (%s %s, thread %d): %s alone, %s together with other threads" % (
                i, st["op"], describe(plan, st), st["t"] % n, short(alone[i]), short(r)))
    for k, (a, b) in enumerate(w.tmpl):
        if [msgs.norm_hdr(a), msgs.norm_hdr(b)] != w.tmpl0[k]:
            ctx.violate("shared-changed", "a header map shared by the threads was changed")
    for (i, priv), k in w.cache.items():
        if canon(msgs.plain_val(dict(k))) != canon(ref.key_map(plan["keys"][i], priv)):
            ctx.violate("shared-changed", "a key shared by the threads was changed")


def describe(plan, st):
    sp = st.get("spec") or (plan["pool"][st["w"]] if "w" in st else None)
    if sp is None:
        return ""
    return "%s alg %s %s" % (sp["kind"], sp.get("alg"), [r["alg"] for r in sp.get("recipients", [])])


def short(r):
    s = repr(r)
    return s if len(s) < 160 else s[:70] + " ... " + s[-70:]


def note(plan, ctx, progs):
    use, tm, rc = {}, {}, {}
    for t, p in enumerate(progs):
        for i, st in p:
            if st["op"] == "send":
                sp = st["spec"]
                ks = [sp.get("key")] + [s["key"] for s in sp.get("signers", [])] + [r.get("key") for r in sp.get("recipients", [])]
                for k in ks:
                    if k is not None:
                        use.setdefault(k, set()).add(t)
                if sp.get("_tmpl") is not None:
                    tm.setdefault(sp["_tmpl"], set()).add(t)
            elif st["op"] == "open":
                rc.setdefault(st["w"], set()).add(t)
    if any(len(x) > 1 for x in use.values()):
        ctx.probe("shared_key")
    if any(len(x) > 1 for x in tm.values()):
        ctx.probe("shared_headers")
    if any(len(x) > 1 for x in rc.values()):
        ctx.probe("shared_received")
    if sum(1 for p in progs if p) > 1:
        ctx.probe("first_use_race")


EXPLICIT = {}


def reduce(plan):
    if plan.get("meet"):
        try:
            run(plan, Ctx("reduce"))
        except Violation:
            pass
        ex = EXPLICIT.get(json.dumps(plan, sort_keys=True))
        if ex:
            yield {**plan, "meet": None, "sched": ex}
        for k in (2, 5, 20):
            yield {**plan, "meet": [plan["meet"][0], plan["meet"][1] * k]}
    if plan["n"] > 2:
        for t in range(plan["n"]):
            if not any(st["t"] % plan["n"] == t for st in plan["steps"]):
                yield {**plan, "n": plan["n"] - 1, "steps": [{**s, "t": s["t"] - (s["t"] > t)} for s in plan["steps"]],
                       "sched": [[g, x - (x > t)] for g, x in plan["sched"] if x != t]}
    sw = plan["sched"]
    size = len(sw) // 2
    while size:
        for a in range(0, len(sw), size):
            yield {**plan, "sched": sw[:a] + sw[a + size:]}
        size //= 2
    # merge hand-overs: drop one but keep the later positions
    for a in range(len(sw) - 1):
        yield {**plan, "sched": sw[:a] + [[sw[a][0] + 1 + sw[a + 1][0], sw[a + 1][1]]] + sw[a + 2:]}
    for si, st in enumerate(plan["steps"]):
        for k in ("again", "rt"):
            if st.get(k):
                q = list(plan["steps"])
                q[si] = {**st, k: False}
                yield {**plan, "steps": q}
        sp = st.get("spec")
        if sp:
            for b in ("p", "u"):
                if sp[b] and sp.get("_tmpl") is None:
                    q = list(plan["steps"])
                    q[si] = {**st, "spec": {**sp, b: []}}
                    yield {**plan, "steps": q}
