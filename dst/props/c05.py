"""Secret material is fresh, full-strength, and never survives an entropy failure."""
import json
import os

from .. import cbor, faults, msgs, rcpts, ref, seams
from ..core import Violation
from ..loader import Incarnation
from ..msgs import lib
from ..seams import Stream, ENTROPY_SITES

ID = "C05"
RULE = ("A run is a seeded history of key generation and message creation over several process incarnations, with forks, restarts (clock, "
        "process id and seedable generators reset to the same state each time) and entropy-source failures, executed under three "
        "entropy streams that differ in nothing else. Non-trivial: at least one secret was made and one fault, fork or restart "
        "happened; distinct: by the hash of the event log.")
RUNS = {"quick": 900, "thorough": 8000}
STATE_MEASURE = "distinct (operation kind, position of the entropy failure, outcome) tuples"
ASSUMPTIONS = ["the operating system's random source is secure; it is represented by streams chosen by the simulator",
               "OpenSSL's key generators draw from the same source (their internals are replaced by the simulator)"]
MUST_REACH = {"quick": ("fork", "restart", "failed_closed", "retried", "keygen", "message")}
REAL = ["pycose (all of it, from the working tree)", "cbor2", "cryptography/OpenSSL except its random generator", "os.fork"]
STUB = ["entropy (seeded streams)", "key generation inside OpenSSL (derives the key from the stream)", "process restart (fresh import)"]
ORDER_BITS = {1: 256, 2: 384, 3: 521, 8: 256}
LEN = {1: 32, 2: 48, 3: 66, 8: 32, 4: 32, 5: 56, 6: 32, 7: 57}
NSTREAMS = 3


def gen(rng, i, tier):
    keys = []
    ring = rcpts.KeyRing(keys)
    steps = []
    ffail = rng.choice([0, .4, .7])
    for _ in range(rng.randint(3, 8)):
        x = rng.random()
        if x < .16:
            steps.append({"op": "restart"})
            continue
        if x < .3:
            ops = [gen_op(rng, ring) for _ in range(rng.choice([1, 2]))]
            steps.append({"op": "fork", "n": rng.choice([2, 3]), "ops": ops})
            continue
        if x < .34:
            o = gen_op(rng, ring, bulk=True)
            steps.append({**o, "bulk": 40})
            continue
        o = gen_op(rng, ring)
        if rng.random() < ffail:
            o["fault"] = {"n": min(rng.randrange(5), rng.randrange(5)), "sticky": rng.choice([0, 1, 1]), "kind": rng.choice(["io", "err", "mem"])}
        steps.append(o)
    return {"keys": keys, "steps": steps}


def gen_op(rng, ring, bulk=False):
    x = rng.random()
    if x < .2 or (bulk and x < .4):
        return {"op": "sym", "len": rng.choice([16, 24, 32])}
    if x < .4 or (bulk and x < .7):
        return {"op": "ec2", "crv": rng.choice([1, 2, 3, 8] if not bulk else [1, 2, 3])}
    if x < .55 or bulk:
        return {"op": "okp", "crv": rng.choice([4, 5, 6, 7])}
    if x < .57:
        return {"op": "rsa", "bits": rng.choice([512, 768])}
    kind = rng.choice(["enc", "mac"])
    while True:
        sp = rcpts.gen_spec(rng, ring, kind, n=rng.choice([1, 1, 2, 3]))
        if sp["key"] is None and sp["recipients"][0]["alg"] not in (-27, -28):
            break
    for r in sp["recipients"]:
        r.pop("eph", None)
        r.pop("eph_spec", None)
    return {"op": "msg", "spec": sp}


class One:
    """The history under one entropy stream."""

    def __init__(self, plan, ctx, label, record):
        self.plan, self.ctx, self.label, self.record = plan, ctx, label, record
        self.maps = [ref.key_map(k) for k in plan["keys"]]
        self.secrets = []           # [op id, name, bytes, significant bits]
        self.gen = 0
        self.boot()

    def boot(self):
        import random
        random.seed(12345)
        self.inc = Incarnation()
        self.gen += 1
        self.use("proc%d" % self.gen)

    def use(self, name):
        self.stream = Stream(self.plan["seed"] + self.label, name)
        seams.S.entropy = self.stream

    def key(self, i, private=True):
        return self.inc.keys.CoseKey.decode(cbor.enc(ref.key_map(self.plan["keys"][i], private)))

    def go(self):
        for n, st in enumerate(self.plan["steps"]):
            op = st["op"]
            if op == "restart":
                self.boot()
                if self.record:
                    self.ctx.fault("restart")
                    self.ctx.log("restart")
            elif op == "fork":
                self.fork(n, st)
            elif st.get("bulk"):
                for b in range(st["bulk"]):
                    self.do("%d.b%d" % (n, b), st)
            else:
                self.do(str(n), st)

    def fork(self, n, st):
        outs = []
        for c in range(st["n"]):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                out = {"err": None}
                try:
                    self.secrets = []
                    self.use("proc%d.step%d.child%d" % (self.gen, n, c))
                    for k, o in enumerate(st["ops"]):
                        self.do("%d.c%d.%d" % (n, c, k), o)
                    out["secrets"] = [[a, b, x.hex(), y] for a, b, x, y in self.secrets]
                except Violation as e:
                    out["viol"] = [e.kind, e.msg]
                except BaseException as e:
                    out["err"] = repr(e)
                try:
                    with os.fdopen(w, "w") as f:
                        json.dump(out, f)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r) as f:
                data = f.read()
            os.waitpid(pid, 0)
            outs.append(json.loads(data))
        if self.record:
            self.ctx.fault("fork", st["n"])
            self.ctx.probe("fork")
        for o in outs:
            if o.get("err"):
                raise RuntimeError("forked child: " + o["err"])
            if o.get("viol"):
                self.ctx.violate(*o["viol"])
            self.secrets += [(a, b, bytes.fromhex(x), y) for a, b, x, y in o["secrets"]]
            self.ctx.ops += len(st["ops"])
        # the parent goes on from where it was
        for k, o in enumerate(st["ops"]):
            self.do("%d.p.%d" % (n, k), o)

    def do(self, oid, st):
        """One operation, under its fault if it has one, then again without."""
        ctx = self.ctx
        start = self.stream.total
        make, take = self.prepare(st)
        f = st.get("fault")
        if f:
            seams.S.hook = h = EntropyHook(ctx, f, self.record)
            try:
                r = lib(ctx, make)
            finally:
                seams.S.hook = None
            if self.record:
                ctx.log("op", oid, st["op"], "fault", h.fired, "ok" if r.ok else type(r.exc).__name__)
                ctx.state(st["op"], st.get("crv"), f["n"], f.get("sticky"), h.fired, r.ok)
            if r.ok and h.fired and f.get("sticky"):
                ctx.violate("survived-entropy-failure", "%s succeeded although the random source failed %d times and never recovered" % (self.desc(st), h.fired))
            if not r.ok and not h.fired:
                ctx.violate("operation-failed", "%s failed with a working random source: %r" % (self.desc(st), r))
            if not r.ok and self.record:
                ctx.probe("failed_closed")
            if r.ok:
                take(oid, r.val, self.stream.total - start)
                return
            if self.record:
                ctx.probe("retried")
        r = lib(ctx, make)
        if not r.ok:
            ctx.violate("operation-failed", "%s failed with a working random source: %r" % (self.desc(st), r))
            return
        take(oid, r.val, self.stream.total - start)
        if self.record:
            ctx.log("op", oid, st["op"], "done", self.stream.total - start)

    def desc(self, st):
        if st["op"] == "msg":
            return "encoding a new %s message (alg %s, recipients %s)" % (st["spec"]["kind"], st["spec"]["alg"], [r["alg"] for r in st["spec"]["recipients"]])
        return "generating a %s key (%s)" % (st["op"], st.get("len") or st.get("crv") or st.get("bits"))

    def need(self, st, drawn, n, what):
        if drawn < n:
            self.ctx.violate("too-little-entropy", "%s needs %d random bytes for %s but drew %d from the system's random source" % (self.desc(st), n, what, drawn))

    def prepare(self, st):
        inc, op = self.inc, st["op"]
        if self.record:
            self.ctx.probe("message" if op == "msg" else "keygen")
        if op == "sym":
            def take(oid, k, drawn):
                if len(k.k) != st["len"]:
                    self.ctx.violate("wrong-length", "a %d-byte key was asked for, %d bytes generated" % (st["len"], len(k.k)))
                self.need(st, drawn, st["len"], "the key")
                self.secrets.append((oid, "k%d" % st["len"], k.k, 8 * st["len"]))
            return (lambda: inc.keys.SymmetricKey.generate_key(st["len"])), take
        if op in ("ec2", "okp"):
            cls = inc.keys.EC2Key if op == "ec2" else inc.keys.OKPKey
            crv = inc.curves.CoseCurve.from_id(st["crv"])

            def take(oid, k, drawn):
                n = LEN[st["crv"]]
                self.need(st, drawn, (ORDER_BITS.get(st["crv"], 8 * n) + 7) // 8, "the private key")
                if len(k.d) > n or k.crv.identifier != st["crv"]:
                    self.ctx.violate("wrong-length", "generated key has curve %s and %d private bytes" % (k.crv, len(k.d)))
                if op == "ec2" and st["crv"] in ref.CURVES:
                    x, y = ref.ec_pub(st["crv"], k.d.rjust(n, b"\0"))
                    if (k.x.rjust(n, b"\0"), k.y.rjust(n, b"\0")) != (x, y):
                        self.ctx.violate("key-mismatch", "the generated public key does not belong to the private key")
                if op == "okp" and st["crv"] in (6, 7) and k.x != ref.okp_pub(st["crv"], k.d):
                    self.ctx.violate("key-mismatch", "the generated public key does not belong to the private key")
                self.secrets.append((oid, "%s%d" % (op, st["crv"]), k.d.rjust(n, b"\0"), ORDER_BITS.get(st["crv"], 8 * n)))
            return (lambda: cls.generate_key(crv)), take
        if op == "rsa":
            def take(oid, k, drawn):
                self.need(st, drawn, st["bits"] // 8 - 2, "the primes")
                n = int.from_bytes(k.n, "big")
                if n.bit_length() != st["bits"] or int.from_bytes(k.p, "big") * int.from_bytes(k.q, "big") != n or k.p == k.q:
                    self.ctx.violate("key-mismatch", "RSA key of %d bits asked for, got %d bits" % (st["bits"], n.bit_length()))
                self.secrets.append((oid, "rsa_p", k.p, 0))
                self.secrets.append((oid, "rsa_q", k.q, 0))
            return (lambda: inc.keys.RSAKey.generate_key(st["bits"])), take
        spec = st["spec"]
        rl = spec["recipients"]
        robjs = [msgs.lib_rcpt(inc, r, self.key) for r in rl]
        m = rcpts.build(inc, spec, robjs, self.key)

        def take(oid, wire, drawn):
            ctx = self.ctx
            cek = rcpts.check_wire(ctx, spec, rl, wire, self.maps)
            dka = rl[0]["alg"] in ref.DKA_ALGS
            need = 0 if dka else rcpts.KEYLEN[spec["alg"]]
            ws = ref.parse(wire)[1][-1]
            for r, w in zip(rl, ws):
                if r["alg"] in rcpts.ECDH and rcpts.mode(r["alg"]) == "es":
                    c = self.maps[r["key"]][-1]
                    need += (ORDER_BITS[c] + 7) // 8
                    self.secrets.append((oid, "epk%d" % c, w[1][-1][-2], 0))
            self.need(st, drawn, need, "the content key and ephemeral keys")
            if cek is not None:
                self.secrets.append((oid, "cek%d" % len(cek), cek, 8 * len(cek)))
            for what, secret in self.private(rl, robjs, cek):
                if len(secret) >= 16 and secret in wire:
                    ctx.violate("private-key-emitted", "the encoded message contains %s" % what)
        return m.encode, take

    def private(self, rl, robjs, cek):
        for r in rl:
            for name in ("key", "skey"):
                if r.get(name) is None:
                    continue
                k = self.maps[r[name]]
                if k[1] == 4:
                    yield "a long-term symmetric key", k[-1]
                elif k[1] == 2:
                    yield "a long-term private key", k[-4].lstrip(b"\0")
                else:
                    for a in (-3, -4, -5):
                        yield "an RSA private key", k[a]
        if cek:
            yield "its content key", cek
        for o in robjs:
            if o.key is not None and "D" in o.key:
                yield "an ephemeral private key", bytes(o.key.d).lstrip(b"\0")


class EntropyHook:
    def __init__(self, ctx, f, record):
        self.ctx, self.f, self.record = ctx, f, record
        self.seen = self.fired = 0

    def __call__(self, site):
        if site not in ENTROPY_SITES:
            return
        k = self.seen
        self.seen += 1
        if k == self.f["n"] or (self.f.get("sticky") and k > self.f["n"]):
            self.fired += 1
            if self.record:
                self.ctx.fault("fail_%s_%s" % (site, self.f["kind"]))
            raise seams.fault(self.f["kind"], site)


def run(plan, ctx):
    runs = []
    for n in range(NSTREAMS):
        o = One(plan, ctx, "/s%d" % n, n == 0)
        o.go()
        runs.append(o.secrets)
    # no two secrets are ever equal
    seen = {}
    for n, sec in enumerate(runs):
        for oid, name, val, bits in sec:
            k = (len(val), val)
            if k in seen and (seen[k][0] != n or not name.startswith("cek") or seen[k][1] != oid):
                a = seen[k]
                if a[0] != n and a[1:] == (oid, name):
                    ctx.violate("not-from-entropy", "%s of operation %s does not depend on the random source" % (name, oid))
                ctx.violate("secret-repeated", "%s of operation %s equals %s of operation %s" % (name, oid, a[2], a[1]))
            seen[k] = (n, oid, name)
    ids = [[(s[0], s[1]) for s in sec] for sec in runs]
    if any(x != ids[0] for x in ids):
        return                  # a swallowed failure changed the shape of the history; nothing to line up
    bulk = {}
    for k, (oid, name, v0, bits) in enumerate(runs[0]):
        vals = [sec[k][2] for sec in runs]
        if any(len(v) != len(v0) for v in vals):
            continue
        if bits:
            skip = (len(v0) * 8 - bits + 7) // 8
            same = sum(1 for b in range(skip, len(v0)) if all(v[b] == v0[b] for v in vals))
            if same >= 4:
                ctx.violate("partly-constant", "%d of %d bytes of %s (operation %s) do not depend on the random source" % (same, len(v0), name, oid))
            if ".b" in oid:
                bulk.setdefault((oid.split(".b")[0], name), []).extend((v, bits) for v in vals)
        ctx.state(name, "varies")
    for (oid, name), vs in bulk.items():
        ones, zeros = 0, 0
        for v, bits in vs:
            x = int.from_bytes(v, "big")
            ones |= x
            zeros |= ~x & ((1 << bits) - 1)
        bits = vs[0][1]
        mask = (1 << bits) - 1
        stuck = mask & ~(ones & zeros)
        if stuck and len(vs) >= 100:
            ctx.violate("stuck-bits", "%d bits of %s never change in %d draws" % (bin(stuck).count("1"), name, len(vs)))


def reduce(plan):
    for si, st in enumerate(plan["steps"]):
        for k in ("fault", "bulk"):
            if st.get(k):
                q = dict(plan)
                q["steps"] = list(plan["steps"])
                q["steps"][si] = {a: b for a, b in st.items() if a != k}
                yield q
        if st["op"] == "fork" and len(st["ops"]) > 1:
            for k in range(len(st["ops"])):
                q = dict(plan)
                q["steps"] = list(plan["steps"])
                q["steps"][si] = {**st, "ops": [st["ops"][k]]}
                yield q
