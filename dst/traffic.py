"""Simulated network of peers exchanging COSE messages; shared by several properties.

A plan is a list of timed steps: sends (each with its fates in the network),
crashes with restart, partitions.  Virtual time is in microseconds; events are
ordered by (time, sequence number).
"""
import heapq

from . import cbor, msgs, mutate, ref, seams
from .loader import Incarnation
from .msgs import lib
from .plain import canon, rp

SIGN_KINDS = ("sign1", "sign")
MAC_KINDS = ("mac0", "mac")
ENC_KINDS = ("enc0", "enc")


# ------------------------------------------------------------------ generation

def gen_plan(rng, kinds, tier, rcpts=None, n_msgs=None, stress=False):
    nlib = rng.choice([1, 2, 2, 3])
    nodes = [{"impl": "lib"} for _ in range(nlib)] + [{"impl": "ref"}]
    keys = []
    steps = []
    t = 0
    mids = []
    n_msgs = n_msgs or rng.randint(3, 9)
    # swarm: which fault kinds this run has, and how often
    dmg_rate = rng.choice([0.0, 0.3, 0.6, 0.9])
    drop = rng.choice([0, 0, .1, .3])
    dup = rng.choice([.3, .6, .9] if stress else [0, .2, .5])
    wrongctx = rng.choice([0, .15, .4])
    crash_rate = rng.choice([0, 0, .15, .4])
    ndel = rng.choice([3, 6, 8] if stress else [2, 4, 6])
    shared = {}
    sess = []
    for _ in range(rng.choice([0, 0, 1, 2]) if set(kinds) & set(ENC_KINDS) else 0):
        # a session: messages numbered by partial IV under one key with a base IV
        alg = rng.choice(list(ref.ENC_ALGS))
        ki = add_key(keys, msgs.enc_key(rng, alg))
        keys[ki] = {**keys[ki], "params": {"5": {"b": rng.randbytes(ref.ENC_ALGS[alg][2]).hex()}}}
        sess.append([alg, ki, rng.choice([0, 0, 1, 254, 65535])])
    for mid in range(1, n_msgs + 1):
        t += rng.randrange(200000)
        kind = rng.choice(kinds)
        spec = make_spec(rng, kind, keys, shared, rcpts)
        if sess and kind in ENC_KINDS and rng.random() < .8:
            s = rng.choice(sess)
            new = msgs.gen_spec(rng, kind, s[0], s[1])
            n = max(1, (s[2].bit_length() + 7) // 8)
            new.update(piv=s[2].to_bytes(rng.choice([n, n, n + 1, ref.ENC_ALGS[s[0]][2]]), "big").hex(), iv=None)
            if "recipients" in spec:
                new["recipients"] = spec["recipients"]
            spec = new
            s[2] += rng.choice([1, 1, 1, 2, 60, 65, 130, 300, 1100, 65600])
        sender = rng.randrange(len(nodes))
        fates = []
        for _ in range(rng.randint(1, ndel)):
            f = {"to": rng.randrange(nlib), "delay": int(rng.expovariate(1 / 30000.0)) + 1, "dmg": []}
            if rng.random() < drop:
                f["drop"] = 1
            if sess and rng.random() < .2:
                f["delay"] += rng.randrange(1500000)        # long after its successors
            if rng.random() < dmg_rate:
                f["dmg"] = [mutate.gen(rng, kind, mids or [mid]) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            elif rng.random() < wrongctx:
                w = rng.choice(["key", "aad", "det", "aad", "flipaad"])
                f["ctx"] = w
                f["arg"] = rng.randbytes(rng.choice([1, 1, 4, 16])).hex() if w != "key" else rng.randrange(1000)
            f["dec"] = rng.choice(["any", "any", "cls"])
            if rng.random() < dup:
                f["dup"] = rng.randint(1, 2)
                f["gap"] = rng.randrange(1, 400000)
            f["reuse"] = rng.random() < (.5 if stress else .3)
            if stress and rng.random() < .5:
                f["again"] = 1
            if rng.random() < (.35 if stress else .12):
                f["lag"] = rng.choice([1, 20000, 100000, rng.randrange(1, 400000)])
            if rng.random() < (.4 if stress else .15):
                f["tink"] = [rng.choice(TINKER) for _ in range(rng.choice([1, 1, 2, 3]))]
            fates.append(f)
        steps.append({"op": "send", "t": t, "mid": mid, "from": sender, "spec": spec, "fates": fates})
        mids.append(mid)
        if stress and nodes[sender]["impl"] == "lib" and rng.random() < .6:
            for _ in range(rng.choice([1, 1, 2])):
                fl = [{**f, "delay": int(rng.expovariate(1 / 30000.0)) + 1} for f in rng.sample(fates, rng.randint(1, len(fates)))]
                steps.append({"op": "resend", "t": t + rng.randrange(1, 500000), "mid": mid, "fates": fl})
        if rng.random() < crash_rate:
            steps.append({"op": "crash", "t": t + rng.randrange(60000), "node": rng.randrange(nlib),
                          "down": rng.choice([0, 1, 50000])})
        if rng.random() < .1:
            steps.append({"op": "part", "t": t, "dur": rng.randrange(1, 80000), "nodes": [rng.randrange(nlib)]})
    msgs.declare_ops(rng, keys, rng.choice([0, .3]))
    msgs.decorate(rng, keys, rng.choice([0, .3]))
    return {"keys": keys, "nodes": nodes, "steps": steps}


TINKER = ("payload", "payload", "nopayload", "uset", "udel", "nest", "pset", "pdel", "pup", "key", "aad", "recipients", "signers",
          "tag", "uhdr", "phdr")


def tinker(m, what, inc):
    """The application changes a received object after having dealt with it, e.g. to build an answer from it."""
    if what == "payload":
        m.payload = b"tinkered"
    elif what == "nopayload":
        m.payload = None
    elif what == "uset":
        m.uhdr[4] = b"tinkered"
        m.uhdr_update({-70123: 1})
    elif what == "udel":
        m.uhdr.clear()
    elif what == "uhdr":
        m.uhdr = {}
    elif what == "nest":
        for h in (m.uhdr, m.phdr):
            for v in h.values():
                if isinstance(v, list):
                    v.append(4711)
                elif isinstance(v, dict):
                    v[4711] = 4711
    elif what == "pset":
        m.phdr[-70123] = 1
    elif what == "pdel":
        m.phdr.clear()
    elif what == "phdr":
        m.phdr = {-70123: 1}
    elif what == "pup":
        m.phdr_update({-70123: 1})
    elif what == "key":
        if hasattr(m, "key"):
            m.key = None
    elif what == "aad":
        if hasattr(m, "external_aad"):
            m.external_aad = b"tinkered"
    elif what == "recipients":
        for r in getattr(m, "recipients", ()):
            r.uhdr.clear()
            r.payload = b"tinkered"
            r.key = None
        getattr(m, "recipients", []).clear()
    elif what == "signers":
        for s in getattr(m, "signers", ()):
            s.phdr_update({-70123: 1})
            s.signature = b"tinkered"
        getattr(m, "signers", []).clear()
    elif what == "tag":
        if hasattr(m, "auth_tag"):
            m.auth_tag = b"tinkered"
        elif type(m).__name__ == "Sign1Message":
            m.signature = b"tinkered"


def add_key(keys, spec):
    keys.append(spec)
    return len(keys) - 1


def make_spec(rng, kind, keys, shared, rcpts=None):
    if kind in SIGN_KINDS:
        if kind == "sign1":
            alg = msgs.pick_sign_alg(rng)
            sp = msgs.gen_spec(rng, kind, alg, _key(rng, keys, shared, ("s", alg), lambda: msgs.sign_key(rng, alg)))
            return sp
        sp = msgs.gen_spec(rng, kind)
        sp["alg"], sp["key"], sp["aad"] = None, None, ""
        sp["signers"] = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            alg = msgs.pick_sign_alg(rng)
            s = msgs.gen_spec(rng, "sign1", alg, _key(rng, keys, shared, ("s", alg), lambda: msgs.sign_key(rng, alg)))
            s["payload"] = ""
            sp["signers"].append(s)
        return sp
    if kind in MAC_KINDS:
        alg = rng.choice(list(ref.MAC_ALGS))
        sp = msgs.gen_spec(rng, kind, alg, _key(rng, keys, shared, ("m", alg), lambda: msgs.mac_key(rng, alg)))
    else:
        alg = rng.choice(list(ref.ENC_ALGS))
        sp = msgs.gen_spec(rng, kind, alg, _key(rng, keys, shared, ("e", alg), lambda: msgs.enc_key(rng, alg)))
    if kind in ("mac", "enc"):
        p, q = [], []
        if rng.random() < .6:
            q.append([msgs.KID, {"b": rng.randbytes(3).hex()}])
        sp["recipients"] = [{"alg": ref.DIRECT, "alg_in": "u", "p": [], "u": q}]
        if rng.random() < .2:
            sp["recipients"].append({"alg": ref.DIRECT, "alg_in": "u", "p": [], "u": []})
    return sp


def _key(rng, keys, shared, cls, mk):
    """Mostly reuse keys within a class so that splices and confusions hit the same key."""
    have = shared.setdefault(cls, [])
    if have and rng.random() < .7:
        return rng.choice(have)
    spec = mk()
    if rng.random() < .4 and not spec.get("params"):
        # key ids are chosen locally: different keys may well have the same one
        spec = {**spec, "params": {"2": {"b": rng.choice(["01", "01", "02", ""])}}}
    i = add_key(keys, spec)
    have.append(i)
    return i


# ------------------------------------------------------------------ nodes

class LibNode:
    """A simulated process running the real library. Survives a crash: the disk."""

    def __init__(self, sim, idx, disk):
        self.sim, self.idx, self.disk = sim, idx, disk
        self.gen = 0
        self.up = True
        self.boot()

    def boot(self):
        self.inc = Incarnation()
        self.gen += 1
        self.cache = {}
        self.held = {}
        self.outbox = {}
        self.up = True
        self.stream = seams.Stream(self.sim.seed, "node%d.%d" % (self.idx, self.gen))

    def enter(self):
        if not self.up:
            return False
        self.inc.activate()
        seams.S.entropy = self.stream
        return True

    def key(self, i, private=True):
        k = (i, private)
        if k not in self.cache:
            self.cache[k] = self.inc.keys.CoseKey.decode(self.disk[("k", i, private)])
        return self.cache[k]

    def fresh_key(self, i, private=True):
        return self.inc.keys.CoseKey.decode(self.disk[("k", i, private)])


class Sim:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.seed = plan["seed"]
        self.q = []
        self.seq = 0
        self.keys = plan["keys"]
        self.maps = [ref.key_map(k) for k in self.keys]
        disk = {}
        for i, m in enumerate(self.maps):
            for priv in (True, False):
                disk[("k", i, priv)] = cbor.enc(ref.key_map(self.keys[i], priv))
        self.disk = disk
        self.nodes = []
        for i, n in enumerate(plan["nodes"]):
            self.nodes.append(LibNode(self, i, disk) if n["impl"] == "lib" else None)
        self.parts = []
        self.sent = {}
        self.wire = {}

    def at(self, t, fn):
        self.seq += 1
        heapq.heappush(self.q, (t, self.seq, fn))

    def run(self, limit=4000):
        n = 0
        while self.q and n < limit:
            t, _, fn = heapq.heappop(self.q)
            self.ctx.now = max(self.ctx.now, t)
            fn()
            n += 1

    def crash(self, node, down):
        nd = self.nodes[node]
        if nd is None:
            return
        self.ctx.fault("crash")
        self.ctx.log("crash", node)
        nd.up = False

        def up():
            nd.boot()
            self.ctx.fault("restart")
            self.ctx.log("restart", node)
        if down:
            self.at(self.ctx.now + down, up)
        else:
            up()

    def partitioned(self, a, b):
        for t0, t1, grp in self.parts:
            if t0 <= self.ctx.now < t1 and (a in grp) != (b in grp):
                return True
        return False


class Traffic(Sim):
    """Authenticity and delivery rules R1-R3 over a simulated exchange."""

    def __init__(self, plan, ctx):
        super().__init__(plan, ctx)
        self.ledger = set()         # user-level: what was protected under which key
        self.bledger = set()        # byte-level
        self.verdicts = {}
        self.contents = {}

    def go(self):
        for st in self.plan["steps"]:
            if st["op"] == "send":
                self.at(st["t"], lambda st=st: self.send(st))
            elif st["op"] == "resend":
                self.at(st["t"], lambda st=st: self.resend(st))
            elif st["op"] == "crash":
                self.at(st["t"], lambda st=st: self.crash(st["node"], st["down"]))
            elif st["op"] == "part":
                self.parts.append((st["t"], st["t"] + st["dur"], set(st["nodes"])))
        self.run()

    # -------------------------------------------------------------- sending
    def keyid(self, i):
        m = self.maps[i]
        if m[1] == 4:
            return ("sym", m[-1])
        return (m[1], m.get(-1), m.get(-2))

    def send(self, st):
        spec, ctx = st["spec"], self.ctx
        nd = self.nodes[st["from"]]
        if nd is not None and not nd.up:
            ctx.fault("send_lost_down")
            return
        kind = spec["kind"]
        payload = bytes.fromhex(spec["payload"])
        if nd is None:
            wire = msgs.ref_send(spec, lambda i: self.maps[i], ("%s/%d" % (self.seed, st["mid"])).encode())
            ctx.probe("sent_by_reference_" + kind)
        else:
            nd.enter()
            m = nd.outbox.get(st["mid"])
            if m is not None:
                ctx.probe("encoded_again_from_same_object")
            r = lib(ctx, lambda: self.encode(nd, st, m))
            if not r.ok:
                ctx.violate("send-failed", "%s with alg %s could not be %s: %r" % (
                    kind, spec.get("alg"), "created" if m is None else "encoded again", r))
            wire = r.val
            ctx.probe("sent_by_library_" + kind)
            self.check_interop_out(st, wire)
        if kind in ENC_KINDS and len(payload) >= 8 and payload.strip(payload[:1]) and payload in wire:
            head = b"".join(bytes.fromhex(x) for x in [spec["aad"]])
            if payload not in head:
                ctx.violate("plaintext-leak", "the encoded %s message contains its plaintext" % kind)
        self.register(spec, wire)
        self.sent[st["mid"]] = (st, wire)
        self.wire[st["mid"]] = wire
        ctx.log("send", st["mid"], kind, st["from"], len(wire), wire.hex() if nd is None or not self.is_rsa(spec) else "rsa")
        for f in st["fates"]:
            if f.get("drop"):
                ctx.fault("drop")
                continue
            for d in range(1 + f.get("dup", 0)):
                if d:
                    ctx.fault("duplicate")
                self.at(ctx.now + f["delay"] + d * f.get("gap", 1), lambda f=f: self.deliver(st, f, wire))

    def encode(self, nd, st, m):
        if m is None:
            m = msgs.lib_build(nd.inc, st["spec"], nd.key)
            if any(x["op"] == "resend" and x["mid"] == st["mid"] for x in self.plan["steps"]):
                nd.outbox[st["mid"]] = m
        return msgs.lib_encode(m, st["spec"])

    def resend(self, st):
        if st["mid"] in self.sent:
            first = self.sent[st["mid"]][0]
            self.send({**first, "fates": st["fates"]})

    def is_rsa(self, spec):
        return False

    def register(self, spec, wire):
        kind = spec["kind"]
        payload = bytes.fromhex(spec["payload"])
        _, a = ref.parse(wire)
        ph = msgs.want_hdr(spec, "p")
        if kind == "sign":
            for s, w in zip(spec["signers"], a[3]):
                aad = bytes.fromhex(s["aad"])
                self.ledger.add((self.keyid(s["key"]), kind, ph, msgs.want_hdr(s, "p"), payload, aad))
                self.bledger.add((self.keyid(s["key"]), kind, ref.emap(a[0]), ref.emap(w[0]), payload, aad))
            return
        aad = bytes.fromhex(spec["aad"])
        self.ledger.add((self.keyid(spec["key"]), kind, ph, None, payload, aad))
        self.bledger.add((self.keyid(spec["key"]), kind, ref.emap(a[0]), None, payload, aad))

    def check_interop_out(self, st, wire):
        spec, ctx = st["spec"], self.ctx
        kind = spec["kind"]
        payload = bytes.fromhex(spec["payload"])
        det = payload if spec["detached"] else None
        try:
            k, a = ref.parse(wire)
            if cbor.dec(wire, strict=True) is None or k != kind:
                raise ref.RefError("sent as %s" % k)
            if kind in ENC_KINDS:
                pass
            elif (a[2] is None) != spec["detached"] or (a[2] is not None and a[2] != payload):
                raise ref.RefError("payload on the wire differs")
            if canon(ref_algs(ref.hdr(a[0]))) != msgs.want_hdr(spec, "p") or canon(ref_algs(a[1])) != msgs.want_hdr(spec, "u"):
                raise ref.RefError("headers on the wire differ")
            if kind == "sign1":
                ok = ref.ref_verify1(wire, self.maps[spec["key"]], bytes.fromhex(spec["aad"]), det)
            elif kind == "sign":
                ok = len(a[3]) == len(spec["signers"])
                for i, s in enumerate(spec["signers"]):
                    ok = ok and ref.ref_verify(wire, i, self.maps[s["key"]], bytes.fromhex(s["aad"]), det)
                    ok = ok and canon(ref_algs(ref.hdr(a[3][i][0]))) == msgs.want_hdr(s, "p") \
                        and canon(ref_algs(a[3][i][1])) == msgs.want_hdr(s, "u")
            elif kind in MAC_KINDS:
                ok = ref.ref_mac_ok(wire, self.maps[spec["key"]][-1], bytes.fromhex(spec["aad"]))
            else:
                m = self.maps[spec["key"]]
                ok = ref.ref_decrypt(wire, m[-1], bytes.fromhex(spec["aad"]), m.get(5, b"")) == payload
            if ok and kind in ("mac", "enc"):
                ok = len(a) == (5 if kind == "mac" else 4) and len(a[-1]) == len(spec["recipients"])
        except (ref.RefError, cbor.CborError, IndexError, KeyError, TypeError, AttributeError) as e:
            ctx.violate("interop-out", "an independent RFC 8152 peer cannot read the %s message (alg %s): %r" % (kind, spec.get("alg"), e))
        if not ok:
            ctx.violate("interop-out", "an independent RFC 8152 peer rejects the %s message (alg %s)" % (kind, spec.get("alg")))

    # -------------------------------------------------------------- receiving
    def deliver(self, st, f, wire0):
        ctx, spec = self.ctx, st["spec"]
        if self.partitioned(st["from"], f["to"]):
            ctx.fault("partitioned")
            return
        nd = self.nodes[f["to"]]
        if nd is None or not nd.up:
            ctx.fault("lost_node_down")
            return
        nd.enter()
        wire = mutate.apply(wire0, f["dmg"], self.wire) if f["dmg"] else wire0
        intact = wire == wire0
        if not intact:
            ctx.fault("damage")
            for d in f["dmg"]:
                ctx.fault("damage_" + d[0])
        dctx = f.get("ctx")
        if dctx:
            ctx.fault("wrong_context_" + dctx)
        self.receive(nd, st, spec, wire, intact, dctx, f)

    def pick(self, spec_aad, spec, dctx, f):
        """-> (aad, detached payload) the receiver uses"""
        aad = bytes.fromhex(spec_aad)
        payload = bytes.fromhex(spec["payload"])
        det = payload if spec["detached"] else None
        if dctx == "aad":
            aad = aad + bytes.fromhex(f["arg"]) if len(f["arg"]) % 4 else bytes.fromhex(f["arg"])
        elif dctx == "flipaad":
            aad = (bytes([aad[0] ^ 1]) + aad[1:]) if aad else b"\0"
        elif dctx == "det" and det is not None:
            det = det + b"x" if len(f["arg"]) % 4 else (det[:-1] or b"y")
        return aad, det

    def other_key(self, i, f):
        same = [x for x in range(len(self.keys)) if x != i and self.maps[x][1] == self.maps[i][1]
                and self.keyid(x) != self.keyid(i)]
        return same[f["arg"] % len(same)] if same else i

    def receive(self, nd, st, spec, wire, intact, dctx, f):
        ctx, inc = self.ctx, nd.inc
        kind = spec["kind"]
        dec = inc.messages.CoseMessage.decode if f.get("dec") == "any" else msgs.lib_cls(inc, kind).decode
        hkey = (f["to"], nd.gen, wire, f.get("dec"))
        if f.get("reuse") and hkey in nd.held:
            r = msgs.LibResult(True, nd.held[hkey])
            ctx.probe("object_reused")
        else:
            r = lib(ctx, dec, wire)
        if not r.ok:
            ctx.log("recv", st["mid"], "undecodable", type(r.exc).__name__)
            if intact:
                ctx.violate("intact-undecodable", "an undamaged %s message cannot be decoded: %r" % (kind, r))
            ctx.probe("undecodable")
            return
        m = r.val
        lag = f.get("lag") if not (f.get("reuse") and hkey in nd.held) else None
        if lag or f.get("tink"):
            nd.held.pop(hkey, None)         # an object of its own
        else:
            nd.held[hkey] = m
        got = next((k for k, c in msgs.CLS.items() if type(m).__name__ == c), None)
        if got is None:
            ctx.violate("decode-class", "decode returned %r" % type(m))
        if f.get("dec") != "any" and got != kind:
            ctx.violate("decode-class", "decoding as %s returned a %s message" % (kind, got))
        if intact:
            self.check_content(spec, m, got)
        now = content(m, got)
        if self.contents.setdefault(wire, now) != now:
            ctx.violate("content-changed", "the same %s bytes decoded to another content than before: %r, then %r" % (
                got, self.contents[wire], now))
        if lag:
            # the application keeps the message, with its key and external data set, and opens it later
            ctx.fault("opened_late")
            self.open_all(nd, st, spec, got, m, wire, intact, dctx, f, "set")
            gen = nd.gen

            def late():
                if nd.up and nd.gen == gen:
                    nd.enter()
                    self.open_all(nd, st, spec, got, m, wire, intact, dctx, f, "open")
                    self.tinker(nd, m, f)
            self.at(ctx.now + lag, late)
            return
        self.open_all(nd, st, spec, got, m, wire, intact, dctx, f, "both")
        self.tinker(nd, m, f)

    def tinker(self, nd, m, f):
        for what in f.get("tink") or ():
            self.ctx.fault("received_object_changed")
            lib(self.ctx, tinker, m, what, nd.inc)

    def open_all(self, nd, st, spec, got, m, wire, intact, dctx, f, phase):
        ctx, kind = self.ctx, spec["kind"]
        if got == "sign":
            signers = m.signers
            srcs = spec["signers"] if kind == "sign" else [spec]
            for i, s in enumerate(list(signers)[:4]):
                src = srcs[i % len(srcs)]
                self.open1(nd, st, spec, src, got, m, s, i, wire, intact and i < len(srcs), dctx, f, phase)
            if intact and len(signers) != len(srcs):
                ctx.violate("content", "%d of %d signers decoded" % (len(signers), len(srcs)))
        else:
            self.open1(nd, st, spec, spec["signers"][0] if kind == "sign" else spec, got, m, m, 0, wire, intact, dctx, f, phase)

    def open1(self, nd, st, spec, src, got, m, obj, i, wire, intact, dctx, f, phase="both"):
        ctx = self.ctx
        ki = src["key"]
        if dctx == "key":
            ki = self.other_key(ki, f)
        aad, det = self.pick(src["aad"], spec, dctx, f)
        right = self.keyid(ki) == self.keyid(src["key"]) and aad == bytes.fromhex(src["aad"]) \
            and det == (bytes.fromhex(spec["payload"]) if spec["detached"] else None)
        private = got not in ("sign1", "sign")
        before = m.payload

        def prep():
            obj.key = nd.key(ki, private) if not f.get("fresh") else nd.fresh_key(ki, private)
            obj.external_aad = aad
        if phase == "set":
            prep()
            return

        def opn():
            if phase == "both":
                prep()
            if got in SIGN_KINDS:
                return obj.verify_signature(detached_payload=det) if det is not None else obj.verify_signature()
            if got in MAC_KINDS:
                return obj.verify_tag()
            if got == "enc0":
                return obj.decrypt()
            rc = m.recipients[0] if m.recipients else None
            return obj.decrypt(rc)
        r = lib(ctx, opn)
        if f.get("again"):
            r2 = lib(ctx, opn)
            ctx.probe("opened_again")
            if (r.ok, r.val) != (r2.ok, r2.val):
                ctx.violate("verdict-changed", "opening the same received %s object twice gave %r, then %r" % (got, r, r2))
        if got in ENC_KINDS:
            accept = r.ok
            if r.ok and not isinstance(r.val, bytes):
                ctx.violate("verdict-type", "decryption returned %r" % (r.val,))
        else:
            accept = r.ok and bool(r.val)
            if r.ok and not isinstance(r.val, bool):
                ctx.violate("verdict-type", "verification returned %r" % (r.val,))
        if got in SIGN_KINDS or got in MAC_KINDS:
            payload = det if (m.payload is None and got in SIGN_KINDS) else m.payload
        else:
            payload = r.val if accept else None
        if m.payload != before:
            ctx.violate("object-altered", "opening a received %s message changed its payload" % got)
        ctx.log("open", st["mid"], got, i, "accept" if accept else "reject")
        ctx.state(got, src.get("alg"), accept, intact, dctx, [d[0] for d in f["dmg"]], r.ok)
        vk = (wire, got, i, self.keyid(ki), aad, det)
        if vk in self.verdicts:
            ctx.probe("same_delivery_again")
            if self.verdicts[vk] != (accept, payload if accept else None):
                ctx.violate("verdict-changed", "the same %s bytes with the same key and context gave another verdict or content" % got)
        else:
            self.verdicts[vk] = (accept, payload if accept else None)
        if accept:
            ctx.probe("accepted_" + got)
            self.check_authentic(got, src, m, obj, i, ki, aad, det, payload, wire, intact)
        else:
            ctx.probe("rejected_" + got)
            if intact and right:
                ctx.violate("intact-rejected", "an undamaged %s message (alg %s) with the right key and context was rejected: %r" % (got, src["alg"], r))
        if intact and right and accept and payload != bytes.fromhex(spec["payload"]):
            ctx.violate("wrong-content", "an undamaged %s message yielded another payload" % got)

    def check_content(self, spec, m, got):
        ctx = self.ctx
        if got != spec["kind"]:
            ctx.violate("decode-class", "a %s message decoded as %s" % (spec["kind"], got))
        if msgs.norm_hdr(m.phdr) != msgs.want_hdr(spec, "p") or msgs.norm_hdr(m.uhdr) != msgs.want_hdr(spec, "u"):
            ctx.violate("content", "headers of an undamaged %s message differ from the ones sent" % got)
        if got not in ENC_KINDS:
            want = None if spec["detached"] else bytes.fromhex(spec["payload"])
            if m.payload != want:
                ctx.violate("content", "payload of an undamaged %s message differs from the one sent" % got)
        if got == "sign":
            if len(m.signers) != len(spec["signers"]):
                ctx.violate("content", "number of signers differs")
            for o, s in zip(m.signers, spec["signers"]):
                if msgs.norm_hdr(o.phdr) != msgs.want_hdr(s, "p") or msgs.norm_hdr(o.uhdr) != msgs.want_hdr(s, "u"):
                    ctx.violate("content", "signer headers of an undamaged message differ from the ones sent")
        if got in ("enc", "mac"):
            if len(m.recipients) != len(spec["recipients"]):
                ctx.violate("content", "%d of %d recipients decoded" % (len(m.recipients), len(spec["recipients"])))
            for o, rs in zip(m.recipients, spec["recipients"]):
                if msgs.norm_hdr(o.uhdr) != canon(dict(msgs.rspec_hdr(rs, "u"))):
                    ctx.violate("content", "recipient headers of an undamaged message differ from the ones sent")

    def check_authentic(self, got, src, m, obj, i, ki, aad, det, payload, wire, intact):
        ctx = self.ctx
        kid = self.keyid(ki)
        t = (kid, got, msgs.norm_hdr(m.phdr), msgs.norm_hdr(obj.phdr) if got == "sign" else None, payload, aad)
        if t not in self.ledger:
            ctx.violate("forgery", "a %s message was accepted that the key's holder never produced: payload/headers/external data differ from everything protected under that key" % got)
        try:
            k, a = ref.parse(wire)
            if got == "sign":
                bt = (kid, got, ref.emap(a[0]), ref.emap(a[3][i][0]), payload, aad)
            else:
                bt = (kid, got, ref.emap(a[0]), None, payload, aad)
        except (ref.RefError, cbor.CborError, IndexError, TypeError):
            return
        if bt not in self.bledger:
            ctx.violate("forgery", "a %s message was accepted whose protected header bytes were never protected under that key" % got)
        if intact:
            return
        try:
            if got == "sign1":
                ok = ref.ref_verify1(wire, self.maps[ki], aad, det)
            elif got == "sign":
                ok = ref.ref_verify(wire, i, self.maps[ki], aad, det)
            elif got in MAC_KINDS:
                ok = ref.ref_mac_ok(wire, self.maps[ki][-1], aad)
            else:
                try:
                    ok = ref.ref_decrypt(wire, self.maps[ki][-1], aad, self.maps[ki].get(5, b"")) == payload
                except ref.RefReject:
                    ok = False
        except (ref.RefError, cbor.CborError, IndexError, KeyError, TypeError, ValueError, AttributeError):
            return
        if not ok:
            ctx.violate("accepted-damaged", "a damaged %s message was accepted that an independent RFC 8152 verifier rejects" % got)


def content(m, got):
    """All that a decoded message says, as plain data."""
    def one(o, sub=()):
        return (flat(o.phdr), flat(o.uhdr), flat(o.payload), tuple(one(x, getattr(x, "recipients", ())) for x in sub))
    return got, one(m, getattr(m, "recipients", None) or getattr(m, "signers", ())), flat(getattr(m, "auth_tag", None)), \
        flat(m.signature) if got == "sign1" else None


def flat(v):
    """Comparable form of whatever a damaged message may contain."""
    if isinstance(v, dict) or hasattr(v, "store"):
        return "m", tuple(sorted(((flat(k), flat(x)) for k, x in dict(v).items()), key=repr))
    if isinstance(v, (list, tuple)):
        return "l", tuple(flat(x) for x in v)
    if isinstance(v, type) and hasattr(v, "identifier"):
        return "c", v.__name__, v.identifier
    if hasattr(v, "tag") and hasattr(v, "value"):
        return "g", v.tag, flat(v.value)
    return type(v).__name__, rp(v)


def ref_algs(h):
    """Header map with a textual algorithm name turned into its number."""
    h = dict(h)
    if 1 in h:
        h[1] = ref.algid(h[1])
    return h


REDUCE_DROP = ("p", "u")


def reduce(plan):
    """Smaller variants of a traffic plan."""
    for si, st in enumerate(plan["steps"]):
        if st["op"] != "send":
            continue

        def variant(**kw):
            q = dict(plan)
            q["steps"] = list(plan["steps"])
            s = dict(st)
            s["spec"] = {**st["spec"], **kw}
            q["steps"][si] = s
            return q
        sp = st["spec"]
        if sp["payload"] and len(sp["payload"]) > 2:
            yield variant(payload="61")
            yield variant(payload=sp["payload"][:len(sp["payload"]) // 4 * 2])
        if sp["aad"]:
            yield variant(aad="")
            if len(sp["aad"]) > 2:
                yield variant(aad="00")
        for b in ("p", "u"):
            if sp[b]:
                yield variant(**{b: []})
                for k in range(len(sp[b])):
                    yield variant(**{b: sp[b][:k] + sp[b][k + 1:]})
        plain_style = {"label": "cls", "alg": "cls", "tstr": False, "how": "ctor", "penc": "canon", "empty": "bstr", "outer": "canon"}
        if sp.get("style") and sp["style"] != plain_style:
            yield variant(style=plain_style)
            for k, v in plain_style.items():
                if sp["style"][k] != v:
                    yield variant(style={**sp["style"], k: v})
        if sp.get("detached"):
            yield variant(detached=False)
        for lst in ("signers", "recipients"):
            items = sp.get(lst) or []
            if len(items) > 1:
                for k in range(len(items)):
                    yield variant(**{lst: items[:k] + items[k + 1:]})
            for k, s in enumerate(items):
                for b in ("p", "u"):
                    if s[b]:
                        yield variant(**{lst: items[:k] + [{**s, b: []}] + items[k + 1:]})
                if s.get("aad"):
                    yield variant(**{lst: items[:k] + [{**s, "aad": ""}] + items[k + 1:]})
        for fi, f in enumerate(st["fates"]):
            for key in ("dup", "ctx", "drop", "reuse", "again", "lag", "tink"):
                if f.get(key):
                    q = dict(plan)
                    q["steps"] = list(plan["steps"])
                    s = dict(st)
                    s["fates"] = list(st["fates"])
                    s["fates"][fi] = {k: v for k, v in f.items() if k != key}
                    q["steps"][si] = s
                    yield q
            for di in range(len(f["dmg"])):
                q = dict(plan)
                q["steps"] = list(plan["steps"])
                s = dict(st)
                s["fates"] = list(st["fates"])
                s["fates"][fi] = {**f, "dmg": f["dmg"][:di] + f["dmg"][di + 1:]}
                q["steps"][si] = s
                yield q
