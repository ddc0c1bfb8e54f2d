"""Counter-based nonces are full-length, distinct and reconstructed exactly."""
import heapq

from .. import cbor, faults, ref, seams
from ..loader import Incarnation
from ..msgs import lib

ID = "C14"
RULE = ("A run has up to three senders numbering messages under shared keys (partial IV from a durable, block-reserved counter; one message object per message or "
        "one kept and renumbered) and receivers running the library or the reference, over a virtual-time network that loses, duplicates, delays, reorders and "
        "damages; processes crash between and inside operations and reload keys and counters from disk; base IVs change; dependencies fail. Messages for which "
        "no complete nonce exists are tried both ways. Every message must decrypt under the RFC 8152 nonce and no other. Non-trivial: at least one message sent "
        "and one fault; distinct: by the hash of the event log.")
RUNS = {"quick": 3000, "thorough": 60000}
STATE_MEASURE = "distinct (algorithm, shape of base IV and partial IV, bucket, origin, situation, outcome) tuples"
ASSUMPTIONS = ["senders sharing a key divide the counters between them and reserve counters on disk before using them (part of the harness)",
               "an explicit initialisation vector of the algorithm's nonce length is a full one"]
MUST_REACH = {"quick": ("delivered_lib", "delivered_ref", "drop", "dup", "reordered", "crash", "crash_inside", "retry_same_counter", "kept_object", "leading_zero_nonce",
                        "zero_nonce", "refused_nobase", "refused_noiv", "refused_shortbase", "refused_longbase", "refused_longpiv", "refused_kw", "refused_nokey", "explicit_iv", "both_ivs", "rebased",
                        "wrong_base_refused", "unusual_iv_length", "counters_skipped", "full_length_piv", "damaged", "late_after_restart")}
REAL = ["pycose (all of it, one fresh import per simulated process)", "cbor2", "cryptography/OpenSSL"]
STUB = ["network (virtual-time event queue)", "durable counters and key store (in memory, survive crashes)", "reference peers", "entropy (seeded streams)"]

ALGS = sorted(ref.ENC_ALGS)


class Crash(BaseException):
    pass


# ------------------------------------------------------------------ generation

def gen_iv(rng, n):
    """Biased bytes of length n."""
    x = rng.random()
    if x < .35:
        return rng.randbytes(n)
    if x < .6:
        z = rng.randrange(1, n + 1)
        return b"\0" * z + rng.randbytes(n - z)
    if x < .7:
        return b"\0" * n
    if x < .8:
        return b"\xff" * n
    z = rng.randrange(0, n)
    return rng.randbytes(z) + b"\0" * (n - z)


def gen(rng, i, tier):
    keys = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        alg = rng.choice(ALGS)
        _, kl, nl, _ = ref.ENC_ALGS[alg]
        keys.append({"alg": alg, "k": rng.randbytes(kl).hex(), "base": gen_iv(rng, nl).hex(),
                     "kid": rng.randbytes(rng.randrange(1, 5)).hex() if rng.random() < .4 else None})
    senders = []
    for s in range(rng.choice([1, 2, 2, 3])):
        k = rng.randrange(len(keys))
        nl = ref.ENC_ALGS[keys[k]["alg"]][2]
        # counter = s + nsenders * n, written in one of these ways
        fmt = rng.choice(["min", "min", "min", "w%d" % rng.choice([2, 3, 5]), "full"])
        start = rng.choice([0, 0, 0, 84, 250, 65530, 2 ** 24 - 3, 2 ** 32 - 2, 2 ** 40])
        if fmt[0] == "w":
            start = min(start, 250)
        senders.append({"key": k, "fmt": fmt, "start": start, "block": rng.choice([1, 4, 16]), "org": rng.choice(["lib", "lib", "lib", "ref"]),
                        "kind": rng.choice(["enc0", "enc0", "enc"]), "piv_in": rng.choice("uup"), "alg_in": rng.choice("ppu"),
                        "how": rng.choice(["new", "new", "keep"]), "load": rng.choice(LOADS)})
    steps, nr = [], rng.choice([1, 2])
    for _ in range(rng.randrange(6, 26 if tier == "quick" else 80)):
        x = rng.random()
        if x < .62:
            st = {"op": "send", "s": rng.randrange(len(senders)), "pt": rng.randbytes(rng.choice([0, 1, 5, 20, 60])).hex(),
                  "aad": rng.choice(["", "", "6164"]), "net": []}
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                d = {"t": rng.choice([0, 10, 1000, 3000, 9000, 30000]), "to": rng.randrange(nr + 1), "key": rng.choice(["kept", "kept", "loaded"])}
                if rng.random() < .1:
                    d["flip"] = [rng.random(), rng.randrange(8)]
                elif rng.random() < .1:
                    d["wrong"] = rng.choice(["base", "nobase", "nokey", "short"])
                if rng.random() < .1:
                    d["fault"] = faults.gen(rng, 8, .2)
                st["net"].append(d)
            y = rng.random()
            if y < .1:
                st["fault"] = faults.gen(rng, 8, .2)
            elif y < .2:
                st["crash"] = rng.choice(["before", "after", "inside"])
                st["at"] = rng.randrange(6)
            if rng.random() < .12:
                st["iv"] = gen_iv(rng, ref.ENC_ALGS[keys[senders[st["s"]]["key"]]["alg"]][2]).hex()
                st["iv_in"] = rng.choice("up")
                st["with_piv"] = rng.random() < .5
                if rng.random() < .3:       # not the length the algorithm is meant for
                    st["iv"] = gen_iv(rng, rng.choice([1, 7, 8, 11, 12, 13, 14, 16, 24, 60])).hex()
            if rng.random() < .1:           # counters that were given up: other messages lost, another process, a spare range
                st["skip"] = rng.choice([1, 3, 40, 70, 129, 300, 1100, 5000, 70000])
        elif x < .82:
            st = {"op": "bad", "what": rng.choice(["nobase", "noiv", "shortbase", "longbase", "longpiv", "kw", "nokey"]), "dir": rng.choice(["send", "recv"]),
                  "k": rng.randrange(len(keys)), "kind": rng.choice(["enc0", "enc"]), "piv_in": rng.choice("up"), "n": rng.randrange(nr), "form": rng.randrange(5),
                  "piv": gen_iv(rng, rng.randrange(1, 5)).hex(), "len": rng.randrange(40), "load": rng.choice(LOADS), "s": rng.randrange(len(senders)), "r": rng.random()}
        elif x < .9:
            st = {"op": "restart", "n": rng.randrange(nr)} if rng.random() < .5 else {"op": "crash", "s": rng.randrange(len(senders))}
        elif x < .94:
            k = rng.randrange(len(keys))
            st = {"op": "rebase", "k": k, "base": gen_iv(rng, ref.ENC_ALGS[keys[k]["alg"]][2]).hex(), "how": rng.choice(["reload", "setter", "item"])}
        else:
            st = {"op": "wait", "t": rng.choice([2000, 20000])}
        steps.append(st)
    return {"keys": keys, "senders": senders, "receivers": [{"load": rng.choice(LOADS)} for _ in range(nr)], "steps": steps}


LOADS = ["decode", "decode", "ctor", "setter", "dict", "stored"]


# ------------------------------------------------------------------ harness

def key_map(k, base):
    m = {1: 4, -1: bytes.fromhex(k["k"])}
    if k.get("kid"):
        m[2] = bytes.fromhex(k["kid"])
    if base is not None:
        m[5] = base
    return m


def load(inc, k, base, how):
    """The key object, made in one of the ways the library offers."""
    P, K = inc.keyparam, inc.keys
    kid = bytes.fromhex(k["kid"]) if k.get("kid") else None
    if how in ("ctor", "setter"):
        opt = {}
        if kid is not None:
            opt[P.KpKid] = kid
        if how == "ctor" and base is not None:
            opt[P.KpBaseIV] = base
        o = K.SymmetricKey(k=bytes.fromhex(k["k"]), optional_params=opt)
        if how == "setter" and base is not None:
            o.base_iv = base
        return o
    if how == "dict":
        d = {"KTY": "SYMMETRIC", "K": bytes.fromhex(k["k"])}
        if kid is not None:
            d["KID"] = kid
        if base is not None:
            d["BASE_IV"] = base
        return K.CoseKey.from_dict(d)
    o = K.CoseKey.decode(cbor.enc(key_map(k, base)))
    if how == "stored":
        o = K.CoseKey.decode(o.encode())
    return o


def nonce_of(alg, base, piv):
    """RFC 8152 section 3.1, or None."""
    nl = ref.ENC_ALGS[alg][2]
    if base is None or len(base) != nl or piv is None or len(piv) > nl:
        return None
    return bytes(a ^ b for a, b in zip(base, piv.rjust(nl, b"\0")))


def headers(spec):
    p, u = {}, {}
    (p if spec["alg_in"] == "p" else u)[1] = spec["alg"]
    if spec.get("piv") is not None:
        (p if spec["piv_in"] == "p" else u)[6] = spec["piv"]
    if spec.get("iv") is not None:
        (p if spec["iv_in"] == "p" else u)[5] = spec["iv"]
    return p, u


def seal(spec, k, nonce, pt, aad):
    """The message another implementation would send."""
    p, u = headers(spec)
    prot = cbor.enc(p) if p else b""
    ct = ref.aead_enc(spec["alg"], k, nonce, pt, ref.enc_structure("Encrypt0" if spec["kind"] == "enc0" else "Encrypt", prot, aad),
                      spec.get("iv") is not None)
    a = [prot, u, ct]
    if spec["kind"] == "enc":
        a.append([[b"", {1: ref.DIRECT}, b""]])
    return cbor.enc(cbor.Tag(16 if spec["kind"] == "enc0" else 96, a))


class Recv:
    def __init__(self, run, n):
        self.run, self.n = run, n
        self.start()

    def start(self):
        self.inc = Incarnation()
        self.kept = {}
        self.restarted = self.run.ctx.now

    def key(self, ki, base, how):
        self.inc.activate()
        ld = self.run.plan["receivers"][self.n]["load"]
        if how != "kept":
            return load(self.inc, self.run.keys[ki], base, ld)
        if (ki, base) not in self.kept:
            self.kept[(ki, base)] = load(self.inc, self.run.keys[ki], base, ld)
        return self.kept[(ki, base)]


class Sender:
    def __init__(self, run, n):
        self.run, self.n = run, n
        self.p = run.plan["senders"][n]
        self.disk = self.p["start"]     # counters below this are used or given up
        self.start()

    def start(self):
        self.next = self.limit = self.disk
        if self.p["org"] == "lib":
            self.inc = Incarnation()
            self.k = load(self.inc, self.run.keys[self.p["key"]], self.run.base[self.p["key"]], self.p["load"])
            self.m = None

    def counter(self, skip=0):
        if skip:
            self.next = self.limit = self.disk = self.limit + skip
        if self.next == self.limit:
            self.disk = self.limit = self.next + self.p["block"]        # write, then use
        c = self.next
        self.next += 1
        return c * len(self.run.plan["senders"]) + self.n

    def piv(self, c):
        nl = ref.ENC_ALGS[self.run.keys[self.p["key"]]["alg"]][2]
        f = self.p["fmt"]
        n = max(1, (c.bit_length() + 7) // 8) if f == "min" else nl if f == "full" else int(f[1:])
        return c.to_bytes(n, "big")


class Run:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.keys = plan["keys"]
        self.base = [bytes.fromhex(k["base"]) for k in self.keys]
        seams.S.entropy = seams.Stream(plan["seed"], "c14")
        self.recv = [Recv(self, n) for n in range(len(plan["receivers"]))]
        self.send = [Sender(self, n) for n in range(len(plan["senders"]))]
        self.q, self.seq = [], 0
        self.nonces = {}
        self.last_id, self.nid = {}, 0

    def go(self):
        for st in self.plan["steps"]:
            self.ctx.now += 1000
            self.flush(self.ctx.now)
            getattr(self, "op_" + st["op"])(st)
        self.flush(None)

    def flush(self, until):
        while self.q and (until is None or self.q[0][0] <= until):
            t, _, d, msg = heapq.heappop(self.q)
            self.ctx.now = max(self.ctx.now, t)
            self.deliver(d, msg)

    # ---- sending
    def op_send(self, st):
        ctx, s = self.ctx, self.send[st["s"] % len(self.send)]
        k = self.keys[s.p["key"]]
        base = self.base[s.p["key"]]
        alg = k["alg"]
        nl = ref.ENC_ALGS[alg][2]
        c = s.counter(st.get("skip", 0) if s.p["fmt"][0] != "w" or s.disk + st.get("skip", 0) < 15000 else 0)
        if st.get("skip"):
            ctx.fault("counters_skipped")
        piv = s.piv(c)
        spec = {"kind": s.p["kind"], "alg": alg, "alg_in": s.p["alg_in"], "piv": piv, "piv_in": s.p["piv_in"]}
        if st.get("iv"):
            spec["iv"], spec["iv_in"] = bytes.fromhex(st["iv"]), st["iv_in"]
            if not st["with_piv"]:
                spec["piv"] = None
            nonce = spec["iv"]
            ctx.probe("both_ivs" if st["with_piv"] else "explicit_iv")
        else:
            nonce = nonce_of(alg, base, piv)
            if nonce is None:
                return
        pt, aad = bytes.fromhex(st["pt"]), bytes.fromhex(st["aad"])
        odd = len(nonce) != nl      # what is sent must be sealed under exactly this IV, or not at all
        if odd:
            ctx.fault("unusual_iv_length")
            ctx.probe("unusual_iv_length")
        if nonce[0] == 0:
            ctx.probe("leading_zero_nonce" if any(nonce) else "zero_nonce")
        if len(piv) == nl:
            ctx.probe("full_length_piv")
        if st.get("crash") == "before":
            return self.op_crash(st)
        if s.p["org"] == "ref":
            try:
                wire = seal(spec, bytes.fromhex(k["k"]), nonce, pt, aad)
            except ValueError:
                if odd:
                    return
                raise
        else:
            try:
                wire = self.lib_send(s, st, spec, pt, aad)
            except Crash:
                ctx.probe("crash_inside")
                return self.op_crash(st)
            if wire is None:
                ctx.probe("unusual_iv_refused")
                return
            # the reference peer's view: exactly the nonce of RFC 8152
            try:
                _, a = ref.parse(wire)
                got = ref.aead_dec(alg, bytes.fromhex(k["k"]), nonce, a[2],
                                   ref.enc_structure("Encrypt0" if spec["kind"] == "enc0" else "Encrypt", a[0], aad), odd)
                h = ref.merged(a[0], a[1])
            except (ref.RefReject, ref.RefError, ValueError) as e:
                ctx.violate("wrong-nonce", "%s under base IV %s and %s is not encrypted under nonce %s (%s)" % (
                    spec["kind"], base.hex(), self.ivs(spec), nonce.hex(), e))
            if got != pt:
                ctx.violate("wrong-nonce", "decrypting under the nonce of RFC 8152 gives another plaintext")
            if h.get(6) != spec["piv"] or h.get(5) != spec.get("iv"):
                ctx.violate("wrong-header", "the message carries IV %r and partial IV %r" % (h.get(5), h.get(6)))
        if not st.get("iv"):
            old = self.nonces.setdefault((k["k"], nonce), (s.n, c, base))
            if old != (s.n, c, base) and old[2] == base:
                ctx.violate("nonce-reused", "counters %r and %r share a nonce" % (old, (s.n, c)))
        self.nid += 1
        ctx.log("sent", s.n, c, nonce.hex(), spec["kind"], len(pt))
        ctx.state("send", alg, self.shape(base), len(piv), spec["piv_in"], s.p["how"], s.p["org"], bool(st.get("iv")))
        if not st["net"]:
            ctx.fault("drop")
        if len(st["net"]) > 1:
            ctx.fault("dup")
        for d in st["net"]:
            self.seq += 1
            heapq.heappush(self.q, (ctx.now + d["t"], self.seq, d, {"wire": wire, "spec": spec, "ki": s.p["key"], "base": base, "pt": pt, "aad": aad, "id": self.nid,
                                                                   "sent": ctx.now, "nonce": nonce, "odd": odd}))
        if st.get("crash") == "after":
            self.op_crash(st)

    @staticmethod
    def shape(b):
        z = len(b) - len(b.lstrip(b"\0"))
        return "0" * min(z, 3) + ("" if z == len(b) else "x")

    def ivs(self, spec):
        return " ".join("%s %s" % (n, spec[f].hex()) for n, f in (("partial IV", "piv"), ("IV", "iv")) if spec.get(f) is not None)

    def lib_hdrs(self, inc, spec):
        H = inc.headers
        names = {1: H.Algorithm, 5: H.IV, 6: H.PartialIV}
        p, u = headers(spec)

        def t(h):
            return {names[x]: inc.algorithms.CoseAlgorithm.from_id(v) if x == 1 else v for x, v in h.items()}
        return t(p), t(u)

    def new(self, inc, spec, key, pt, aad, rcpt=None):
        p, u = self.lib_hdrs(inc, spec)
        kw = {"phdr": p, "uhdr": u, "payload": pt, "external_aad": aad}
        if key is not None:
            kw["key"] = key
        if spec["kind"] == "enc0":
            return inc.messages.Enc0Message(**kw)
        if rcpt is None:
            rcpt = inc.recipient.DirectEncryption(uhdr={inc.headers.Algorithm: inc.algorithms.Direct})
        return inc.messages.EncMessage(recipients=[rcpt], **kw)

    def lib_send(self, s, st, spec, pt, aad):
        ctx = self.ctx
        s.inc.activate()
        if s.p["how"] == "keep" and s.m is not None and not st.get("iv"):
            H = s.inc.headers
            (s.m.phdr if spec["piv_in"] == "p" else s.m.uhdr)[H.PartialIV] = spec["piv"]
            s.m.payload, s.m.external_aad = pt, aad
            m = s.m
            ctx.probe("kept_object")
        else:
            r = lib(ctx, self.new, s.inc, spec, s.k, pt, aad)
            if not r.ok:
                ctx.violate("not-sent", "a message could not be made: %r" % r.exc)
            m = r.val
            if not st.get("iv"):
                s.m = m
        if st.get("crash") == "inside":
            n = [st["at"]]

            def boom(site):
                n[0] -= 1
                if n[0] < 0:
                    raise Crash()
            seams.S.hook, seams.S.armed = boom, True
            try:
                ctx.ops += 1
                return m.encode()
            except Crash:
                raise
            except Exception as e:
                if st.get("iv") and len(st["iv"]) // 2 != ref.ENC_ALGS[spec["alg"]][2]:
                    return None
                ctx.violate("not-sent", "%s with %s under base IV %s could not be encrypted: %r" % (spec["kind"], self.ivs(spec), s.k.base_iv.hex(), e))
            finally:
                seams.S.hook, seams.S.armed = None, False
        r, fired = faults.run(ctx, st.get("fault"), m.encode)
        if not r.ok and fired:
            ctx.probe("retry_same_counter")
            r = lib(ctx, m.encode)
        if not r.ok and st.get("iv") and len(st["iv"]) // 2 != ref.ENC_ALGS[spec["alg"]][2]:
            return None
        if not r.ok:
            ctx.violate("not-sent", "%s with %s under base IV %s could not be encrypted: %r" % (spec["kind"], self.ivs(spec), s.k.base_iv.hex(), r.exc))
        return r.val

    # ---- receiving
    def deliver(self, d, msg):
        ctx = self.ctx
        if msg["id"] < self.last_id.get(d["to"], 0):
            ctx.fault("reordered")
        self.last_id[d["to"]] = msg["id"]
        spec, base, k = msg["spec"], msg["base"], self.keys[msg["ki"]]
        wire = msg["wire"]
        if d["to"] >= len(self.recv):       # a reference peer
            got = ref.aead_dec(spec["alg"], bytes.fromhex(k["k"]), msg["nonce"], ref.parse(wire)[1][2],
                               ref.enc_structure("Encrypt0" if spec["kind"] == "enc0" else "Encrypt", ref.parse(wire)[1][0], msg["aad"]),
                               msg["odd"])
            if got != msg["pt"]:
                ctx.violate("lost", "a reference peer decrypts something else")
            ctx.probe("delivered_ref")
            return
        rc = self.recv[d["to"]]
        rc.inc.activate()
        wrong, flip = d.get("wrong"), d.get("flip")
        kb = base
        if wrong == "base":
            kb = bytes(x ^ 1 for x in base)
        elif wrong == "short":
            kb = base[:-1]
        elif wrong == "nobase":
            kb = None
        want = True
        if wrong and spec.get("iv") is None or wrong == "nokey":
            want = False
        if flip:
            # the ciphertext: last in an Encrypt0, else found by content
            ct = ref.parse(wire)[1][2]
            at = wire.rindex(ct) + int(flip[0] * len(ct))
            wire = wire[:at] + bytes([wire[at] ^ 1 << flip[1]]) + wire[at + 1:]
            ctx.fault("damage")
            ctx.probe("damaged")
            want = False
        key = None if wrong == "nokey" else rc.key(msg["ki"], kb, d["key"])
        r, fired = self.lib_open(rc.inc, wire, key, msg["aad"], d.get("fault"))
        if not r.ok and fired:
            r, fired = self.lib_open(rc.inc, wire, key, msg["aad"], None)
        ctx.log("recv", d["to"], msg["id"], want, r.ok)
        ctx.state("recv", spec["alg"], self.shape(msg["nonce"]), wrong, bool(flip), r.ok)
        if want and msg["odd"] and not r.ok:
            ctx.probe("unusual_iv_refused")
        elif want:
            if not r.ok:
                ctx.violate("lost", "a receiver cannot decrypt %s under base IV %s, %s: %r" % (spec["kind"], base.hex(), self.ivs(spec), r.exc))
            if r.val != msg["pt"]:
                ctx.violate("wrong-plaintext", "a receiver decrypts something else")
            ctx.probe("delivered_lib")
            if rc.restarted > msg["sent"]:
                ctx.probe("late_after_restart")
        else:
            if r.ok:
                ctx.violate("decrypted", "a receiver decrypted a message it cannot have the nonce of (%s)" % (wrong or "damaged"))
            if wrong:
                ctx.fault("wrong_" + wrong)
                ctx.probe("wrong_base_refused")

    def lib_open(self, inc, wire, key, aad, f, kek=None):
        def go():
            m = inc.messages.CoseMessage.decode(wire)
            if key is not None:
                m.key = key
            m.external_aad = aad
            if kek is not None:
                m.recipients[0].key = kek
            return m.decrypt(m.recipients[0]) if type(m).__name__ == "EncMessage" else m.decrypt()
        return faults.run(self.ctx, f, go)

    # ---- messages without a complete nonce
    def op_bad(self, st):
        ctx = self.ctx
        ki = st["k"] % len(self.keys)
        k, what = self.keys[ki], st["what"]
        alg, kb = k["alg"], bytes.fromhex(k["k"])
        nl = ref.ENC_ALGS[alg][2]
        base, piv = self.base[ki], bytes.fromhex(st["piv"])
        spec = {"kind": "enc" if what == "kw" else st["kind"], "alg": alg, "alg_in": "p", "piv": piv, "piv_in": st["piv_in"]}
        if what == "nobase":
            base = None if st["len"] % 3 else b""
            if base == b"" and st["load"] == "ctor":
                base = None
        elif what == "noiv":
            spec["piv"] = None
        elif what == "shortbase":
            base = base[:max(1, nl - 1 - st["len"] % nl)] if st["len"] % 2 else base[-max(1, nl - 1 - st["len"] % nl):]
        elif what == "longbase":
            base = base + b"\x07" * (1 + st["len"] % 4)
        elif what == "longpiv":
            spec["piv"] = (b"\0" if st["len"] % 2 else b"\5") * (1 + st["len"] % 3) + piv.rjust(nl, b"\0")
        inc = self.recv[st["n"] % len(self.recv)].inc if st["dir"] == "recv" else self.libinc(st)
        inc.activate()
        pt, aad = b"secret payload", b""
        rk = lib(ctx, load, inc, k, base, st["load"])
        if not rk.ok:
            ctx.log("bad key", what, "not loaded")
            return
        key = rk.val
        if st["dir"] == "send":
            rcpt = None
            if what == "kw":
                A = inc.algorithms
                rcpt = inc.recipient.KeyWrap(uhdr={inc.headers.Algorithm: A.A128KW}, key=inc.keys.SymmetricKey(k=b"w" * 16))
                if st["len"] % 2:
                    key = None
            elif what == "nokey":
                key = None
            if st["r"] < .3:         # with an initialisation vector the same message can be made
                r = lib(ctx, lambda: self.new(inc, dict(spec, iv=b"\1" * nl, iv_in="u"), key, pt, aad, rcpt).encode())
                if not r.ok and what != "nokey":
                    ctx.violate("not-sent", "a message with a full initialisation vector could not be encrypted (%s): %r" % (what, r.exc))
            r = lib(ctx, lambda: self.new(inc, spec, key, pt, aad, rcpt).encode())
            if r.ok:
                ctx.violate("encrypted", "a message was encrypted though no complete nonce exists (%s: base IV %s, %s, algorithm %d)" % (
                    what, base.hex() if base is not None else None, self.ivs(spec), alg))
        else:
            if what == "kw":
                iv = b"\1" * nl
                r = self.lib_open(inc, self.kw(dict(spec, iv=iv, iv_in="u"), iv, pt, aad), key, aad, None, inc.keys.SymmetricKey(k=b"w" * 16))[0]
                if not r.ok or r.val != pt:
                    ctx.violate("lost", "a message with a full initialisation vector and a wrapped key cannot be decrypted: %r" % r)
            for wire in self.forge(st, spec, what, kb, base, nl, pt, aad):
                kek = inc.keys.SymmetricKey(k=b"w" * 16) if what == "kw" else None
                r = self.lib_open(inc, wire, None if what == "nokey" or kek and st["len"] % 2 else key, aad, None, kek)[0]
                if r.ok:
                    ctx.violate("decrypted", "a message was decrypted though no complete nonce exists (%s: base IV %s, %s, algorithm %d)" % (
                        what, base.hex() if base is not None else None, self.ivs(spec), alg))
        ctx.fault("bad_" + what)
        ctx.probe("refused_" + what)
        ctx.log("bad", what, st["dir"], alg)
        ctx.state("bad", what, st["dir"], alg, spec["kind"], st["load"])

    def libinc(self, st):
        s = self.send[st["s"] % len(self.send)]
        return s.inc if s.p["org"] == "lib" else self.recv[0].inc

    def forge(self, st, spec, what, k, base, nl, pt, aad):
        """Messages encrypted under the nonces a careless implementation would come up with."""
        b, p = base or b"", spec["piv"] or b""

        def fit(x):
            return [x.rjust(nl, b"\0")[-nl:], x.ljust(nl, b"\0")[:nl]]
        cand = {bytes(a ^ c for a, c in zip(x, y)) for x in fit(b) for y in fit(p)} | {b"\0" * nl}
        if p and b:
            w = (int.from_bytes(p, "big") ^ int.from_bytes(b, "big"))
            raw = [w.to_bytes(max(len(p), len(b)), "big"), w.to_bytes((w.bit_length() + 7) // 8, "big")]
        else:
            raw = [p, b]
        out = [seal(dict(spec), k, n, pt, aad) if what != "kw" else self.kw(spec, n, pt, aad) for n in sorted(cand)]
        for n in raw:       # nonces of another length, which the ciphers would take
            if len(n) != nl and what != "kw":
                w = odd(spec, k, n, pt, aad)
                if w:
                    out.append(w)
        return out

    def kw(self, spec, nonce, pt, aad):
        cek = b"c" * ref.ENC_ALGS[spec["alg"]][1]
        p, u = headers(spec)
        prot = cbor.enc(p) if p else b""
        ct = ref.aead_enc(spec["alg"], cek, nonce, pt, ref.enc_structure("Encrypt", prot, aad))
        return cbor.enc(cbor.Tag(96, [prot, u, ct, [[b"", {1: -3}, ref.aes_kw(b"w" * 16, cek)]]]))

    # ---- the rest
    def op_crash(self, st):
        s = self.send[st["s"] % len(self.send)]
        s.start()
        self.ctx.fault("crash")
        self.ctx.log("crash", s.n, s.next)

    def op_restart(self, st):
        self.recv[st["n"] % len(self.recv)].start()
        self.ctx.fault("crash")
        self.ctx.log("restart", st["n"])

    def op_rebase(self, st):
        """The key's base IV is replaced for everyone; senders keep their counters."""
        ki = st["k"] % len(self.keys)
        new = bytes.fromhex(st["base"])
        if len(new) != len(self.base[ki]):
            return
        # nonces under the old and the new base IV must stay apart: the senders' keys change as well
        k = self.keys[ki] = dict(self.keys[ki], k=bytes(x ^ 0x55 for x in bytes.fromhex(self.keys[ki]["k"])).hex())
        self.base[ki] = new
        self.q = [x for x in self.q if x[3]["ki"] != ki]
        heapq.heapify(self.q)
        for rc in self.recv:
            rc.kept = {x: o for x, o in rc.kept.items() if x[0] != ki}
        for s in self.send:
            if s.p["key"] == ki and s.p["org"] == "lib":
                s.inc.activate()
                if st["how"] == "reload":
                    s.k = load(s.inc, k, new, s.p["load"])
                    s.m = None
                else:
                    s.k.k = bytes.fromhex(k["k"])
                    if st["how"] == "setter":
                        s.k.base_iv = new
                    else:
                        s.k[s.inc.keyparam.KpBaseIV] = new
        self.ctx.probe("rebased")
        self.ctx.log("rebase", ki, new.hex())

    def op_wait(self, st):
        self.ctx.now += st["t"]
        self.flush(self.ctx.now)


def odd(spec, k, nonce, pt, aad):
    """As seal, with a nonce of another length."""
    p, u = headers(spec)
    prot = cbor.enc(p) if p else b""
    st = ref.enc_structure("Encrypt0" if spec["kind"] == "enc0" else "Encrypt", prot, aad)
    kind, _, _, tl = ref.ENC_ALGS[spec["alg"]]
    try:
        a = seams.real["AESGCM"](k) if kind == "GCM" else seams.real["AESCCM"](k, tag_length=tl)
        ct = a._dst_encrypt(nonce, pt, st)
    except (ValueError, OverflowError):
        return None
    a = [prot, u, ct]
    if spec["kind"] == "enc":
        a.append([[b"", {1: ref.DIRECT}, b""]])
    return cbor.enc(cbor.Tag(16 if spec["kind"] == "enc0" else 96, a))


def run(plan, ctx):
    Run(plan, ctx).go()


def reduce(plan):
    for i, st in enumerate(plan["steps"]):
        for k in ("fault", "crash", "iv", "skip"):
            if st.get(k) is not None:
                p = dict(plan, steps=[dict(x) for x in plan["steps"]])
                del p["steps"][i][k]
                yield p
        if st["op"] == "send" and st["pt"]:
            p = dict(plan, steps=[dict(x) for x in plan["steps"]])
            p["steps"][i]["pt"] = ""
            yield p
