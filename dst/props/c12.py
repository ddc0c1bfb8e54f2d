"""Certificate chains are trusted only by the current trust store and clock."""
import hashlib

from .. import cbor, faults, seams, x509sim as X
from ..loader import Incarnation
from ..msgs import lib

X.install()

ID = "C12"
RULE = ("A run draws a public-key infrastructure (roots, intermediates to depth four, cross-signed and renewed CAs, end entities; with defects) and up to "
        "three processes with their own clocks and trust stores, then interleaves: chains built and verified directly or from a message header, objects kept "
        "and verified again, clocks jumping to and around validity boundaries, trust stores edited, emptied and failing, crypto failing, processes restarting, "
        "certificate hashes made, sent and compared. A path-validation model decides every verdict. Non-trivial: at least one decision and one clock, store, "
        "damage or failure event; distinct: by the hash of the event log.")
RUNS = {"quick": 3000, "thorough": 60000}
STATE_MEASURE = "distinct (shape of chain, reason of the model's verdict, how the chain arrived, fault, outcome) tuples"
ASSUMPTIONS = ["the trust store is what the platform's list of trusted certificates contains when asked; a certificate in it is trusted as an issuer whatever its own dates",
               "path validation per RFC 5280 without policies, name constraints or revocation; a key usage must be stated by the first certificate"]
MUST_REACH = {"quick": ("accepted", "rejected", "accepted_again", "rejected_after_accept", "accepted_after_reject", "boundary_in", "boundary_out", "store_changed",
                        "fail_truststore_io", "restart", "damaged", "forged_anchor", "via_message", "single_certificate", "trusted_leaf", "thumb_match", "thumb_mismatch",
                        "clock_back", "usage_other", "unspecified")}
REAL = ["pycose (all of it, one fresh import per simulated process)", "certvalidator", "asn1crypto", "oscrypto signature checks", "cbor2"]
STUB = ["clock (simulated, per process)", "platform trust list (simulated, per process)", "network (bytes handed over)", "process crash (fresh import)"]
NONTRIVIAL_WITHOUT_FAULT = False

DAY = 86400
HASHES = {-14: lambda b: hashlib.sha1(b).digest(), -15: lambda b: hashlib.sha256(b).digest()[:8], -16: lambda b: hashlib.sha256(b).digest(),
          -17: lambda b: hashlib.new("sha512_256", b).digest(), -18: lambda b: hashlib.shake_128(b).digest(32),
          -43: lambda b: hashlib.sha384(b).digest(), -44: lambda b: hashlib.sha512(b).digest(), -45: lambda b: hashlib.shake_256(b).digest(64)}
CA_KU = ["key_cert_sign", "crl_sign"]


# ------------------------------------------------------------------ generation

def gen_pki(rng):
    certs, n = [], [0]

    def key():
        n[0] += 1
        return ("r%d" % rng.randrange(3)) if rng.random() < .15 else "e%d" % (rng.randrange(4) if rng.random() < .1 else 4 + n[0])

    def window(wide):
        if rng.random() < wide:
            return {"nb": -rng.randrange(300, 2000) * DAY, "na": rng.randrange(300, 2000) * DAY}
        nb = rng.randrange(-60, 30) * DAY + rng.choice([0, 0, 1, 3600])
        return {"nb": nb, "na": nb + rng.choice([1, 3600, DAY, 20 * DAY, 60 * DAY])}

    def add(**k):
        k.setdefault("sn", len(certs) + 1 + rng.randrange(3) * 1000)
        k.setdefault("ski", rng.random() < .7)
        k.setdefault("aki", rng.random() < .7)
        if rng.random() < .06:
            k["hash"] = rng.choice(["sha512", "sha1", "sha512"])
        certs.append(k)
        return len(certs) - 1
    cas = []
    for r in range(rng.choice([1, 1, 2, 3])):
        k = key()
        nm = "Root %d" % r if rng.random() < .85 else "Root 0"
        i = add(sub=nm, iss=nm, key=k, skey=k, ca=True, ku=rng.choice([CA_KU, CA_KU, None]), **window(.8))
        if rng.random() < .15:
            certs[i]["pl"] = rng.randrange(3)
        cas.append((i, 0))
    for m in range(rng.choice([0, 1, 1, 2, 3, 4])):
        p, d = rng.choice(cas)
        if d >= 4:
            continue
        k = key()
        c = dict(sub="CA %d" % m, iss=certs[p]["sub"], key=k, skey=certs[p]["key"], ca=True, ku=CA_KU, **window(.75))
        x = rng.random()
        if x < .06:
            c["ca"] = rng.choice([False, None])
        elif x < .12:
            c["ku"] = rng.choice([["digital_signature"], ["crl_sign"]])
        elif x < .2:
            c["pl"] = rng.randrange(3)
        elif x < .3:
            c["ku"] = None
        i = add(**c)
        cas.append((i, d + 1))
        if rng.random() < .25:          # renewed or cross-signed
            q, e = rng.choice(cas)
            if q != i and e < 4:
                c2 = dict(c, iss=certs[q]["sub"], skey=certs[q]["key"], **window(.6))
                c2.pop("pl", None)
                cas.append((add(**c2), e + 1))
    leaves = []
    for m in range(rng.choice([1, 2, 2, 3])):
        p, d = rng.choice(cas[-4:])
        k = key()
        c = dict(sub="Leaf %d" % m, iss=certs[p]["sub"], key=k, skey=certs[p]["key"], ca=rng.choice([None, False]), ku=["digital_signature"], **window(.7))
        x = rng.random()
        if x < .06:
            c["ku"] = rng.choice([None, [], ["key_encipherment"], ["non_repudiation", "key_agreement"]])
        elif x < .25:
            c["ku"] = rng.choice([["digital_signature", "key_encipherment"], ["digital_signature", "non_repudiation"]])
        elif x < .3:
            c["ca"], c["ku"] = True, ["digital_signature"] + CA_KU
        elif x < .36:
            c["hash"] = "md5" if c["skey"][0] == "r" else "sha1"
        elif x < .42:
            c["skey"] = key()           # someone else signed it
            c["aki"] = False
        elif x < .47:
            c["badsig"] = rng.randrange(160)
        elif x < .57:
            c["iss"], c["skey"], c["aki"] = c["sub"], k, False      # self-signed
        leaves.append(add(**c))
    nca = [i for i, _ in cas]
    if rng.random() < .35:              # a certificate carrying a trust anchor's signature value
        r = rng.choice(nca)
        v = dict(rng.choice([certs[x] for x in leaves]), copysig=certs[r], sn=7777)
        leaves.append(len(certs))
        certs.append(v)
    if rng.random() < .12 and len(nca) > 1:
        v = dict(certs[nca[-1]], copysig=certs[nca[0]], sn=7778)
        nca.append(len(certs))
        certs.append(v)
    if rng.random() < .2:               # an impostor CA: right name, another key
        v = dict(certs[rng.choice(nca)], key=key(), sn=7779, ski=False, aki=False)
        v["skey"] = v["key"]
        nca.append(len(certs))
        certs.append(v)
    return certs, nca, leaves


def gen_chain(rng, certs, cas, leaves):
    """Indices, first the end entity."""
    i = rng.choice(leaves) if rng.random() < .93 else rng.choice(cas)
    out, c = [i], certs[i]
    for _ in range(6):
        if c["iss"] == c["sub"]:
            break
        up = [j for j in cas if certs[j]["sub"] == c["iss"] and j not in out]
        good = [j for j in up if certs[j]["key"] == c["skey"]]
        if not up:
            break
        j = rng.choice(good or up) if rng.random() < .9 else rng.choice(up)
        if certs[j]["iss"] == certs[j]["sub"] and rng.random() < .6:
            break
        out.append(j)
        c = certs[j]
    x = rng.random()
    if x < .12 and len(out) > 1:
        del out[rng.randrange(1, len(out))]
    elif x < .2:
        out.insert(rng.randrange(1, len(out) + 1), rng.choice(cas + leaves))
    elif x < .3:
        t = out[1:]
        rng.shuffle(t)
        out = out[:1] + t
    elif x < .34:
        rng.shuffle(out)
    elif x < .37:
        out = out[:1]
    return out


def gen(rng, i, tier):
    certs, cas, leaves = gen_pki(rng)
    nn = rng.choice([1, 2, 2, 3])
    roots = [j for j in cas if certs[j]["iss"] == certs[j]["sub"]]

    def store():
        s = [j for j in roots if rng.random() < .8]
        if rng.random() < .12:
            s.append(rng.choice(cas))
        if rng.random() < .15:
            s.append(rng.choice(leaves))
        return sorted({j for j in s if not certs[j].get("copysig")})
    nodes = [{"store": store(), "clock": rng.choice([0, 0, rng.randrange(-40, 40) * DAY])} for _ in range(nn)]
    chains = [gen_chain(rng, certs, cas, leaves) for _ in range(rng.choice([2, 3, 4, 6]))]
    marks = [c[k] for c in certs for k in ("nb", "na")]
    steps, slots = [], 0
    for _ in range(rng.randrange(6, 22 if tier == "quick" else 60)):
        x, n = rng.random(), rng.randrange(nn)
        if x < .42 or not slots:
            st = {"op": "build", "n": n, "chain": rng.choice(chains), "via": rng.choice(["direct", "direct", "msg", "msg", "bag"]),
                  "verify": rng.random() < .8, "slot": slots}
            slots += 1
            if rng.random() < .15:
                st["flip"] = [rng.randrange(8), rng.random(), rng.randrange(8)]
            if rng.random() < .15:
                st["fault"] = gen_fault(rng)
            st["bucket"], st["to"] = rng.choice("pu"), rng.randrange(nn)
        elif x < .62:
            st = {"op": "again", "slot": rng.randrange(slots)}
            if rng.random() < .15:
                st["usage"] = rng.choice([["key_encipherment"], ["digital_signature", "key_encipherment"], ["non_repudiation"], ["key_cert_sign"]])
            if rng.random() < .2:
                st["fault"] = gen_fault(rng)
        elif x < .78:
            st = {"op": "clock", "n": n}
            if rng.random() < .6:
                st["to"] = rng.choice(marks) + rng.choice([-1, -.000001, 0, 0, .000001, .5, 1, DAY, -DAY])
            else:
                st["to"] = rng.choice([0, rng.randrange(-20, 20) * DAY, rng.randrange(-200, 400) * DAY])
        elif x < .9:
            st = {"op": "store", "n": n, "how": rng.choice(["new", "add", "add", "drop", "drop", "empty"]), "certs": store(), "i": rng.randrange(9)}
        elif x < .93:
            st = {"op": "restart", "n": n}
        else:
            st = {"op": "thumb", "n": n, "to": rng.randrange(nn), "alg": rng.choice(sorted(HASHES)), "c": rng.randrange(len(certs)), "d": rng.randrange(len(certs)),
                  "cbor": rng.random() < .4, "via": rng.choice(["direct", "msg", "decode"]), "bucket": rng.choice("pu"),
                  "how": rng.choice(["same", "other", "flip", "cut", "ext", "thumbcut", "thumbempty"]), "pos": rng.random()}
            if rng.random() < .2:
                st["fault"] = faults.gen(rng, 4, 0)
        steps.append(st)
    return {"certs": certs, "nodes": nodes, "steps": steps}


def gen_fault(rng):
    return {"n": rng.choice([0, 0, 1, 1, 2, 3]), "kind": rng.choice(["io", "mem", "err"]), "site": rng.choice(["truststore", "truststore", "oscrypto.", "oscrypto.rsa", "oscrypto.ecdsa", ""]),
            "sticky": rng.randrange(2)}


# ------------------------------------------------------------------ execution

class Node:
    def __init__(self, run, n):
        self.run, self.n = run, n
        p = run.plan["nodes"][n]
        self.store, self.clock = list(p["store"]), p["clock"]
        self.start()

    def env(self):
        X.ENV.now = self.clock
        X.ENV.store = [X.make(self.run.certs[i]) for i in self.store]

    def start(self):
        self.env()
        self.inc = Incarnation(x509=True)
        self.slots = set()

    def on(self):
        self.env()
        self.inc.activate()


class Run:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.certs = plan["certs"]
        seams.S.entropy = seams.Stream(plan["seed"], "c12")
        self.nodes = [Node(self, n) for n in range(len(plan["nodes"]))]
        self.slots = {}

    def go(self):
        try:
            for k, st in enumerate(self.plan["steps"]):
                self.ctx.now += 1000
                getattr(self, "op_" + st["op"])(st)
        finally:
            X.ENV.now = None

    def node(self, st, k="n"):
        return self.nodes[st[k] % len(self.nodes)]

    # ---- environment
    def op_clock(self, st):
        nd = self.node(st)
        if st["to"] < nd.clock:
            self.ctx.probe("clock_back")
        self.ctx.fault("clock_jump")
        self.ctx.now += int(abs(st["to"] - nd.clock) * 1e6)
        nd.clock = st["to"]
        self.ctx.log("clock", nd.n, nd.clock)

    def op_store(self, st):
        nd = self.node(st)
        if st["how"] == "new":
            nd.store = list(st["certs"])
        elif st["how"] == "add":
            nd.store = sorted(set(nd.store) | set(st["certs"]))
        elif st["how"] == "empty":
            nd.store = []
        elif nd.store:
            nd.store.pop(st["i"] % len(nd.store))
        self.ctx.fault("truststore_" + st["how"])
        self.ctx.probe("store_changed")
        self.ctx.log("store", nd.n, nd.store)

    def op_restart(self, st):
        nd = self.node(st)
        nd.start()
        for k in [k for k, s in self.slots.items() if s["n"] == nd.n]:
            del self.slots[k]
        self.ctx.fault("crash")
        self.ctx.probe("restart")
        self.ctx.log("restart", nd.n)

    # ---- chains
    def expect(self, nd, s, usage=("digital_signature",)):
        """-> (True/False/None, why)"""
        chain = [self.certs[i] for i in s["chain"]]
        store = [self.certs[i] for i in nd.store]
        leaf, rest = chain[0], chain[1:]
        anchors = [c for c in store]
        copied = [c for c in [leaf] + rest if c.get("copysig") in anchors and c not in store]
        if s["bad"] == 0:
            return False, "its first certificate is damaged"
        if s["bad"] is not None:
            bad = rest[s["bad"] - 1]
            rest = [c for i, c in enumerate(rest) if i != s["bad"] - 1]
            v = X.verdict(leaf, rest, store, nd.clock, usage)
            return (None, "a certificate not needed is damaged") if v[0] else (False, "damaged certificate, otherwise " + v[1])
        v = X.verdict(leaf, rest, store, nd.clock, usage)
        if v[0] and copied:
            return None, "a certificate not needed copies an anchor's signature"
        if v[0] and X.ambiguous(leaf, rest, store):
            return True, "with two certificates of the same name and serial number"
        return v

    def judge(self, what, nd, s, exp, r, fired, st):
        ctx = self.ctx
        v, why = exp
        chain = "%s at %s with store %s" % ([self.name(i) for i in s["chain"]], nd.clock, [self.name(i) for i in nd.store])
        if r.ok and v is False:
            ctx.violate("accepted-invalid", "%s accepted a chain though %s: %s" % (what, why, chain))
        if not r.ok and v is True and not fired:
            ctx.violate("rejected-valid", "%s rejected a valid chain (%s): %s" % (what, repr(r.exc)[:120], chain))
        ctx.log(what, nd.n, s["chain"], s["bad"], v, why, r.ok, fired)
        ctx.state(len(s["chain"]), why, what, bool(fired), r.ok, s["via"])
        if v is None:
            ctx.probe("unspecified")
        elif not fired:
            ctx.probe("accepted" if r.ok else "rejected")
            for c in (self.certs[i] for i in s["chain"]):
                for m in (c["nb"], c["na"]):
                    if abs(nd.clock - m) <= 1:
                        ctx.probe("boundary_in" if X.valid_at(c, nd.clock) else "boundary_out")
            if s["chain"][0] in nd.store and r.ok:
                ctx.probe("trusted_leaf")
            if any(self.certs[i].get("copysig") in [self.certs[j] for j in nd.store] for i in s["chain"]):
                ctx.probe("forged_anchor")
            last = s.get("last")
            if last is not None and what == "again":
                if r.ok:
                    ctx.probe("accepted_again" if last else "accepted_after_reject")
                elif last:
                    ctx.probe("rejected_after_accept")
            s["last"] = r.ok

    def name(self, i):
        c = self.certs[i]
        return "%s<%s[%d]" % (c["sub"], c["iss"], i)

    def op_build(self, st):
        ctx, nd = self.ctx, self.node(st)
        ders = [X.make(self.certs[i]) for i in st["chain"]]
        s = {"n": nd.n, "chain": st["chain"], "bad": None, "via": st["via"]}
        if st.get("flip"):
            p, frac, bit = st["flip"]
            p %= len(ders)
            if len(st["chain"]) == len(set(st["chain"])) and not st["chain"][p] in nd.store:
                ders[p] = damage(ders[p], frac, bit)
                s["bad"] = p
                ctx.fault("bitflip_certificate")
                ctx.probe("damaged")
        if len(ders) == 1:
            ctx.probe("single_certificate")
        nd.on()
        x5, arg = nd.inc.x509, None
        if st["via"] == "msg":
            src = self.node(st, "to")
            src.on()
            wire = lib(ctx, send, src.inc, src.inc.x509.X5Chain(list(ders)), "X5chain", st["bucket"])
            if not wire.ok:
                ctx.violate("lost", "a message with a certificate chain could not be made: %r" % wire.exc)
            ctx.probe("via_message")
            nd.on()
            got = lib(ctx, receive, nd.inc, wire.val, "X5chain", st["bucket"])
            want = ders if len(ders) > 1 else ders[0]
            if not got.ok or got.val != want:
                ctx.violate("chain-changed", "a certificate chain arrived changed in a message: %s" % (repr(got.exc)[:100] if not got.ok else "other bytes"))
            arg = got.val
        elif st["via"] == "bag" and len(ders) == 1:
            arg = ders[0]
        else:
            arg = list(ders)
        keep = list(arg) if isinstance(arg, list) else arg
        if not st["verify"]:
            r, fired = faults.run(ctx, None, x5.X5Chain, arg)
            if not r.ok:
                ctx.violate("not-built", "a chain could not even be built without verification: %r" % r.exc)
            ctx.log("unverified", nd.n, s["chain"])
        else:
            r, fired = faults.run(ctx, st.get("fault"), x5.X5Chain, arg, verify=True)
            self.judge("construction", nd, s, self.expect(nd, s), r, fired, st)
            if not r.ok:
                r, _ = faults.run(ctx, None, x5.X5Chain, keep)
                s["last"] = False
        if arg != keep:
            ctx.violate("argument-changed", "the caller's list of certificates was changed")
        if r.ok:
            e = lib(ctx, r.val.encode)
            if not e.ok or e.val != (ders if len(ders) > 1 else ders[0]):
                ctx.violate("chain-changed", "a chain encodes to something other than its certificates")
            s["o"] = r.val
            self.slots[st["slot"]] = s

    def op_again(self, st):
        s = self.slots.get(st["slot"])
        if s is None:
            return
        nd = self.nodes[s["n"]]
        nd.on()
        usage = set(st.get("usage") or ["digital_signature"])
        if st.get("usage"):
            self.ctx.probe("usage_other")
        r, fired = faults.run(self.ctx, st.get("fault"), s["o"].verify_chain, set(usage))
        self.judge("again", nd, s, self.expect(nd, s, usage), r, fired, st)

    # ---- certificate hashes
    def op_thumb(self, st):
        ctx, nd, to = self.ctx, self.node(st), self.node(st, "to")
        c = X.make(self.certs[st["c"] % len(self.certs)])
        want = HASHES[st["alg"]](c)
        wrap = cbor.enc if st["cbor"] else bytes
        nd.on()
        inc = nd.inc
        alg = inc.algorithms.CoseAlgorithm.from_id(st["alg"])
        args = (alg, wrap(c)) + ((True,) if st["cbor"] else ())
        t, fired = faults.run(ctx, st.get("fault"), inc.x509.X5T.from_certificate, *args)
        if not t.ok:
            if not fired:
                ctx.violate("thumb-fails", "no hash of a certificate with algorithm %d: %r" % (st["alg"], t.exc))
            t = lib(ctx, inc.x509.X5T.from_certificate, *args)
        e = lib(ctx, t.val.encode)
        if not e.ok or not isinstance(e.val, list) or len(e.val) != 2 or bytes(e.val[1]) != want:
            ctx.violate("thumb-wrong", "the hash of a certificate with algorithm %d is wrong" % st["alg"])
        th = want
        if st["via"] == "direct":
            o, to = t.val, nd
        else:
            if st["how"] == "thumbcut":
                th = want[:int(len(want) * st["pos"])]
            elif st["how"] == "thumbempty":
                th = b""
            if st["via"] == "msg" and th == want:
                wire = lib(ctx, send, inc, t.val, "X5t", st["bucket"])
                if not wire.ok:
                    ctx.violate("lost", "a message with a certificate hash could not be made: %r" % wire.exc)
                to.on()
                got = lib(ctx, receive, to.inc, wire.val, "X5t", st["bucket"])
                if not got.ok or list(got.val)[1] != th:
                    ctx.violate("thumb-changed", "a certificate hash arrived changed")
                item = got.val
            else:
                to.on()
                item = [st["alg"], th]
            d = lib(ctx, to.inc.x509.X5T.decode, item)
            if not d.ok:
                ctx.violate("thumb-changed", "a certificate hash could not be decoded: %r" % d.exc)
            o = d.val
            if to is nd and lib(ctx, lambda: o == t.val).val != (th == want):
                ctx.violate("thumb-equality", "equality of certificate hashes is wrong")
        x = c
        if st["how"] == "other":
            x = X.make(self.certs[st["d"] % len(self.certs)])
        elif st["how"] == "flip":
            b = bytearray(c)
            b[int(len(b) * st["pos"])] ^= 1 << st["d"] % 8
            x = bytes(b)
        elif st["how"] == "cut":
            x = c[:int(len(c) * st["pos"])]
        elif st["how"] == "ext":
            x = c + b"\0"
        to.on()
        m = lib(ctx, o.matches, *((wrap(x),) + ((True,) if st["cbor"] else ())))
        exp = th == HASHES[st["alg"]](x)
        if not m.ok or bool(m.val) != exp:
            ctx.violate("thumb-match", "a certificate hash (%d) of %d bytes %s another certificate [%s]" % (
                st["alg"], len(th), "does not match" if exp else "matches", st["how"]))
        ctx.fault("thumb_" + st["how"])
        ctx.probe("thumb_match" if exp else "thumb_mismatch")
        ctx.log("thumb", st["alg"], st["how"], st["via"], exp)
        ctx.state("thumb", st["alg"], st["how"], st["via"], exp, st["cbor"])


def damage(der, frac, bit):
    """Flip a bit of what is signed, or of the signature."""
    c = X.ax.Certificate.load(der)
    n = len(c["tbs_certificate"].dump())
    b = bytearray(der)
    # content of the signed part, or the end of the signature value
    pos = 8 + int((n - 4) * min(frac, .999) / .85) if frac < .85 else len(b) - 1 - int((frac - .85) / .15 * 20)
    b[pos] ^= 1 << bit
    return bytes(b)


def send(inc, obj, name, bucket):
    H = inc.headers
    h = {getattr(H, name): obj.encode()}
    m = inc.messages.Mac0Message(phdr={H.Algorithm: inc.algorithms.HMAC256, **(h if bucket == "p" else {})}, uhdr=h if bucket == "u" else {}, payload=b"x")
    m.key = inc.keys.SymmetricKey(k=b"k" * 32)
    return m.encode()


def receive(inc, wire, name, bucket):
    m = inc.messages.CoseMessage.decode(wire)
    m.key = inc.keys.SymmetricKey(k=b"k" * 32)
    if not m.verify_tag():
        raise ValueError("tag")
    return (m.phdr if bucket == "p" else m.uhdr)[getattr(inc.headers, name)]


def run(plan, ctx):
    Run(plan, ctx).go()


def reduce(plan):
    for i, st in enumerate(plan["steps"]):
        for k, v in (("fault", None), ("flip", None), ("usage", None), ("via", "direct")):
            if st.get(k) not in (None, v):
                p = dict(plan, steps=[dict(x) for x in plan["steps"]])
                if v is None:
                    del p["steps"][i][k]
                else:
                    p["steps"][i][k] = v
                yield p
        if st["op"] == "build" and len(st["chain"]) > 1:
            for j in range(1, len(st["chain"])):
                p = dict(plan, steps=[dict(x) for x in plan["steps"]])
                p["steps"][i]["chain"] = st["chain"][:j] + st["chain"][j + 1:]
                yield p
    for n, nd in enumerate(plan["nodes"]):
        for j in range(len(nd["store"])):
            p = dict(plan, nodes=[dict(x) for x in plan["nodes"]])
            p["nodes"][n]["store"] = nd["store"][:j] + nd["store"][j + 1:]
            yield p


NOSHRINK = ("chain", "usage", "flip", "certs")
