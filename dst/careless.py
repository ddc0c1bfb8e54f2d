"""A careless caller: half-filled objects, contradictory settings, wrong keys, failing dependencies. Used by C17, which watches."""
from . import faults, msgs, rcpts, ref
from .loader import Incarnation
from .msgs import lib
from .plain import u
from .traffic import make_spec

CUTS = ("key", "alg", "iv", "payload", "rkey", "static", "rcpts", "ops")
PRIVATE_HDR = ("none", "none", "static", "eph")


def fault(rng, span, rcpts=()):
    """Mostly where secrets pass: the callers of these dependencies are the ones tempted to carry on without them."""
    f = faults.gen(rng, span)
    f["kind"] = rng.choice(["mem", "err", "io", "val", "val", "val"])
    if rng.random() < .6:
        wraps = any(r["alg"] in ref.KW_ALGS or r["alg"] in ref.KAKW_ALGS for r in rcpts)
        f["site"] = rng.choice(["kw"] * 6 * wraps + ["aead", "hkdf", "rsa", "ec", "okp", "cipher"])
        f["n"] = rng.choice([0, 0, 0, 1])
    return f


def gen(rng, i, tier):
    keys, shared, specs = [], {}, []
    ring = rcpts.KeyRing(keys)
    steps, n = [], 0
    for _ in range(rng.choice([6, 10, 14])):
        x = rng.random()
        if x < .4 or not n:
            kind = rng.choice(["enc0", "enc0", "enc", "enc", "enc", "mac", "mac0", "sign1", "sign"])
            sp = rcpts.gen_spec(rng, ring, kind) if kind in ("enc", "mac") else make_spec(rng, kind, keys, shared)
            sp["payload"] = (sp["payload"] + rng.randbytes(24).hex())[-1200:]
            cut = rng.sample(CUTS, rng.choice([0, 0, 0, 1, 1, 2]))
            cek = rng.randbytes(rng.choice([16, 16, 24, 32, 20])).hex() if rng.random() < .2 else None
            steps.append({"op": "new", "spec": sp, "cut": cut, "cek": cek, "hdrkey": rng.choice(PRIVATE_HDR), "arg": rng.randrange(1000)})
            specs.append(sp)
            n += 1
        elif x < .7:
            f = None
            o = rng.randrange(n)
            if rng.random() < .6:
                f = fault(rng, 10, specs[o].get("recipients", ()))
            steps.append({"op": "enc", "o": o, "f": f, "tag": rng.random() < .7})
        elif x < .82:
            steps.append({"op": "set", "o": rng.randrange(n), "what": rng.choice(["key", "anykey", "payload", "aad", "iv", "rkey", "rcpts", "alg"]),
                          "arg": rng.randrange(1000), "val": rng.randbytes(rng.choice([16, 24, 40])).hex()})
        elif x < .96:
            f = None
            if rng.random() < .4:
                f = fault(rng, 8)
            steps.append({"op": "open", "w": rng.randrange(100), "key": rng.choice(["right", "right", "any", "none"]), "arg": rng.randrange(1000),
                          "cut": rng.choice([0, 0, 0, 1, 8, 30]), "f": f, "again": rng.random() < .4})
        else:
            steps.append({"op": "restart"})
    return {"keys": keys, "steps": steps}


class World:
    def __init__(self, plan, ctx):
        self.ctx, self.plan = ctx, plan
        self.objs, self.wire = {}, []
        self.boot()

    def boot(self):
        self.inc = Incarnation()
        self.inc.activate()
        self.held = {}

    def key(self, i, private=True):
        k = (i, private)
        if k not in self.held:
            self.held[k] = msgs.lib_key(self.inc, msgs.key_bytes(self.plan["keys"][i], private))
        return self.held[k]

    def fill(self, st):
        """The object as the careless caller builds it."""
        inc, H = self.inc, self.inc.headers
        sp = dict(st["spec"])
        cut = st["cut"]
        if "alg" in cut:
            sp["alg"] = None
        if "iv" in cut:
            sp.pop("iv", None)
        if "key" in cut:
            sp["key"] = None
        if "payload" in cut:
            sp["payload"] = ""
        if sp["kind"] in ("enc", "mac") and "rcpts" in cut:
            sp["recipients"] = []
        if sp["kind"] == "sign" and "key" in cut:
            sp["signers"] = sp["signers"][:0]
        m = msgs.lib_build(inc, sp, self.key)
        for k, r in enumerate(getattr(m, "recipients", [])):
            rs = sp["recipients"][k]
            if "rkey" in cut and k == st["arg"] % len(m.recipients):
                r.key = None
            if "static" in cut:
                r.local_attrs.pop(H.StaticKey, None)
            if st["cek"] and rs["alg"] != ref.DIRECT:
                r.payload = bytes.fromhex(st["cek"])
            full = rs.get("skey", rs.get("eph"))
            if st["hdrkey"] != "none" and full is not None:
                r.uhdr_update({H.StaticKey if st["hdrkey"] == "static" else H.EphemeralKey: self.key(full)})
        if "ops" in cut and getattr(m, "key", None) is not None:
            m.key.key_ops = [msgs.OPS[self.plan["keys"][sp["key"]]["t"]][st["arg"] % 4]]
        return m

    def new(self, st, n):
        r = lib(self.ctx, self.fill, st)
        self.ctx.log("new", st["spec"]["kind"], r.ok or type(r.exc).__name__)
        if r.ok:
            self.objs[n] = (r.val, st["spec"])

    def enc(self, st):
        m, sp = self.objs[st["o"]]
        kw = {"tag": st["tag"]}
        if sp["detached"]:
            kw["detached_payload"] = bytes.fromhex(sp["payload"])
        r, fired = faults.run(self.ctx, st["f"], m.encode, **kw)
        self.ctx.log("enc", fired, r.ok or type(r.exc).__name__)
        if fired:
            self.ctx.probe("careless_fault")
        if r.ok:
            self.wire.append((r.val, sp))
        else:
            self.ctx.probe("careless_refused")
        self.ctx.state("careless", sp["kind"], r.ok or type(r.exc).__name__, bool(fired))

    def set(self, st):
        m, sp = self.objs[st["o"]]
        H, w, v = self.inc.headers, st["what"], bytes.fromhex(st["val"])
        ks = self.plan["keys"]

        def do():
            if w == "key" and sp.get("key") is not None:
                m.key = self.key(sp["key"])
            elif w == "anykey" and ks:
                m.key = self.key(st["arg"] % len(ks))
            elif w == "payload":
                m.payload = v
            elif w == "aad":
                m.external_aad = v
            elif w == "iv":
                m.uhdr_update({H.IV: v[:12 + st["arg"] % 2]})
            elif w == "alg":
                m.phdr_update({H.Algorithm: sp["alg"]})
            elif w in ("rkey", "rcpts") and getattr(m, "recipients", None):
                if w == "rcpts":
                    m.recipients = m.recipients[1:]
                elif ks:
                    m.recipients[0].key = self.key(st["arg"] % len(ks))
        r = lib(self.ctx, do)
        self.ctx.log("set", w, r.ok or type(r.exc).__name__)

    def open(self, st):
        if not self.wire:
            return
        b, sp = self.wire[st["w"] % len(self.wire)]
        if st["cut"]:
            b = b[:-st["cut"]]
        ks = self.plan["keys"]

        def pick(right):
            i = {"right": right, "any": st["arg"] % len(ks) if ks else None, "none": None}[st["key"]]
            return None if i is None else self.key(i)

        def do():
            m = self.inc.messages.CoseMessage.decode(b)
            n = type(m).__name__
            if n == "SignMessage":
                for s, x in zip(m.signers, sp["signers"]):
                    s.key = pick(x["key"])
                    s.verify_signature()
                return m
            if n in ("EncMessage", "MacMessage") and m.recipients:
                i = st["arg"] % len(m.recipients)
                rs = sp["recipients"][i % len(sp["recipients"])] if sp["recipients"] else {"key": None}
                m.recipients[i].key = m.key = pick(rs["key"])
            else:
                m.key = pick(sp.get("key"))
            for _ in range(1 + st["again"]):
                if n == "EncMessage":
                    m.decrypt(m.recipients[st["arg"] % len(m.recipients)])
                elif n == "Enc0Message":
                    m.decrypt()
                elif n == "Sign1Message":
                    m.verify_signature()
                else:
                    m.verify_tag()
            return m
        r, fired = faults.run(self.ctx, st["f"], do)
        self.ctx.log("open", fired, r.ok or type(r.exc).__name__)
        self.ctx.probe("careless_open" if r.ok else "careless_not_opened")


def run(plan, ctx):
    w = World(plan, ctx)
    n = 0
    for st in plan["steps"]:
        ctx.now += 1000
        op = st["op"]
        if op == "new":
            w.new(st, n)
            n += 1
        elif op == "restart":
            ctx.fault("crash")
            w.boot()
            w.objs.clear()
        elif op == "open":
            w.open(st)
        elif st["o"] in w.objs:
            (w.enc if op == "enc" else w.set)(st)
