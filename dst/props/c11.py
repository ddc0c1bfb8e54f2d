"""A key is only ever used within its declared restrictions."""
from .. import cbor, faults, judge, msgs, rcpts, ref, seams
from ..loader import Incarnation
from ..msgs import lib
from ..traffic import MAC_KINDS, SIGN_KINDS, make_spec

ID = "C11"
RULE = ("A run provisions keys with and without restrictions (decoded, built, imported; by number, name or class) in two processes, builds messages and "
        "recipients from them, and then re-provisions keys and uses messages in a seeded order: restrictions are tightened, relaxed, edited in every way a "
        "key can be edited, edited wrongly, stored, reloaded and lost in crashes, keys of the wrong type are put in, and dependencies fail. A permission "
        "model of every key object decides which uses must succeed. Non-trivial: at least one use after an edit; distinct: by the hash of the event log.")
RUNS = {"quick": 2400, "thorough": 60000}
STATE_MEASURE = "distinct (operation, algorithm, restriction kinds of the keys involved, allowed or not, outcome) tuples"
ASSUMPTIONS = ["permitted operations are those of RFC 8152 section 7.1, wrapping also under encrypt and unwrapping under decrypt as the library documents",
               "an empty list of operations is no restriction"]
MUST_REACH = {"quick": ("refused_alg", "refused_ops", "refused_type", "allowed_restricted", "allowed_free", "relaxed_then_used", "tightened_then_refused",
                        "stored_and_reloaded", "crash", "failed_edit", "recipient_refused", "header_key_refused", "inplace", "clone", "signer_refused",
                        "content_key_refused", "retry_after_refusal")}
REAL = ["pycose (all of it, one fresh import per simulated process)", "cbor2", "cryptography/OpenSSL", "ecdsa"]
STUB = ["network (bytes handed over)", "key store (bytes kept by the simulator)", "independent peers", "process crash (fresh import)", "entropy (seeded streams)"]

OPNAME = {1: "SIGN", 2: "VERIFY", 3: "ENCRYPT", 4: "DECRYPT", 5: "WRAP", 6: "UNWRAP", 7: "DERIVE_KEY", 8: "DERIVE_BITS", 9: "MAC_CREATE", 10: "MAC_VERIFY"}
SET_OK = {"sym": {3, 4, 5, 6, 9, 10}, "ec2": {1, 2, 7, 8}, "okp": {1, 2, 7, 8}, "rsa": {1, 2, 7, 8}}
OPS = {"sym": [3, 4, 5, 6, 9, 10], "ec2": [1, 2, 7, 8], "okp": [1, 2], "rsa": [1, 2, 3, 4, 5, 6]}
EDITS = ["alg", "alg", "ops", "ops", "item_alg", "item_alg", "item_ops", "item_ops", "del_alg", "del_ops", "update", "pop", "setdefault", "bad_alg", "bad_ops", "bad_item",
         "inplace", "clone", "alias", "free"]


def key_type(alg):
    """Type of key an algorithm takes."""
    if alg in ref.SIGN_ALGS:
        return {"ES": "ec2", "ED": "okp"}.get(ref.SIGN_ALGS[alg][0], "rsa")
    if alg in ref.OAEP_ALGS:
        return "rsa"
    return "ec2" if alg in ref.DKA_ALGS or alg in ref.KAKW_ALGS else "sym"


def uses_of(spec):
    """(slot, private copy, algorithm) the spec's keys are for."""
    out = []
    if spec["kind"] == "sign":
        return [(s["key"], p, s["alg"]) for s in spec["signers"] for p in (True, False)]
    if spec["key"] is not None:
        out += [(spec["key"], p, spec["alg"]) for p in ((True, False) if spec["kind"] == "sign1" else (True,))]
    for r in spec.get("recipients", []):
        if r["alg"] == ref.DIRECT:
            continue
        out.append((r["key"], True, r["alg"]))
        if r["alg"] in rcpts.ECDH:
            out.append((r["key"], False, r["alg"]))
        for k in ("skey", "eph"):
            if r.get(k) is not None:
                out.append((r[k], True, r["alg"]))
    return out


def gen_restr(rng, t, algs):
    """A restriction: [algorithm or None, operations or None]."""
    x = rng.random()
    alg = gen_alg(rng, algs) if x < .45 else None
    return [alg, gen_ops(rng, t) if .3 < x < .75 else None]


def gen_alg(rng, algs):
    return rng.choice(algs) if algs and rng.random() < .65 else rng.choice([-7, -8, -35, -37, 1, 2, 5, 10, -3, -5, -25, -27, -29, -31, -40, 14, 25, 4])


def gen_ops(rng, t):
    if rng.random() < .15:                  # nearly everything, as a generic tool provisions keys
        return rng.sample(range(1, 11), rng.choice([5, 6, 8, 9, 9, 10]))
    pool = OPS[t] if rng.random() < .9 else list(range(1, 11))
    return rng.sample(pool, rng.choice([1, 1, 1, 2, 2, min(4, len(pool)), 0]) if len(pool) > 1 else 1)


def gen(rng, i, tier):
    keys, shared = [], {}
    ring = rcpts.KeyRing(keys)
    pool = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        kind = rng.choice(["enc0", "mac0", "sign1", "sign1", "sign", "enc", "mac", "enc", "mac"])
        sp = rcpts.gen_spec(rng, ring, kind) if kind in ("enc", "mac") else make_spec(rng, kind, keys, shared)
        sp["payload"], sp["aad"], sp["p"], sp["u"] = sp["payload"][:64], sp["aad"][:32], sp["p"][:1], sp["u"][:1]
        m = {"spec": sp}
        if kind in ("enc", "mac") and rng.random() < .3:
            m["hk"] = [rng.randrange(4), *gen_restr(rng, "ec2", [r["alg"] for r in sp["recipients"]])]
        pool.append(m)
    for t in ("sym", "ec2", "okp", "rsa"):      # something of the wrong type for everyone
        if not any(k["t"] == t for k in keys) and rng.random() < .5:
            keys.append(msgs.gen_sym(rng, 16) if t == "sym" else msgs.gen_ec(rng, 1) if t == "ec2" else msgs.gen_okp(rng, 6) if t == "okp" else msgs.gen_rsa(rng))
    use = {}
    for m in pool:
        for s, p, a in uses_of(m["spec"]):
            use.setdefault((s, p), []).append(a)
    slots = sorted(use)
    prov = [[s, p, rng.choice(["decode", "decode", "named", "from_dict", "ctor", "pem"]), rng.choice(["id", "name", "cls"])] +
            (gen_restr(rng, keys[s]["t"], use[(s, p)]) if rng.random() < .55 else [None, None]) for s, p in slots]
    steps = []
    for n in range(len(pool)):
        steps += [{"a": "make", "m": n}, {"a": "recv", "m": n}]
    rng.shuffle(steps)
    for _ in range(rng.choice([12, 20, 30])):
        x = rng.random()
        m = rng.randrange(len(pool))
        if x < .36:
            s, p = rng.choice(slots)
            steps.append(gen_edit(rng, s, p, keys[s]["t"], use[(s, p)]))
        elif x < .58:
            steps.append({"a": "send", "m": m})
        elif x < .80:
            steps.append({"a": "open", "m": m, "i": rng.randrange(4), "how": rng.choice(["all", "all", "cek"])})
        elif x < .84:
            steps.append({"a": rng.choice(["make", "recv"]), "m": m})
        elif x < .90:
            s, p = rng.choice(slots)
            steps.append({"a": rng.choice(["save", "load"]), "p": rng.randrange(2), "k": s, "priv": p})
        elif x < .93:
            steps.append({"a": "crash", "p": rng.randrange(2)})
        else:
            steps.append({"a": "rekey", "m": m, "p": rng.randrange(2), "i": rng.randrange(6), "k": rng.randrange(len(keys)), "back": rng.random() < .6, "decl": rng.random() < .4})
        if steps[-1]["a"] in ("send", "open") and rng.random() < .1:
            steps[-1]["fault"] = faults.gen(rng, 8)
    return {"keys": keys, "pool": pool, "prov": prov, "wseed": rng.randrange(1 << 40), "steps": steps}


def gen_edit(rng, s, p, t, algs):
    return {"a": "edit", "p": rng.randrange(2), "k": s, "priv": p, "how": rng.choice(EDITS), "alg": gen_alg(rng, algs), "ops": gen_ops(rng, t),
            "spell": rng.choice(["cls", "id", "name"]), "vs": rng.choice(["cls", "id", "name"]), "x": rng.randrange(8)}


class Rec:
    """Model of one key object: what it is and what it may be used for."""

    def __init__(self, obj, t, alg=None, ops=None):
        self.obj, self.t, self.alg, self.ops = obj, t, alg, list(ops) if ops else None
        self.history = set()

    def why_not(self, t, alg, need):
        if self.t != t:
            return "type"
        if self.alg is not None and self.alg != alg:
            return "alg"
        if self.ops and not set(self.ops) & need:
            return "ops"
        return None

    def kind(self):
        return ("a" if self.alg is not None else "") + ("o" if self.ops else "")


class Sim:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.incs = [Incarnation(), Incarnation()]
        self.maps = [ref.key_map(k) for k in plan["keys"]]
        self.disk = {}
        for s, p, how, spell, alg, ops in plan["prov"]:
            self.disk[(s, p)] = (alg, ops)
        self.store = {}
        self.prov = {(s, p): (how, spell) for s, p, how, spell, _, _ in plan["prov"]}
        self.live = [{}, {}]
        for p in range(2):
            self.boot(p)
        self.wires, self.hk = [], []
        for n, m in enumerate(plan["pool"]):
            w = msgs.ref_send(m["spec"], lambda i: self.maps[i], ("w%d/%d" % (plan["wseed"], n)).encode())
            self.hk.append({})
            if m.get("hk"):
                w = self.patch(n, w, *m["hk"])
            self.wires.append(w)
        self.made = [None] * len(plan["pool"])
        self.recd = [None] * len(plan["pool"])

    def patch(self, n, w, i, alg, ops):
        """Restrictions declared by the sender's key inside a recipient's header."""
        t = cbor.dec(w)
        rl = t.value[-1]
        i %= len(rl)
        for lab in (-1, -2):
            if isinstance(rl[i][1].get(lab), dict):
                if alg is not None:
                    rl[i][1][lab][3] = alg
                if ops is not None:
                    rl[i][1][lab][4] = ops
                self.hk[n][i] = (alg, ops)
        return cbor.enc(t)

    # ------------------------------ keys
    def boot(self, p):
        self.live[p] = {k: self.load(p, *k) for k in self.disk}

    def load(self, p, s, priv):
        """A fresh object from what the store has."""
        inc = self.incs[p].activate()
        alg, ops = self.disk[(s, priv)]
        how, spell = self.prov[(s, priv)]
        if (s, priv) in self.store:
            obj = inc.keys.CoseKey.decode(self.store[(s, priv)])
        else:
            obj = self.build(inc, self.plan["keys"][s], priv, how, spell, alg, ops)
        return Rec(obj, self.plan["keys"][s]["t"], alg, ops)

    def build(self, inc, k, priv, how, spell, alg, ops):
        m = ref.key_map(k, priv)
        t = k["t"]
        opt = {}
        if alg is not None:
            opt[self.label(inc, t, 3, spell)] = self.alg(inc, alg, spell)
        if ops is not None:
            opt[self.label(inc, t, 4, spell)] = [self.opn(inc, o, spell) for o in ops]
        if how == "named":
            names = {4: {-1: "K"}, 2: {-1: "CURVE", -2: "X", -3: "Y", -4: "D"}, 1: {-1: "CURVE", -2: "X", -4: "D"}}.get(m[1], {})
            return inc.keys.CoseKey.from_dict({**{names.get(a, a) if a != 1 else "KTY": b for a, b in m.items()}, **opt})
        if how == "from_dict":
            return inc.keys.CoseKey.from_dict({**m, **opt})
        if how == "ctor" and t != "rsa":
            if t == "sym":
                return inc.keys.SymmetricKey(k=m[-1], optional_params=opt)
            c = inc.curves.CoseCurve.from_id(m[-1])
            kw = {"d": m[-4]} if priv else {}
            if t == "ec2":
                return inc.keys.EC2Key(crv=c, x=m[-2], y=m[-3], optional_params=opt, **kw)
            return inc.keys.OKPKey(crv=c, x=m[-2], optional_params=opt, **kw)
        if how == "pem" and t != "sym":
            pem = pem_of(k, priv)
            f = inc.keys.CoseKey.from_pem_private_key if priv else inc.keys.CoseKey.from_pem_public_key
            return f(pem, optional_params=opt)
        if alg is not None:
            m[3] = ref.NAMES.get(alg, alg) if spell == "name" else alg
        if ops is not None:
            m[4] = [OPNAME[o] if spell == "name" else o for o in ops]
        return inc.keys.CoseKey.decode(cbor.enc(m))

    def label(self, inc, t, n, spell):
        c = inc.keyparam.KpAlg if n == 3 else inc.keyparam.KpKeyOps
        return c if spell == "cls" else n if spell == "id" else c.fullname

    def alg(self, inc, a, spell):
        c = inc.algorithms.CoseAlgorithm.from_id(a)
        return c if spell == "cls" else a if spell == "id" else c.fullname

    def opn(self, inc, o, spell):
        return o if spell == "id" else OPNAME[o] if spell == "name" else inc.keyops.KeyOps.from_id(o)

    def check(self, rec, what):
        """The key says about itself what the model says."""
        o = rec.obj
        a = msgs.plain_val(o.alg)
        ops = [msgs.plain_val(x) for x in o.key_ops]
        if a != rec.alg or ops != (rec.ops or []):
            self.ctx.violate("restriction", "after %s a key declares algorithm %r and operations %r, should be %r and %r" % (what, a, ops, rec.alg, rec.ops or []))

    # ------------------------------ steps
    def go(self):
        for n, st in enumerate(self.plan["steps"]):
            self.ctx.now += 1000
            seams.S.entropy = seams.Stream(self.plan["seed"], "step%d" % n)
            getattr(self, "do_" + st["a"])(st)

    def do_edit(self, st):
        ctx, p = self.ctx, st["p"]
        slot = (st["k"], st["priv"])
        rec = self.live[p].get(slot)
        if rec is None:
            return
        inc, o, t = self.incs[p].activate(), rec.obj, rec.t
        la, lo = self.label(inc, t, 3, st["spell"]), self.label(inc, t, 4, st["spell"])
        va, vo = self.alg(inc, st["alg"], st["vs"]), [self.opn(inc, x, st["vs"]) for x in st["ops"]]
        how, fail = st["how"], False
        na, no = rec.alg, rec.ops
        if how == "alg":
            fn, na = (lambda: setattr(o, "alg", va)), st["alg"]
        elif how == "ops":
            fn, no = (lambda: setattr(o, "key_ops", vo)), st["ops"]
            fail = not set(st["ops"]) <= SET_OK[t]
        elif how == "item_alg":
            fn, na = (lambda: o.__setitem__(la, va)), st["alg"]
        elif how == "item_ops":
            fn, no = (lambda: o.__setitem__(lo, vo)), st["ops"]
        elif how == "del_alg":
            fn, na, fail = (lambda: o.__delitem__(la)), None, rec.alg is None
        elif how == "del_ops":
            if rec.ops is None and rec.obj is not None and inc.keyparam.KpKeyOps in o:
                return                      # an empty list is stored; whether it can be deleted is C08's business
            fn, no, fail = (lambda: o.__delitem__(lo)), None, rec.ops is None
        elif how == "update":
            fn, na, no = (lambda: o.update({la: va, lo: vo})), st["alg"], st["ops"]
        elif how == "pop":
            fn, na = (lambda: o.pop(la, None)), None
        elif how == "setdefault":
            fn, na = (lambda: o.setdefault(la, va)), rec.alg if rec.alg is not None else st["alg"]
        elif how == "bad_alg":
            fn, fail = (lambda: setattr(o, "alg", [99999, "NO SUCH ALG", None][st["x"] % 3])), True
        elif how == "bad_ops":
            fn, fail = (lambda: setattr(o, "key_ops", [vo + [99], "SIGN", vo + ["NO SUCH OP"], None][st["x"] % 4])), True
        elif how == "bad_item":
            fn, fail = (lambda: o.__setitem__(*[(la, 99999), (lo, vo + [99]), (la, "NONE"), (lo, [77])][st["x"] % 4])), True
        elif how == "inplace":
            if not rec.ops:
                return
            new = st["ops"][:1]
            if st["x"] % 2 or not new:
                fn, no = (lambda: o.key_ops.pop()), rec.ops[:-1]
            else:
                fn, no = (lambda: o.key_ops.append(inc.keyops.KeyOps.from_id(new[0]))), rec.ops + new
            ctx.probe("inplace")
        elif how == "clone":
            r = lib(ctx, lambda: inc.keys.CoseKey.from_dict(dict(o)))
            if not r.ok:
                ctx.violate("clone", "a key cannot be copied: %r" % r)
            self.live[p][slot] = Rec(r.val, t, rec.alg, rec.ops)
            ctx.probe("clone")
            return self.check(self.live[p][slot], "copying")
        elif how == "alias":
            def fn():
                o.key_ops = vo
                vo.append(vo[0] if vo else 1)       # the caller's list is the caller's
            fail, no = not set(st["ops"]) <= SET_OK[t], st["ops"]
        else:
            def fn():
                if inc.keyparam.KpAlg in o:
                    del o[la]
                o.key_ops = []
            na, no = None, []
        r = lib(ctx, fn)
        ctx.log("edit", p, st["k"], how, r.ok)
        if fail:
            if r.ok:
                ctx.violate("bad-edit", "the wrong edit %s (%r, %r) was accepted" % (how, st["alg"], st["ops"]))
            ctx.probe("failed_edit")
            ctx.fault("failed_edit")
        elif not r.ok:
            ctx.violate("edit", "edit %s of a %s key (%r, %r) failed: %r" % (how, t, st["alg"], st["ops"], r))
        else:
            rec.alg, rec.ops = na, list(no) if no else None
            rec.history.add("edited")
            ctx.fault("restriction_edited")
        self.check(rec, "edit " + how)

    def do_save(self, st):
        slot = (st["k"], st["priv"])
        rec = self.live[st["p"]].get(slot)
        if rec is None:
            return
        self.incs[st["p"]].activate()
        r = lib(self.ctx, rec.obj.encode)
        if not r.ok:
            self.ctx.violate("store", "a key cannot be stored: %r" % r)
        self.store[slot], self.disk[slot] = r.val, (rec.alg, list(rec.ops) if rec.ops else None)
        self.ctx.log("save", st["p"], st["k"], r.val[-8:].hex())

    def do_load(self, st):
        slot = (st["k"], st["priv"])
        if slot not in self.disk:
            return
        if slot in self.store:
            self.ctx.probe("stored_and_reloaded")
        self.live[st["p"]][slot] = rec = self.load(st["p"], *slot)
        self.check(rec, "reloading")

    def do_crash(self, st):
        p = st["p"]
        self.incs[p] = Incarnation()
        self.boot(p)
        for rec in self.live[p].values():
            self.check(rec, "a restart")
        for x in (self.made, self.recd):
            for n, o in enumerate(x):
                if o is not None and o["p"] == p:
                    x[n] = None
        self.ctx.probe("crash")
        self.ctx.fault("crash")

    # ------------------------------ messages
    def do_make(self, st):
        """The sender (process 0) builds the message from the key objects it has now."""
        n, p = st["m"], 0
        sp, inc, L = self.plan["pool"][n]["spec"], self.incs[0].activate(), self.live[0]
        got = []

        def keyof(i, priv=True):
            got.append((i, priv))
            return L[(i, priv)].obj
        if sp["kind"] in ("enc", "mac"):
            o = rcpts.build(inc, sp, [msgs.lib_rcpt(inc, r, keyof) for r in sp["recipients"]], keyof)
        else:
            o = msgs.lib_build(inc, sp, keyof)
        M = {"p": p, "obj": o, "refs": {}, "tried": False}
        if sp["kind"] == "sign":
            for i, s in enumerate(sp["signers"]):
                M["refs"][("s", i)] = L[(s["key"], True)]
        elif sp["key"] is not None:
            M["refs"]["key"] = L[(sp["key"], True)]
        for i, r in enumerate(sp.get("recipients", [])):
            if r["alg"] in ref.KW_ALGS or r["alg"] in ref.OAEP_ALGS:
                M["refs"][("r", i)] = L[(r["key"], True)]
            elif r["alg"] != ref.DIRECT:
                M["refs"][("p", i)] = L[(r["key"], False)]
                k = r.get("skey") if r.get("skey") is not None else r.get("eph")
                if k is not None:
                    M["refs"][("r", i)] = L[(k, True)]
        self.made[n] = M

    def do_recv(self, st):
        """The receiver (process 1) has the message and its keys at hand."""
        n, p = st["m"], 1
        sp, inc, L = self.plan["pool"][n]["spec"], self.incs[1].activate(), self.live[1]
        o = inc.messages.CoseMessage.decode(self.wires[n])
        M = {"p": p, "obj": o, "refs": {}, "tried": False}
        if sp["kind"] == "sign":
            for i, s in enumerate(sp["signers"]):
                M["refs"][("s", i)] = L[(s["key"], False)]
                o.signers[i].external_aad = bytes.fromhex(s["aad"])
        elif sp["key"] is not None:
            M["refs"]["key"] = L[(sp["key"], sp["kind"] not in SIGN_KINDS)]
        for i, r in enumerate(sp.get("recipients", [])):
            if r["alg"] != ref.DIRECT:
                M["refs"][("r", i)] = L[(r["key"], True)]
                if r["alg"] in rcpts.ECDH:
                    M["refs"][("h", i)] = Rec(None, "ec2", *self.hk[n].get(i, (None, None)))
        if sp["kind"] != "sign":
            o.external_aad = bytes.fromhex(sp["aad"])
        self.recd[n] = M

    def holder(self, M, sp, ref_):
        o = M["obj"]
        return o if ref_ == "key" else o.signers[ref_[1]] if ref_[0] == "s" else o.recipients[ref_[1]]

    def do_rekey(self, st):
        """Another key is put in: one of another type, or the current object of the right one."""
        M = (self.made if st["p"] == 0 else self.recd)[st["m"]]
        if M is None:
            return
        sp, p = self.plan["pool"][st["m"]]["spec"], M["p"]
        inc, L = self.incs[p].activate(), self.live[p]
        refs = sorted([r for r in M["refs"] if r == "key" or r[0] != "h"], key=repr)
        if not refs:
            return
        rf = refs[st["i"] % len(refs)]
        slot, need = self.right(sp, rf, p)
        if st["back"]:
            rec = L[slot]
        else:
            t = self.plan["keys"][st["k"]]["t"]
            if t == need:
                return
            a = self.algorithm(sp, rf) if st["decl"] else None
            rec = (None if st["decl"] else L.get((st["k"], True))) or Rec(self.build(inc, self.plan["keys"][st["k"]], True, "decode", "id", a, None), t, a)
        M["refs"][rf] = rec
        h = self.holder(M, sp, rf)
        if rf != "key" and rf[0] == "p":
            h.local_attrs = {inc.headers.StaticKey: rec.obj}
        else:
            h.key = rec.obj
        self.ctx.log("rekey", st["m"], rf, rec.t)
        self.ctx.fault("rekeyed")

    def algorithm(self, sp, rf):
        return sp["alg"] if rf == "key" else sp["signers" if rf[0] == "s" else "recipients"][rf[1]]["alg"]

    def right(self, sp, rf, p):
        if rf == "key":
            return (sp["key"], p == 0 or sp["kind"] not in SIGN_KINDS), key_type(sp["alg"])
        if rf[0] == "s":
            s = sp["signers"][rf[1]]
            return (s["key"], p == 0), key_type(s["alg"])
        r = sp["recipients"][rf[1]]
        if rf[0] == "p":
            return (r["key"], False), "ec2"
        if p == 0 and r["alg"] in rcpts.ECDH:
            return (r["skey"] if r.get("skey") is not None else r["eph"], True), "ec2"
        return (r["key"], True), key_type(r["alg"])

    def judge(self, st, n, what, needs, r, fired, M):
        """needs: (ref, record, algorithm, operations)."""
        ctx = self.ctx
        bad = None
        for rf, rec, alg, ops in needs:
            w = rec.why_not(key_type(alg), alg, ops)
            if w:
                bad = (w, rf, rec, alg)
                break
        ok = r.ok and r.val is not False
        kinds = "+".join(sorted(x[1].kind() for x in needs))
        ctx.log(st["a"], n, what, "refuse" if bad else "allow", ok)
        ctx.state(what, needs[-1][2] if needs else None, kinds, bad and bad[0], ok)
        if bad:
            w, rf, rec, alg = bad
            if ok:
                ctx.violate("used-against-restriction", "%s succeeded although the key of %s (%s, declared algorithm %r, operations %r) does not permit it (%s) for algorithm %s" % (
                    what, rf, rec.t, rec.alg, rec.ops, w, alg))
            ctx.probe("refused_" + w)
            ctx.probe("header_key_refused" if rf != "key" and rf[0] == "h" else "signer_refused" if rf != "key" and rf[0] == "s" else
                      "content_key_refused" if rf == "key" else "recipient_refused")
            if "used" in rec.history:
                ctx.probe("tightened_then_refused")
            rec.history.add("refused")
            M["tried"] = True
        else:
            if not ok and not fired:
                ctx.violate("refused-without-reason", "%s failed although every key involved permits it: %r (%s)" % (
                    what, r, [(x[0], x[1].t, x[1].alg, x[1].ops, x[2]) for x in needs]))
            if ok:
                ctx.probe("allowed_restricted" if any(x[1].kind() for x in needs) else "allowed_free")
                for x in needs:
                    if "refused" in x[1].history:
                        ctx.probe("relaxed_then_used")
                    x[1].history.add("used")
                if M["tried"]:
                    ctx.probe("retry_after_refusal")
        for x in needs:
            if x[1].obj is not None:
                self.check(x[1], what)
        return ok and not bad

    def do_send(self, st):
        n = st["m"]
        M = self.made[n]
        if M is None:
            return
        self.incs[0].activate()
        sp, o, refs = self.plan["pool"][n]["spec"], M["obj"], M["refs"]
        kind = sp["kind"]
        needs = []
        if kind == "sign":
            needs = [(("s", i), refs[("s", i)], s["alg"], {1}) for i, s in enumerate(sp["signers"])]
        elif kind in ("sign1", "mac0", "enc0") or sp["recipients"][0]["alg"] == ref.DIRECT:
            needs = [("key", refs["key"], sp["alg"], {1} if kind == "sign1" else {9} if kind in MAC_KINDS else {3})]
        else:
            for i, r in enumerate(sp["recipients"]):
                if r["alg"] in rcpts.ECDH:
                    needs.append((("p", i), refs[("p", i)], r["alg"], {7, 8}))
                    if ("r", i) in refs:
                        needs.append((("r", i), refs[("r", i)], r["alg"], {7, 8}))
                else:
                    needs.append((("r", i), refs[("r", i)], r["alg"], {3, 5}))
        r, fired = faults.run(self.ctx, st.get("fault"), msgs.lib_encode, o, sp)
        if self.judge(st, n, "encoding of %s" % kind, needs, r, fired, M):
            e = judge.reason(sp, r.val, self.maps)
            if e is not None:
                self.ctx.violate("wrong-result", "the %s message encoded with permitted keys is not what an independent receiver accepts: %r" % (kind, e))

    def do_open(self, st):
        n = st["m"]
        M = self.recd[n]
        if M is None:
            return
        inc = self.incs[1].activate()
        sp, o, refs = self.plan["pool"][n]["spec"], M["obj"], M["refs"]
        kind = sp["kind"]
        payload = bytes.fromhex(sp["payload"])
        kw = {"detached_payload": payload} if sp["detached"] else {}
        if kind == "sign":
            for i, s in enumerate(sp["signers"]):
                o.signers[i].key = refs[("s", i)].obj
                r, fired = faults.run(self.ctx, st.get("fault"), o.signers[i].verify_signature, **kw)
                self.judge(st, n, "verification of a signer", [(("s", i), refs[("s", i)], s["alg"], {2})], r, fired, M)
            return
        if kind in ("sign1", "mac0", "enc0"):
            o.key = refs["key"].obj
            fn = (lambda: o.verify_signature(**kw)) if kind == "sign1" else o.verify_tag if kind == "mac0" else o.decrypt
            r, fired = faults.run(self.ctx, st.get("fault"), fn)
            ok = self.judge(st, n, "opening of %s" % kind, [("key", refs["key"], sp["alg"], {2} if kind == "sign1" else {10} if kind == "mac0" else {4})], r, fired, M)
            if ok and kind == "enc0" and r.val != payload:
                self.ctx.violate("wrong-result", "decrypting gives something else")
            return
        i = st["i"] % len(sp["recipients"])
        rs = sp["recipients"][i]
        sup = bytes.fromhex(rs.get("supp_pub", "")), bytes.fromhex(rs.get("supp_priv", ""))
        if rs["alg"] == ref.DIRECT:
            needs = [("key", refs["key"], sp["alg"], {4} if kind == "enc" else {10})]
            key = refs["key"].obj
        else:
            key = refs[("r", i)].obj
            needs = []
            if rs["alg"] in rcpts.ECDH:
                needs.append((("h", i), refs[("h", i)], rs["alg"], {7, 8}))
            needs.append((("r", i), refs[("r", i)], rs["alg"], {7, 8} if rs["alg"] in rcpts.ECDH else {4, 6}))
        if st["how"] == "cek" and rs["alg"] != ref.DIRECT:
            def fn():
                ro = o.recipients[i]
                ro.key = key
                la = {k: v for k, v in zip((inc.headers.SuppPubOther, inc.headers.SuppPrivOther), sup) if v}
                if la:
                    ro.local_attrs = la
                return ro.compute_cek(o.get_attr(inc.headers.Algorithm), "decrypt").k
            r, fired = faults.run(self.ctx, st.get("fault"), fn)
            self.judge(st, n, "recovery of the content key by recipient %s" % rs["alg"], needs, r, fired, M)
            return

        def fn():
            try:
                return rcpts.lib_open(inc, None, i, rs, key, bytes.fromhex(sp["aad"]), *sup, o)[0]
            except rcpts.Rejected:
                return False
        r, fired = faults.run(self.ctx, st.get("fault"), fn)
        if self.judge(st, n, "opening of %s by recipient %s" % (kind, rs["alg"]), needs, r, fired, M) and r.val != payload:
            self.ctx.violate("wrong-result", "opening gives something else")


def pem_of(k, priv):
    from cryptography.hazmat.primitives import serialization as ser
    from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519
    if k["t"] == "ec2":
        sk = ec.derive_private_key(int.from_bytes(bytes.fromhex(k["d"]), "big"), ref.CURVES[k["crv"]])
    elif k["t"] == "okp":
        sk = (ed25519.Ed25519PrivateKey if k["crv"] == 6 else ed448.Ed448PrivateKey).from_private_bytes(bytes.fromhex(k["d"]))
    else:
        n, e, d, p, q = ref.rsa_ints(k["i"])
        sk = ref.real.get("RSAPrivateNumbers")(p, q, d, d % (p - 1), d % (q - 1), pow(q, -1, p), ref.real.get("RSAPublicNumbers")(e, n)).private_key()
    if priv:
        return sk.private_bytes(ser.Encoding.PEM, ser.PrivateFormat.PKCS8, ser.NoEncryption()).decode()
    return sk.public_key().public_bytes(ser.Encoding.PEM, ser.PublicFormat.SubjectPublicKeyInfo).decode()


def run(plan, ctx):
    Sim(plan, ctx).go()


def reduce(plan):
    for si, st in enumerate(plan["steps"]):
        if st.get("fault"):
            q = list(plan["steps"])
            q[si] = {x: y for x, y in st.items() if x != "fault"}
            yield {**plan, "steps": q}
    for pi, p in enumerate(plan["prov"]):
        if p[4] is not None or p[5] is not None:
            q = list(plan["prov"])
            q[pi] = p[:4] + [None, None]
            yield {**plan, "prov": q}
