"""A failed operation never leaves a wrong result behind."""
from .. import cbor, faults, msgs, mutate, rcpts, ref, seams
from ..msgs import lib
from ..plain import canon, j, u
from ..traffic import Traffic, make_spec, SIGN_KINDS, MAC_KINDS, ENC_KINDS
from ..traffic import reduce as traffic_reduce
from ..loader import Incarnation

ID = "C06"
RULE = ("A run is a seeded history of one long-lived process that creates, edits, encodes, decodes, verifies and decrypts messages of all kinds "
        "and generates, stores and loads keys, while calls into the random source, OpenSSL, ecdsa and the serialiser fail: at one seeded call, "
        "from one call on, at calls into one dependency, or at every call in turn; each operation is then retried on the same objects. "
        "Non-trivial: at least one injected failure reached the library; distinct: by the hash of the event log.")
RUNS = {"quick": 1600, "thorough": 24000}
STATE_MEASURE = "distinct (operation, message kind, algorithm, failing dependency site, outcome) tuples"
ASSUMPTIONS = ["a failing dependency raises (MemoryError, OSError, NotImplementedError or the backend's InternalError) and has no other effect",
               "the reference peer implements RFC 8152 correctly"]
MUST_REACH = {"quick": ("retried_encode", "retried_open", "retried_decode", "retried_keygen", "sweep", "verify_under_fault", "bad_under_fault", "reopened", "crash")}


def gen(rng, i, tier):
    keys, shared = [], {}
    ring = rcpts.KeyRing(keys)
    steps, mids, own = [], [], []
    frate = rng.choice([.3, .6, .9])

    def fl(span):
        if rng.random() > frate:
            return []
        if rng.random() < .3:
            return ["sweep"]
        return [faults.gen(rng, span) for _ in range(rng.choice([1, 1, 2, 3]))]
    mid = 0
    for _ in range(rng.choice([4, 7, 10])):
        x = rng.random()
        if x < .45 or not mids:
            mid += 1
            kind = rng.choice(["enc0", "mac0", "sign1", "enc", "mac", "sign", "enc", "mac"])
            if kind in ("enc", "mac"):
                sp = rcpts.gen_spec(rng, ring, kind)
            else:
                sp = make_spec(rng, kind, keys, shared)
                sp["payload"] = sp["payload"][:2000]
            frm = "ref" if rng.random() < .15 else "lib"
            steps.append({"op": "send", "mid": mid, "spec": sp, "from": frm, "bf": fl(4), "ef": fl(16)})
            mids.append(mid)
            if frm == "lib":
                own.append(mid)
        elif x < .58 and own:
            steps.append({"op": "again", "mid": rng.choice(own), "what": rng.choice(["none", "payload", "aad", "phdr", "uhdr"]),
                          "val": rng.randbytes(rng.choice([1, 9, 30])).hex(), "ef": fl(16)})
        elif x < .88:
            st = {"op": "recv", "mid": rng.choice(mids), "df": fl(5), "of": fl(10), "dec": rng.choice(["any", "cls"]),
                  "how": rng.choice(["right", "right", "right", "aad", "key", "dmg"]), "i": rng.randrange(4), "arg": rng.randrange(1000),
                  "hold": rng.random() < .4}
            if st["how"] == "dmg":
                st["dmg"] = [mutate.gen(rng, rng.choice(["sign1", "mac0", "enc0", "enc"]), mids)]
            steps.append(st)
        elif x < .91:
            # an object that was received and opened before is opened again
            steps.append({"op": "reopen", "n": rng.randrange(8), "of": fl(10), "how": rng.choice(["right", "right", "aad", "key", "key"]),
                          "i": rng.randrange(4), "arg": rng.randrange(1000)})
        elif x < .96:
            t = rng.choice(["sym", "ec2", "okp", "rsa"])
            steps.append({"op": "key", "t": t, "arg": rng.randrange(1000), "f": fl(4)})
        else:
            steps.append({"op": "crash"})
    # keys nobody protects anything under
    for n in (16, 24, 32):
        keys.append({**msgs.gen_sym(rng, n), "_n": n, "_use": "other"})
    keys.append(msgs.gen_ec(rng, rng.choice([1, 2, 3])))
    return {"keys": keys, "nodes": [{"impl": "lib"}], "steps": steps}


ALL = ("phdr", "uhdr", "payload", "external_aad")


def snap_key(k):
    return None if k is None else canon(msgs.plain_val(k.store) if hasattr(k, "store") else msgs.plain_val(dict(k)))


def snap(o):
    """What a caller can see of a message, recipient or signer object."""
    out = [type(o).__name__, msgs.norm_hdr(o.phdr), msgs.norm_hdr(o.uhdr), o.payload, o.external_aad, id(o.key) if o.key is not None else None,
           snap_key(o.key), getattr(o, "auth_tag", None)]
    for r in list(getattr(o, "recipients", None) or []) + list(getattr(o, "signers", None) or []):
        out.append(snap(r))
    return out


class Run(Traffic):
    def __init__(self, plan, ctx):
        super().__init__(plan, ctx)
        self.objs = {}          # mid -> (spec, obj)
        self.rcvd = []          # (spec, obj) received and held
        self.held = []          # (spec, obj, wire) the same, to be opened again
        self.wires = {}

    def go(self):
        self.nd = self.nodes[0]
        self.nd.enter()
        for n, st in enumerate(self.plan["steps"]):
            self.ctx.now += 1000
            getattr(self, "do_" + st["op"])(st)
        for mid in list(self.objs):
            spec, obj = self.objs[mid]
            self.encode_checked(mid, spec, obj, [], "at the end of the history")

    # ------------------------------------------------------------ faults
    def others(self, but):
        out = []
        for spec, o in list(self.objs.values()) + self.rcvd:
            if o is not but:
                out.append((o, snap(o)))
        keys = [(i, snap_key(k)) for i, k in self.nd.cache.items()]
        return out, keys

    def unaffected(self, before, what):
        for o, s in before[0]:
            if snap(o) != s:
                self.ctx.violate("other-message-changed", "a failed operation (%s) changed another message" % what)
        for i, s in before[1]:
            if snap_key(self.nd.cache[i]) != s:
                self.ctx.violate("key-changed", "a failed operation (%s) changed one of the caller's keys" % what)

    def attempts(self, fl, fn, what, obj=None, check=None):
        """fn under each fault in turn, then without. -> LibResult of the first success or of the fault-free attempt.
        check(result, fired): what must hold of a result obtained under a fault."""
        ctx = self.ctx
        failed = 0
        seq = list(fl)
        if seq == ["sweep"]:
            ctx.probe("sweep")
            kinds = faults.KINDS
            seq = ({"n": n, "kind": kinds[n % 3]} for n in range(60))
        for f in seq:
            before = self.others(obj)
            h = faults.Hook(ctx, f)
            seams.S.hook = h
            try:
                r = lib(ctx, fn)
            finally:
                seams.S.hook = None
            ctx.log(what, "fault", h.sites[:3], "ok" if r.ok else type(r.exc).__name__)
            if h.fired:
                ctx.state(what, obj is not None and type(obj).__name__, h.sites[0], r.ok)
            if check:
                check(r, h.fired)
            if r.ok:
                if not h.fired:
                    return r, failed        # the operation is over before the faulty call
                ctx.probe("succeeded_despite_fault")
                return r, failed
            if not h.fired:
                return r, failed            # a plain failure; the caller judges it
            failed += 1
            self.unaffected(before, what)
        before = self.others(obj)
        r = lib(ctx, fn)
        if not r.ok:
            self.unaffected(before, what)
        return r, failed

    # ------------------------------------------------------------ sending
    def desc(self, spec):
        return "%s message (alg %s%s)" % (spec["kind"], spec.get("alg"), ", recipients %s" % [r["alg"] for r in spec["recipients"]] if spec.get("recipients") else "")

    def do_send(self, st):
        ctx, spec = self.ctx, dict(st["spec"])
        if st["from"] == "ref":
            wire = msgs.ref_send(spec, lambda i: self.maps[i], ("%s/%d" % (self.seed, st["mid"])).encode())
            self.note(st["mid"], spec, wire)
            return
        r, failed = self.attempts(st["bf"], lambda: self.make(spec), "create")
        if not r.ok:
            ctx.violate("creation-failed", "a %s cannot be created%s: %r" % (self.desc(spec), " after %d failed attempts" % failed if failed else "", r))
            return
        self.objs[st["mid"]] = (spec, r.val)
        self.encode_checked(st["mid"], spec, r.val, st["ef"], "")

    def make(self, spec):
        inc = self.nd.inc
        if spec["kind"] in ("enc", "mac"):
            robjs = [msgs.lib_rcpt(inc, r, self.nd.key) for r in spec["recipients"]]
            return rcpts.build(inc, spec, robjs, self.nd.key)
        return msgs.lib_build(inc, spec, self.nd.key)

    def encode_checked(self, mid, spec, obj, fl, when):
        ctx = self.ctx
        own = self.mine(obj)
        r, failed = self.attempts(fl, lambda: msgs.lib_encode(obj, spec), "encode", obj)
        if not r.ok:
            ctx.violate("retry-failed" if failed else "encode-failed", "a %s cannot be encoded %s%s: %r" % (
                self.desc(spec), when, " after %d attempts that failed for lack of resources" % failed if failed else "", r))
            return
        if failed:
            ctx.probe("retried_encode")
        if self.mine(obj) != own:
            ctx.violate("message-changed", "encoding a %s (%d failed attempts) changed its headers, payload or external data" % (self.desc(spec), failed))
        self.check_wire(spec, r.val)
        self.note(mid, spec, r.val)

    def mine(self, o):
        return [msgs.norm_hdr(o.phdr), msgs.norm_hdr(o.uhdr), o.payload, o.external_aad]

    def check_wire(self, spec, wire):
        if spec["kind"] in ("enc", "mac"):
            rcpts.check_wire(self.ctx, spec, spec["recipients"], wire, self.maps, "message")
        else:
            self.check_interop_out({"spec": spec}, wire)

    def note(self, mid, spec, wire):
        self.wires[mid] = (dict(spec), wire)
        self.wire[mid] = wire
        self.ctx.log("wire", mid, len(wire), wire.hex())
        t = self.truth(spec)
        self.ledger.add(t)

    def truth(self, spec):
        if spec["kind"] == "sign":
            return None
        return (spec["kind"], msgs.want_hdr(spec, "p"), bytes.fromhex(spec["payload"]), bytes.fromhex(spec["aad"]))

    def do_again(self, st):
        if st["mid"] not in self.objs:
            return
        spec, obj = self.objs[st["mid"]]
        val = bytes.fromhex(st["val"])
        if st["what"] == "payload" and not spec["detached"]:
            obj.payload = val
            spec["payload"] = val.hex()
        elif st["what"] == "aad" and spec["kind"] != "sign":
            obj.external_aad = val
            spec["aad"] = val.hex()
        elif st["what"] in ("phdr", "uhdr"):
            (obj.phdr_update if st["what"] == "phdr" else obj.uhdr_update)({90001: val})
            a, b = ("p", "u") if st["what"] == "phdr" else ("u", "p")
            spec[a] = [x for x in spec[a] if u(x[0]) != 90001] + [[90001, j(val)]]
        self.ctx.probe("encoded_again")
        self.encode_checked(st["mid"], spec, obj, st["ef"], "again")

    # ------------------------------------------------------------ receiving
    def do_recv(self, st):
        ctx, inc = self.ctx, self.nd.inc
        if st["mid"] not in self.wires:
            return
        spec, wire0 = self.wires[st["mid"]]
        kind = spec["kind"]
        wire = mutate.apply(wire0, st["dmg"], self.wire) if st["how"] == "dmg" else wire0
        intact = wire == wire0
        dec = inc.messages.CoseMessage.decode if st["dec"] == "any" else msgs.lib_cls(inc, kind).decode
        r, failed = self.attempts(st["df"], lambda: dec(wire), "decode")
        if not r.ok:
            if intact:
                ctx.violate("undecodable", "an undamaged %s cannot be decoded%s: %r" % (self.desc(spec), " after %d failed attempts" % failed if failed else "", r))
            return
        if failed:
            ctx.probe("retried_decode")
        m = r.val
        got = next((k for k, c in msgs.CLS.items() if type(m).__name__ == c), None)
        if intact:
            self.check_received(spec, m, got)
        if got != kind:
            return
        self.open(st, spec, m, wire, intact)
        if st["hold"] and intact and len(self.rcvd) < 4:
            self.rcvd.append((spec, m))
            self.held.append((spec, m, wire))

    def do_reopen(self, st):
        if not self.held:
            return
        spec, m, wire = self.held[st["n"] % len(self.held)]
        self.ctx.probe("reopened")
        self.open(st, spec, m, wire, True)

    def open(self, st, spec, m, wire, intact):
        kind = spec["kind"]
        if kind in ("enc", "mac"):
            self.open_rcpt(st, spec, m, wire, intact)
        else:
            for n, obj in enumerate(m.signers if kind == "sign" else [m]):
                src = spec["signers"][n] if kind == "sign" and n < len(spec["signers"]) else spec
                if kind == "sign" and n >= len(spec["signers"]):
                    break
                self.open_plain(st, spec, src, m, obj, n, wire, intact)

    def check_received(self, spec, m, got):
        if spec["kind"] in ("enc", "mac"):
            if got != spec["kind"] or len(m.recipients) != len(spec["recipients"]) or msgs.norm_hdr(m.phdr) != msgs.want_hdr(spec, "p") \
                    or msgs.norm_hdr(m.uhdr) != msgs.want_hdr(spec, "u"):
                self.ctx.violate("content", "an undamaged %s was decoded with other headers or recipients" % self.desc(spec))
        else:
            self.check_content(spec, m, got)

    def verdict_check(self, what, good, want, right):
        """Checker for results obtained while a dependency fails."""
        ctx = self.ctx

        def check(r, fired):
            if not fired:
                return
            ctx.probe("verify_under_fault" if good else "bad_under_fault")
            if r.ok and r.val is False and good and right:
                ctx.violate("failure-hidden", "%s: a failing dependency was reported as an invalid message instead of an error" % what)
            if r.ok and r.val is not False and not good:
                ctx.violate("accepted-under-fault", "%s: accepted while a dependency was failing, although it is not valid" % what)
            if r.ok and good and r.val != want and r.val is not False:
                ctx.violate("wrong-content", "%s: a failing dependency led to other content" % what)
        return check

    def judge(self, r, failed, good, want, what, right):
        ctx = self.ctx
        if good and not right:
            # a damaged message the independent implementation still accepts: the library may be stricter
            if r.ok and r.val != want and r.val is not False:
                ctx.violate("wrong-content", "%s: other content than was protected" % what)
        elif good:
            if not r.ok or r.val != want:
                ctx.violate("retry-failed" if failed else "rejected", "%s%s: %r %s" % (
                    what, ", after %d attempts that failed for lack of resources" % failed if failed else "", r, "(other content)" if r.ok else ""))
        elif r.ok and r.val is not False:
            ctx.violate("accepted", "%s: accepted although it is not valid%s" % (what, ", after %d failed attempts" % failed if failed else ""))
        if failed:
            ctx.probe("retried_open")

    def open_plain(self, st, spec, src, m, obj, n, wire, intact):
        ctx, kind = self.ctx, spec["kind"]
        aad = bytes.fromhex(src["aad"])
        payload = bytes.fromhex(spec["payload"])
        det = payload if spec["detached"] else None
        ki = src["key"]
        if st["how"] == "aad":
            aad += b"!"
        elif st["how"] == "key":
            same = [x for x in range(len(self.keys)) if self.maps[x][1] == self.maps[ki][1] and self.keyid(x) != self.keyid(ki)]
            ki = same[st["arg"] % len(same)] if same else ki
        right = intact and self.keyid(ki) == self.keyid(src["key"]) and st["how"] != "aad"
        what = "opening a %s%s" % (self.desc(spec), "" if right else " (%s)" % st["how"])

        def opn():
            obj.key = self.nd.key(ki, kind not in SIGN_KINDS)
            obj.external_aad = aad
            if kind in SIGN_KINDS:
                return obj.verify_signature(detached_payload=det) if det is not None else obj.verify_signature()
            if kind in MAC_KINDS:
                return obj.verify_tag()
            return obj.decrypt()
        want = payload if kind in ENC_KINDS else True
        if right:
            good = True
        else:
            good = self.reference(kind, wire, n, ki, aad, det)
            if good is None:
                return
            if good and kind in ENC_KINDS:
                want = good[0]
            good = bool(good)
        before = snap(m)
        r, failed = self.attempts(st["of"], opn, "open", m, self.verdict_check(what, good, want, right))
        self.judge(r, failed, good, want, what, right)
        if r.ok and m.payload != before[3]:
            ctx.violate("object-altered", "%s changed the received payload" % what)

    def reference(self, kind, wire, n, ki, aad, det):
        """Verdict of the independent implementation on a damaged or wrongly opened message; None: no opinion."""
        try:
            if kind == "sign1":
                return ref.ref_verify1(wire, self.maps[ki], aad, det)
            if kind == "sign":
                return ref.ref_verify(wire, n, self.maps[ki], aad, det)
            if kind == "mac0":
                return ref.ref_mac_ok(wire, self.maps[ki][-1], aad)
            return (ref.ref_decrypt(wire, self.maps[ki][-1], aad, self.maps[ki].get(5, b"")),)
        except ref.RefReject:
            return False
        except (ref.RefError, cbor.CborError, IndexError, KeyError, TypeError, ValueError, AttributeError):
            return None

    def open_rcpt(self, st, spec, m, wire, intact):
        ctx = self.ctx
        rl = spec["recipients"]
        i = st["i"] % len(rl)
        if i >= len(m.recipients):
            return
        rs = rl[i]
        ki = rs["key"]
        aad = bytes.fromhex(spec["aad"])
        if st["how"] == "aad":
            aad += b"!"
        elif st["how"] == "key":
            k0 = self.maps[ki]
            same = [x for x in range(len(self.keys)) if self.maps[x][1] == k0[1] and self.keyid(x) != self.keyid(ki)
                    and (k0[1] == 3 or len(self.maps[x].get(-1) if k0[1] == 4 else self.maps[x][-2]) == len(k0[-1] if k0[1] == 4 else k0[-2]))]
            if not same:
                return
            ki = same[st["arg"] % len(same)]
        right = intact and st["how"] in ("right", "dmg")
        sp, sv = bytes.fromhex(rs.get("supp_pub", "")), bytes.fromhex(rs.get("supp_priv", ""))
        what = "opening a %s by recipient %d%s" % (self.desc(spec), i, "" if right else " (%s)" % st["how"])
        payload = bytes.fromhex(spec["payload"])
        if right:
            good = True
        else:
            try:
                payload = rcpts.ref_open(wire, i, self.maps[ki], aad, sp, sv)[0]
                good = True
            except ref.RefReject:
                good = False
            except (ref.RefError, cbor.CborError, IndexError, KeyError, TypeError, ValueError, AttributeError):
                if intact:
                    good = False
                else:
                    return
            if good:
                return

        def opn():
            try:
                return rcpts.lib_open(self.nd.inc, wire, i, rs, self.nd.key(ki), aad, sp, sv, m, direct=st["arg"] % 3 > 0)[0]
            except rcpts.Rejected:
                return False
        r, failed = self.attempts(st["of"], opn, "open", m, self.verdict_check(what, good, payload, right))
        self.judge(r, failed, good, payload, what, right)
        if right and len(rl) > 1 and st["arg"] % 2:
            # the other recipients still get in through the same object
            i2 = (i + 1) % len(rl)
            r2 = rl[i2]
            x = lib(ctx, rcpts.lib_open, self.nd.inc, wire, i2, r2, self.nd.key(r2["key"]), aad, bytes.fromhex(r2.get("supp_pub", "")),
                    bytes.fromhex(r2.get("supp_priv", "")), m)
            if not x.ok or x.val[0] != payload:
                ctx.violate("retry-failed" if failed else "rejected", "after %s, recipient %d cannot open the same object: %r" % (what, i2, x))

    # ------------------------------------------------------------ keys
    def do_key(self, st):
        ctx, inc = self.ctx, self.nd.inc
        t, arg = st["t"], st["arg"]
        if t == "sym":
            mk = lambda: inc.keys.SymmetricKey.generate_key([16, 24, 32][arg % 3])
        elif t == "ec2":
            mk = lambda: inc.keys.EC2Key.generate_key(inc.curves.CoseCurve.from_id([1, 2, 3][arg % 3]))
        elif t == "okp":
            mk = lambda: inc.keys.OKPKey.generate_key(inc.curves.CoseCurve.from_id([6, 7][arg % 2]))
        else:
            mk = lambda: msgs.lib_key(inc, cbor.enc(ref.key_map({"t": "rsa", "i": arg % 4})))
        r, failed = self.attempts(st["f"], mk, "keygen")
        if not r.ok:
            ctx.violate("retry-failed" if failed else "keygen-failed", "a %s key cannot be generated: %r" % (t, r))
            return
        if failed:
            ctx.probe("retried_keygen")
        k = r.val
        before = snap_key(k)
        e, failed = self.attempts(st["f"], k.encode, "key-encode")
        if not e.ok:
            ctx.violate("retry-failed" if failed else "key-encode-failed", "a %s key cannot be encoded: %r" % (t, e))
            return
        if snap_key(k) != before:
            ctx.violate("key-changed", "encoding a %s key (%d failed attempts) changed it" % (t, failed))
        d, failed = self.attempts(st["f"], lambda: inc.keys.CoseKey.decode(e.val), "key-decode")
        if not d.ok:
            ctx.violate("retry-failed" if failed else "key-decode-failed", "a %s key cannot be loaded: %r" % (t, d))
            return
        if snap_key(d.val) != before:
            ctx.violate("key-changed", "a %s key differs after storing and loading it (%d failed attempts)" % (t, failed))
        try:
            m = cbor.dec(e.val)
            pub = {"sym": lambda: True, "rsa": lambda: m == ref.key_map({"t": "rsa", "i": arg % 4}),
                   "ec2": lambda: ref.ec_pub(m[-1], m[-4]) == (m[-2], m[-3]), "okp": lambda: ref.okp_pub(m[-1], m[-4]) == m[-2]}[t]()
        except (cbor.CborError, KeyError) as x:
            pub = False
        if not pub:
            ctx.violate("wrong-key", "the %s key made after %d failures is not a consistent key" % (t, failed))
        self.nd.cache[("gen", len(self.nd.cache))] = k

    def do_crash(self, st):
        self.ctx.fault("crash")
        self.ctx.log("crash")
        self.nd.boot()
        self.nd.enter()
        self.objs.clear()
        self.rcvd.clear()
        self.held.clear()


def run(plan, ctx):
    Run(plan, ctx).go()


def reduce(plan):
    for si, st in enumerate(plan["steps"]):
        for k in ("bf", "ef", "df", "of", "f"):
            if st.get(k) == ["sweep"]:
                for n in range(20):
                    for kind in faults.KINDS[:1]:
                        q = dict(plan)
                        q["steps"] = list(plan["steps"])
                        q["steps"][si] = {**st, k: [{"n": n, "kind": kind}]}
                        yield q
    fake = {**plan, "steps": [{**s, "fates": []} if s["op"] == "send" else s for s in plan["steps"]]}
    for q in traffic_reduce(fake):
        yield {**q, "steps": [{k: v for k, v in s.items() if k != "fates"} if s["op"] == "send" else s for s in q["steps"]]}
