"""Every listed recipient, and nobody else, can open a message with recipients."""
from .. import cbor, faults, msgs, mutate, rcpts, ref
from ..msgs import lib
from ..plain import canon, j, u
from ..traffic import Sim

ID = "C04"
RULE = ("A run is a seeded plan: senders (library processes and a reference peer) build Encrypt and Mac messages with every recipient "
        "method in every legal combination, encode them again after edits, re-keying, reordering, sharing or adding recipients, after "
        "injected dependency failures and crashes, and from received messages; receivers of both implementations open every wire "
        "with every recipient's key, with other keys, with damaged recipients and with disagreeing derivation context. "
        "Non-trivial: at least one library operation and one fault or adversarial opening; distinct: by the hash of the event log.")
RUNS = {"quick": 1300, "thorough": 24000}
STATE_MEASURE = "distinct (message kind, tuple of recipient algorithms, history of the sender's object, receiver, verdict) tuples"
ASSUMPTIONS = ["the primitives are secure (a random other key never opens by chance)", "the reference peer implements RFC 8152 sections 5, 6, 11 and 12 correctly",
               "content keys of 16, 24 or 32 bytes (the library's symmetric keys have no other length)"]
MUST_REACH = {"quick": ("opened_lib", "opened_ref_wire", "reencoded", "extended", "adopted", "retried_after_fault", "shared_recipient",
                        "wrong_key", "wrong_kdf_context", "opened_same_object_again", "mixed_recipients", "crash", "opened_nested", "nested_lib_wire", "nested_ref_wire")}


# ------------------------------------------------------------------ generation

def gen(rng, i, tier, heavy=False):
    keys = []
    ring = rcpts.KeyRing(keys)
    nlib = rng.choice([1, 2, 2])
    frate = rng.choice([0, .25, .5])
    steps = []
    t = 0
    live = []           # (mid, node, kind, tgt, nrid)
    sent = []
    nrid = 0
    mid = 0
    while len(steps) < rng.choice([6, 10, 14]):
        t += rng.randrange(1, 100000)
        x = rng.random()
        if x < .34 or not sent:
            mid += 1
            kind = rng.choice(["enc", "mac"])
            sp = rcpts.gen_spec(rng, ring, kind)
            if rng.random() < .25:
                steps.append({"op": "refsend", "t": t, "mid": mid, "spec": sp, "open": gen_opens(rng, nlib, ring, heavy)})
                sent.append((mid, kind, sp))
                continue
            rl = sp.pop("recipients")
            rids = []
            for r in rl:
                rids.append([nrid, r])
                nrid += 1
            if live and rng.random() < .25 and sp["key"] is None and rl[0]["alg"] not in ref.DKA_ALGS:
                o = rng.choice(live)
                rids.insert(rng.randrange(len(rids) + 1), [rng.choice(o[3]), None])     # share another message's recipient
                node = o[1]
            else:
                node = rng.randrange(nlib)
            steps.append({"op": "new", "t": t, "mid": mid, "node": node, "spec": sp, "rcpts": rids})
            live.append((mid, node, kind, [q[0] for q in rids], sp["alg"]))
            steps.append(gen_send(rng, t, mid, nlib, frate, ring, heavy))
            sent.append((mid, kind, sp))
        elif x < .82 and live:
            o = rng.choice(live)
            y = rng.random()
            if y < .25:
                steps.append({"op": "edit", "t": t, "mid": o[0], "what": rng.choice(["payload", "aad", "iv", "uhdr", "phdr"]),
                              "val": rng.randbytes(rng.choice([1, 16, 40])).hex()})
            elif y < .5:
                n = rng.choice([0, 1, 1, 2])
                new = []
                for _ in range(n):
                    new.append([nrid, rcpts.gen_rspec(rng, ring, rng.choice(list(ref.KW_ALGS) + list(ref.OAEP_ALGS) + list(ref.KAKW_ALGS)))])
                    nrid += 1
                steps.append({"op": "relist", "t": t, "mid": o[0], "add": new, "perm": rng.randrange(1000), "keep": rng.choice([1, 2, 9, 9])})
                o[3].extend(q[0] for q in new)
            else:
                steps.append({"op": "redit", "t": t, "mid": o[0], "i": rng.randrange(4), "what": rng.choice(["uhdr", "phdr", "salt", "rekey", "resetkey", "supp"]),
                              "val": rng.randbytes(rng.choice([1, 8, 32])).hex(), "arg": rng.randrange(1000)})
            steps.append(gen_send(rng, t, o[0], nlib, frate, ring, heavy))
        elif x < .94:
            src = rng.choice(sent)
            mid += 1
            new = []
            if rng.random() < .5 and src[2]["key"] is None:
                new.append([nrid, rcpts.gen_rspec(rng, ring, rng.choice(list(ref.KW_ALGS) + list(ref.OAEP_ALGS) + list(ref.KAKW_ALGS)))])
                nrid += 1
            node = rng.randrange(nlib)
            steps.append({"op": "adopt", "t": t, "mid": mid, "src": src[0], "node": node, "open": rng.random() < .7, "i": rng.randrange(4),
                          "add": new, "es": rng.choice(["fresh", "drop", "drop", "own"]), "edit": rng.random() < .5,
                          "val": rng.randbytes(12).hex()})
            steps.append(gen_send(rng, t, mid, nlib, frate, ring, heavy))
            live.append((mid, node, src[1], [q[0] for q in new] or [0], src[2]["alg"]))
        elif x < .96:
            sp = rcpts.gen_nested(rng, ring, rng.choice(["enc", "mac"]))
            st = {"op": "nest", "t": t, "node": rng.randrange(nlib), "to": rng.randrange(nlib), "spec": sp, "by": rng.choice(["lib", "lib", "ref"]),
                  "again": rng.choice([0, 0, 1, 2]), "n": rng.randrange(1000),
                  "open": [[rng.randrange(64), rng.choice(["right", "right", "wrongkey", "aad"]), rng.randrange(10000), rng.random() < .5]
                           for _ in range(rng.choice([2, 3, 5]))]}
            if rng.random() < frate:
                st["faults"] = [faults.gen(rng, 24) for _ in range(rng.choice([1, 1, 2]))]
            steps.append(st)
        elif x < .98:
            kind = rng.choice(["enc", "mac"])
            sp = rcpts.gen_spec(rng, ring, kind)
            n = rcpts.KEYLEN[sp["alg"]]
            dka = list(ref.DKA_ALGS)
            kw = list(ref.KW_ALGS) + list(ref.OAEP_ALGS) + list(ref.KAKW_ALGS)
            al = rng.choice([[dka, dka], [dka, dka, dka], [dka, kw], [kw, dka], [[ref.DIRECT], kw], [kw, [ref.DIRECT]], [[ref.DIRECT], dka], [dka, [ref.DIRECT]]])
            sp["key"] = ring.sym(rng, n, "cek%d" % sp["alg"])
            sp["recipients"] = []
            one = rng.choice(dka) if rng.random() < .5 else None
            for a in al:
                a = one if a is dka and one else rng.choice(a)
                sp["recipients"].append(rcpts.gen_rspec(rng, ring, a, sp["key"]) if a == ref.DIRECT else rcpts.gen_rspec(rng, ring, a))
            if not any(r["alg"] == ref.DIRECT for r in sp["recipients"]) and rng.random() < .7:
                sp["key"] = None
            steps.append({"op": "mix", "t": t, "node": rng.randrange(nlib), "spec": sp, "again": rng.randrange(3)})
        else:
            steps.append({"op": "crash", "t": t, "node": rng.randrange(nlib), "down": 0})
    for _ in range(3):      # other keys nobody was given anything under
        for n in (16, 24, 32):
            keys.append({**msgs.gen_sym(rng, n), "_n": n, "_use": "other"})
        keys.append(msgs.gen_ec(rng, rng.choice([1, 2, 3])))
    return {"keys": keys, "nodes": [{"impl": "lib"} for _ in range(nlib)] + [{"impl": "ref"}], "steps": steps}


def gen_opens(rng, nlib, ring, heavy=False):
    out = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        out.append({"node": rng.randrange(nlib), "i": rng.randrange(4), "delay": rng.randrange(1, 80000),
                    "how": rng.choice(["right", "right", "right", "wrongkey", "ctx", "dmg", "aad"]), "arg": rng.randrange(10000),
                    "val": rng.randbytes(rng.choice([1, 8])).hex(), "twice": rng.random() < .2})
        out[-1]["direct"] = rng.random() < .5
        if rng.random() < (.8 if heavy else .3):
            # more openings of the same received object: other recipients, other keys, other external data
            out[-1]["more"] = [{"i": rng.choice([out[-1]["i"], rng.randrange(4)]), "how": rng.choice(["right", "wrongkey", "wrongkey", "aad", "ctx"]),
                                "arg": rng.randrange(10000), "val": rng.randbytes(rng.choice([1, 8])).hex(), "direct": rng.random() < .6}
                               for _ in range(rng.choice([1, 2, 3, 4]))]
        if out[-1]["how"] == "dmg":
            out[-1]["dmg"] = [mutate.gen(rng, rng.choice(["enc", "mac"]), [1, 2, 3])]
    return out


def gen_send(rng, t, mid, nlib, frate, ring, heavy=False):
    st = {"op": "send", "t": t, "mid": mid, "open": gen_opens(rng, nlib, ring, heavy)}
    if rng.random() < frate:
        st["faults"] = [faults.gen(rng, 24) for _ in range(rng.choice([1, 1, 2, 3]))]
    return st


# ------------------------------------------------------------------ execution

class Model:
    """What the harness knows about one sender-side message object."""

    def __init__(self, node, gen, spec, rl, obj, robjs, must):
        self.node, self.gen, self.spec, self.rl, self.obj, self.robjs, self.must = node, gen, spec, rl, obj, robjs, must
        self.hist = []
        self.sent = 0


class Run(Sim):
    def __init__(self, plan, ctx):
        super().__init__(plan, ctx)
        self.msgs = {}
        self.rids = {}          # (node, gen, rid) -> (rspec, object)
        self.ledger = set()
        self.wires = {}
        self.wire = {}
        self.maplist = list(self.maps)
        self.verdicts = {}

    def go(self):
        for st in self.plan["steps"]:
            self.at(st["t"], lambda st=st: getattr(self, "do_" + st["op"])(st))
        self.run()

    def do_crash(self, st):
        self.crash(st["node"], st["down"])

    # ---------------------------------------------------------- senders
    def do_new(self, st):
        nd = self.nodes[st["node"]]
        nd.enter()
        rl, robjs = [], []
        must = True
        for rid, r in st["rcpts"]:
            k = (st["node"], nd.gen, rid)
            if r is None:
                if k not in self.rids:
                    continue
                rs, o = self.rids[k]
                if any(o is x for x in robjs):
                    continue
                if rs["alg"] == ref.DIRECT or rs["alg"] in ref.DKA_ALGS:
                    continue
                self.ctx.probe("shared_recipient")
                must = False
            else:
                rs = {**r, "p": list(r["p"]), "u": list(r["u"])}
                b = lib(self.ctx, msgs.lib_rcpt, nd.inc, rs, nd.key)
                if not b.ok:
                    self.ctx.violate("recipient-refused", "a recipient with alg %s cannot be created: %r" % (r["alg"], b))
                    return
                o = b.val
                self.rids[k] = (rs, o)
            rl.append(rs)
            robjs.append(o)
        if not rl:
            return
        spec = dict(st["spec"])
        b = lib(self.ctx, rcpts.build, nd.inc, spec, robjs, nd.key)
        if not b.ok:
            self.ctx.violate("message-refused", "a %s message with recipients %s cannot be created: %r" % (
                spec["kind"], [r["alg"] for r in rl], b))
            return
        self.msgs[st["mid"]] = Model(st["node"], nd.gen, spec, rl, b.val, robjs, must)

    def alive(self, st):
        m = self.msgs.get(st["mid"])
        if m is None:
            return None, None
        nd = self.nodes[m.node]
        if nd.gen != m.gen or not nd.up:
            return None, None
        nd.enter()
        return m, nd

    def do_edit(self, st):
        m, nd = self.alive(st)
        if m is None:
            return
        H = nd.inc.headers
        val = bytes.fromhex(st["val"])
        m.hist.append("edit")
        if st["what"] == "payload":
            m.obj.payload = val
            m.spec["payload"] = val.hex()
        elif st["what"] == "aad":
            m.obj.external_aad = val
            m.spec["aad"] = val.hex()
        elif st["what"] == "iv" and m.spec["kind"] == "enc":
            iv = val.ljust(ref.ENC_ALGS[m.spec["alg"]][2], b"\1")[:ref.ENC_ALGS[m.spec["alg"]][2]]
            if m.spec["iv_in"] == "p":
                m.obj.phdr_update({H.IV: iv})
            else:
                m.obj.uhdr_update({H.IV: iv})
            m.spec["iv"] = iv.hex()
        elif st["what"] in ("uhdr", "phdr"):
            lab = 90001
            b = "u" if st["what"] == "uhdr" else "p"
            (m.obj.uhdr_update if b == "u" else m.obj.phdr_update)({lab: val})
            m.spec[b] = [x for x in m.spec[b] if u(x[0]) != lab] + [[lab, j(val)]]

    def do_relist(self, st):
        m, nd = self.alive(st)
        if m is None:
            return
        if m.rl[0]["alg"] == ref.DIRECT or m.rl[0]["alg"] in ref.DKA_ALGS:
            return
        keep = list(range(len(m.rl)))[:st["keep"]] or [0]
        rl, robjs = [m.rl[i] for i in keep], [m.robjs[i] for i in keep]
        for rid, r in st["add"]:
            rs = {**r, "p": list(r["p"]), "u": list(r["u"])}
            b = lib(self.ctx, msgs.lib_rcpt, nd.inc, rs, nd.key)
            if not b.ok:
                self.ctx.violate("recipient-refused", "a recipient with alg %s cannot be created: %r" % (r["alg"], b))
                return
            self.rids[(m.node, nd.gen, rid)] = (rs, b.val)
            rl.append(rs)
            robjs.append(b.val)
        import random
        order = list(range(len(rl)))
        random.Random(st["perm"]).shuffle(order)
        m.rl, m.robjs = [rl[i] for i in order], [robjs[i] for i in order]
        m.obj.recipients = list(m.robjs)
        m.hist.append("relist")
        self.ctx.probe("extended" if st["add"] else "relisted")

    def do_redit(self, st):
        m, nd = self.alive(st)
        if m is None:
            return
        i = st["i"] % len(m.rl)
        r, o = m.rl[i], m.robjs[i]
        H = nd.inc.headers
        what, val = st["what"], bytes.fromhex(st["val"])
        fam = rcpts.family(r["alg"])
        ecdh = fam in ("dka", "kakw")
        m.hist.append("redit_" + what)
        if what == "uhdr" or (what == "phdr" and not ecdh):
            o.uhdr_update({90002: val})
            r["u"] = [x for x in r["u"] if u(x[0]) != 90002] + [[90002, j(val)]]
        elif what == "phdr":
            o.phdr_update({90002: val})
            r["p"] = [x for x in r["p"] if u(x[0]) != 90002] + [[90002, j(val)]]
            r["u"] = [x for x in r["u"] if u(x[0]) != 90002]
            if 90002 in o.uhdr:
                del o.uhdr[90002]
        elif what == "salt" and ecdh:
            for b in "pu":
                if any(u(x[0]) == rcpts.SALT for x in r[b]):
                    (o.phdr_update if b == "p" else o.uhdr_update)({H.Salt: val})
                    r[b] = [x for x in r[b] if u(x[0]) != rcpts.SALT] + [[rcpts.SALT, j(val)]]
                    break
            else:
                o.uhdr_update({H.Salt: val})
                r["u"] = r["u"] + [[rcpts.SALT, j(val)]]
        elif what == "supp" and ecdh:
            o.local_attrs = {H.SuppPubOther: val}
            r["supp_pub"] = val.hex()
        elif what == "rekey" and fam in ("kw", "oaep"):
            k0 = self.keys[r["key"]]
            same = [x for x, k in enumerate(self.keys) if k["t"] == k0["t"] and k.get("_n") == k0.get("_n") and not str(k.get("_use", "")).startswith("cek")]
            x = same[st["arg"] % len(same)]
            o.key = nd.key(x)
            r["key"] = x
        elif what in ("rekey", "resetkey") and ecdh:
            if what == "rekey":
                k0 = self.keys[r["key"]]
                same = [x for x, k in enumerate(self.keys) if k["t"] == "ec2" and k["crv"] == k0["crv"]]
                x = same[st["arg"] % len(same)]
                o.local_attrs = {H.StaticKey: nd.key(x, False)}
                r["key"] = x
            elif rcpts.mode(r["alg"]) == "es":
                o.key = None
                for h in (o.uhdr, o.phdr):
                    if H.EphemeralKey in h:
                        del h[H.EphemeralKey]
                r["eph"] = None

    def do_send(self, st):
        m, nd = self.alive(st)
        ctx = self.ctx
        if m is None:
            return
        kind = m.spec["kind"]
        desc = "%s message (alg %s, recipients %s, history %s)" % (kind, m.spec["alg"], [r["alg"] for r in m.rl], m.hist)
        wire = None
        for f in st.get("faults", []) + [None]:
            r, fired = faults.run(ctx, f, m.obj.encode)
            if r.ok:
                if fired:
                    ctx.probe("succeeded_despite_fault")
                wire = r.val
                if any(h == "fault" for h in m.hist):
                    ctx.probe("retried_after_fault")
                break
            ctx.log("send", st["mid"], "failed", type(r.exc).__name__)
            if fired:
                m.hist.append("fault")
                continue
            if m.must:
                ctx.violate("send-failed", "%s cannot be encoded: %r" % (desc, r))
            ctx.probe("send_failed_adopted")
            return
        if wire is None:
            return
        if m.sent:
            ctx.probe("reencoded")
        m.sent += 1
        spec = {**m.spec}
        rl = [{**r, "p": list(r["p"]), "u": list(r["u"])} for r in m.rl]
        rcpts.check_wire(ctx, spec, rl, wire, self.maps, "%d of its sender, history %s" % (m.sent, m.hist))
        ctx.state(kind, spec["alg"], tuple(r["alg"] for r in rl), tuple(m.hist))
        m.hist.append("sent")
        self.launch(st, spec, rl, wire)

    def do_mix(self, st):
        """Recipients that do not go together: no message, or one which every listed recipient opens."""
        nd, ctx = self.nodes[st["node"]], self.ctx
        if not nd.up:
            return
        nd.enter()
        spec = {**st["spec"]}
        rl = spec["recipients"]
        ctx.probe("mixed_recipients")
        ctx.fault("mixed_recipients")
        objs = lib(ctx, lambda: [msgs.lib_rcpt(nd.inc, {**r, "p": list(r["p"]), "u": list(r["u"])}, nd.key) for r in rl])
        if not objs.ok:
            return
        m = lib(ctx, rcpts.build, nd.inc, spec, objs.val, nd.key)
        for k in range(1 + st["again"]):
            if not m.ok:
                break
            r = lib(ctx, m.val.encode)
            ctx.log("mix", [r["alg"] for r in rl], r.ok)
            if r.ok:
                rcpts.check_wire(ctx, spec, rl, r.val, self.maps, "message with recipients %s" % [q["alg"] for q in rl])

    def do_nest(self, st):
        """Recipients that have recipients: everybody in the tree can open, and nobody else."""
        ctx = self.ctx
        nd, to = self.nodes[st["node"]], self.nodes[st["to"]]
        if not nd.up:
            return
        nd.enter()
        spec = {**st["spec"]}
        rl = spec["recipients"]
        payload, aad = bytes.fromhex(spec["payload"]), bytes.fromhex(spec["aad"])
        tree = [shape(r) for r in rl]
        desc = "%s message (alg %s, recipients %s)" % (spec["kind"], spec["alg"], tree)
        if st["by"] == "ref":
            wires = [msgs.ref_send(spec, lambda i: self.maps[i], ("%s/%s/%d" % (self.seed, st["t"], st["n"])).encode())]
            ctx.probe("nested_ref_wire")
        else:
            wires = []
            objs = lib(ctx, lambda: [msgs.lib_rcpt(nd.inc, r, nd.key) for r in rl])
            m = lib(ctx, rcpts.build, nd.inc, spec, objs.val, nd.key) if objs.ok else objs
            if not m.ok:
                ctx.violate("message-refused", "a %s cannot be created: %r" % (desc, m))
                return
            for f in st.get("faults", []) + [None] * (1 + st["again"]):
                r, fired = faults.run(ctx, f, m.val.encode)
                if r.ok:
                    wires.append(r.val)
                elif not fired:
                    ctx.violate("send-failed", "%s cannot be encoded: %r" % (desc, r))
                    return
            ctx.probe("nested_lib_wire")
        all_ = list(rcpts.leaves(rl))
        for w in wires:
            ctx.log("nest", st["t"], w.hex())
            for path, r in all_:
                try:
                    cbor.dec(w, strict=True)
                    got, _ = rcpts.ref_open_path(w, rl, path, self.maps[r["key"]], aad)
                except (ref.RefError, cbor.CborError, IndexError, KeyError, TypeError, AttributeError, ValueError) as e:
                    ctx.violate("recipient-shut-out", "recipient %s (alg %s) cannot open the %s: %r" % (list(path), r["alg"], desc, e))
                    return
                if got != payload:
                    ctx.violate("recipient-wrong-content", "recipient %s (alg %s) gets other content from the %s" % (list(path), r["alg"], desc))
                    return
        if not to.up:
            return
        to.enter()
        d = lib(ctx, to.inc.messages.CoseMessage.decode, wires[-1])
        if not d.ok:
            ctx.violate("undecodable", "a %s cannot be decoded: %r" % (desc, d))
            return
        for k, how, arg, direct in st["open"]:
            path, r = all_[k % len(all_)]
            ki, ad = r["key"], aad
            if how == "wrongkey":
                m0 = self.maps[ki]
                other = [x for x, q in enumerate(self.maps) if q[1] == m0[1] and q.get(-2) != m0.get(-2, 0) and (q[1] != 2 or q[-1] == m0[-1])
                         and (q[1] != 4 or q[-1] != m0[-1])]
                if not other:
                    continue
                ki = other[arg % len(other)]
                ctx.fault("wrong_key")
            elif how == "aad":
                ad = aad + b"x"
                ctx.fault("wrong_aad")
            res = lib(ctx, rcpts.lib_open_path, to.inc, d.val, rl, path, to.key(ki), ad, direct)
            ctx.log("nopen", list(path), r["alg"], how, res.ok)
            ctx.state("nested", spec["kind"], r["alg"], len(path), how, res.ok)
            if how == "right" and not res.ok:
                ctx.violate("recipient-shut-out", "recipient %s (alg %s) cannot open the %s with the library: %r" % (list(path), r["alg"], desc, res))
                return
            if res.ok and (how != "right" or res.val[0] != payload):
                ctx.violate("opened-by-outsider" if how != "right" else "recipient-wrong-content",
                            "recipient %s (alg %s) of the %s, opened with %s" % (list(path), r["alg"], desc, how))
                return
            if how == "right" and len(path) > 1:
                ctx.probe("opened_nested")

    def do_refsend(self, st):
        spec = {**st["spec"]}
        rl = spec["recipients"]
        wire = msgs.ref_send(spec, lambda i: self.maps[i], ("%s/%d" % (self.seed, st["mid"])).encode())
        self.launch(st, spec, rl, wire)
        self.ctx.probe("opened_ref_wire")

    def launch(self, st, spec, rl, wire):
        self.ctx.log("wire", st["mid"], len(wire), wire.hex())
        self.wires[st["mid"]] = (spec, rl, wire)
        self.wire[st["mid"]] = wire
        self.ledger.add((spec["kind"], msgs.want_hdr(spec, "p"), bytes.fromhex(spec["payload"]), bytes.fromhex(spec["aad"])))
        for o in st["open"]:
            self.at(self.ctx.now + o["delay"], lambda o=o: self.opening(st["mid"], o, spec, rl, wire))

    # ---------------------------------------------------------- a received message used for sending
    def do_adopt(self, st):
        nd = self.nodes[st["node"]]
        ctx = self.ctx
        if st["src"] not in self.wires or not nd.up:
            return
        nd.enter()
        H = nd.inc.headers
        spec, rl, wire = self.wires[st["src"]]
        b = lib(ctx, nd.inc.messages.CoseMessage.decode, wire)
        if not b.ok:
            ctx.violate("undecodable", "a %s message with recipients %s cannot be decoded: %r" % (spec["kind"], [r["alg"] for r in rl], b))
            return
        m = b.val
        if len(m.recipients) != len(rl):
            ctx.violate("undecodable", "%d of %d recipients decoded" % (len(m.recipients), len(rl)))
            return
        if st["open"]:
            i = st["i"] % len(rl)
            r = rl[i]
            o = lib(ctx, rcpts.lib_open, nd.inc, wire, i, r, nd.key(r["key"]), bytes.fromhex(spec["aad"]),
                    bytes.fromhex(r.get("supp_pub", "")), bytes.fromhex(r.get("supp_priv", "")), m)
            if not o.ok:
                ctx.violate("recipient-shut-out", "recipient %d (alg %s) cannot open a %s message: %r" % (i, r["alg"], spec["kind"], o))
                return
        m.external_aad = bytes.fromhex(spec["aad"])
        m.payload = bytes.fromhex(spec["payload"])
        keep = []
        for i, (r, o) in enumerate(zip(rl, m.recipients)):
            fam = rcpts.family(r["alg"])
            r = {**r, "p": list(r["p"]), "u": list(r["u"])}
            if fam == "direct":
                m.key = nd.key(r["key"])
            elif fam in ("kw", "oaep"):
                o.key = nd.key(r["key"])
            else:
                la = {H.StaticKey: nd.key(r["key"], False)}
                if r.get("supp_pub"):
                    la[H.SuppPubOther] = bytes.fromhex(r["supp_pub"])
                if r.get("supp_priv"):
                    la[H.SuppPrivOther] = bytes.fromhex(r["supp_priv"])
                o.local_attrs = la
                if rcpts.mode(r["alg"]) == "ss":
                    o.key = nd.key(r["skey"])
                elif st["es"] == "drop":
                    continue
                else:
                    o.key = None
                    if st["es"] == "fresh":
                        for h in (o.uhdr, o.phdr):
                            if H.EphemeralKey in h:
                                del h[H.EphemeralKey]
                    elif r.get("eph") is not None and ref.parse(wire)[1][-1][i][1].get(-1, {}).get(-2) == self.maps[r["eph"]][-2]:
                        o.key = nd.key(r["eph"])
            keep.append((r, o))
        for rid, r in st["add"]:
            if keep and keep[0][0]["alg"] in ref.DKA_ALGS:
                break
            rs = {**r, "p": list(r["p"]), "u": list(r["u"])}
            o = lib(ctx, msgs.lib_rcpt, nd.inc, rs, nd.key)
            if o.ok:
                keep.append((rs, o.val))
                self.rids[(st["node"], nd.gen, rid)] = (rs, o.val)
        if not keep:
            return
        m.recipients = [o for _, o in keep]
        sp = {**spec, "style": {**spec["style"], "tstr": False}}
        mm = Model(st["node"], nd.gen, sp, [r for r, _ in keep], m, [o for _, o in keep], False)
        mm.hist.append("adopted")
        self.msgs[st["mid"]] = mm
        ctx.probe("adopted")
        if st["edit"]:
            self.do_edit({"mid": st["mid"], "what": "payload", "val": st["val"]})

    # ---------------------------------------------------------- receivers
    def opening(self, mid, o, spec, rl, wire):
        ctx = self.ctx
        nd = self.nodes[o["node"]]
        if not nd.up:
            ctx.fault("lost_node_down")
            return
        nd.enter()
        obj = None
        how, w = self.open_once(nd, mid, o, spec, rl, wire, None)
        if o.get("twice") or o.get("more"):
            # several openings of one received object; each verdict must be what a fresh object gives
            d = lib(ctx, nd.inc.messages.CoseMessage.decode, w)
            if not d.ok:
                return
            obj = d.val
            for q in ([o] if o.get("twice") else []) + [{**o, "more": None}] + (o.get("more") or []):
                self.open_once(nd, mid, q, spec, rl, w, obj, how in ("dmg", "ctxw"))
                ctx.probe("opened_same_object_again")

    def open_once(self, nd, mid, o, spec, rl, wire, obj, changed=False):
        ctx = self.ctx
        i = o["i"] % len(rl)
        r = rl[i]
        how = o["how"]
        fam = rcpts.family(r["alg"])
        ki = r["key"]
        aad = bytes.fromhex(spec["aad"])
        sp, sv = bytes.fromhex(r.get("supp_pub", "")), bytes.fromhex(r.get("supp_priv", ""))
        w = wire
        if how == "wrongkey":
            k0 = self.keys[ki]
            other = [x for x, m in enumerate(self.maps) if m[1] == self.maps[ki][1] and m != self.maps[ki]
                     and m.get(-2) != self.maps[ki].get(-2, 0) and (m[1] != 2 or m[-1] == self.maps[ki][-1])]
            if not other:
                how = "right"
            else:
                ki = other[o["arg"] % len(other)]
                ctx.probe("wrong_key")
                ctx.fault("wrong_key")
        elif how == "ctx":
            if fam not in ("dka", "kakw"):
                how = "right"
            else:
                v = bytes.fromhex(o["val"])
                c = o["arg"] % (2 if obj is not None else 4)
                if c == 0:
                    sp = v if v != sp else sp + b"x"
                elif c == 1:
                    sv = v if v != sv else sv + b"x"
                else:
                    w = tamper(wire, spec["kind"], i, o["arg"], v)
                    if w is None:
                        how, w = "right", wire
                    else:
                        how = "ctxw"
                if how != "right":
                    ctx.probe("wrong_kdf_context")
                    ctx.fault("kdf_context")
        elif how == "aad":
            aad = bytes.fromhex(o["val"]) if bytes.fromhex(o["val"]) != aad else aad + b"x"
            ctx.fault("wrong_aad")
        elif how == "dmg" and obj is None:
            w = mutate.apply(wire, o["dmg"], self.wire)
            if w == wire:
                how = "right"
            else:
                ctx.fault("damage")
        if changed:
            how = "dmg"         # whatever the change does to this recipient
        if how == "dmg" and not same_shape(nd, w, rl, i):
            res = msgs.LibResult(False, exc=ValueError("shape"))
        else:
            res = lib(ctx, rcpts.lib_open, nd.inc, w, i, r, nd.key(ki), aad, sp, sv, obj, o.get("direct"))
        ctx.log("open", mid, i, r["alg"], how, "ok" if res.ok else "no")
        ctx.state(spec["kind"], r["alg"], spec["alg"], how, res.ok, obj is not None)
        vk = (w, i, ki, aad, sp, sv)
        got = (res.ok, res.val[0] if res.ok else None)
        if self.verdicts.setdefault(vk, got) != got:
            ctx.violate("verdict-changed", "opening the same received %s with the key and context of recipient %d (alg %s) gave %r, then %r" % (
                spec["kind"], i, r["alg"], self.verdicts[vk], got))
        if how == "right":
            if not res.ok:
                ctx.violate("recipient-shut-out", "recipient %d of %d (alg %s) cannot open the %s message (alg %s) with the library: %r" % (
                    i, len(rl), r["alg"], spec["kind"], spec["alg"], res))
                return how, w
            if res.val[0] != bytes.fromhex(spec["payload"]):
                ctx.violate("recipient-wrong-content", "recipient %d (alg %s) gets other content" % (i, r["alg"]))
            try:
                _, cek = rcpts.ref_open(w, i, self.maps[ki], aad, sp, sv)
            except (ref.RefError, cbor.CborError, KeyError, IndexError, ValueError, TypeError) as e:
                ctx.violate("recipient-shut-out", "recipient %d (alg %s): an independent peer cannot open what the library opens: %r" % (i, r["alg"], e))
                return how, w
            if res.val[1] is not None and cek != res.val[1]:
                ctx.violate("recipients-differ", "recipient %d (alg %s) recovers another content key than an independent peer" % (i, r["alg"]))
            ctx.probe("opened_lib")
        elif how in ("wrongkey", "ctx", "ctxw", "aad"):
            if res.ok:
                ctx.violate("opened-by-outsider", "a %s message for recipient alg %s opened with %s" % (spec["kind"], r["alg"], {
                    "wrongkey": "another key", "aad": "other external data"}.get(how, "a disagreeing key-derivation context")))
        elif res.ok:
            d = lib(ctx, nd.inc.messages.CoseMessage.decode, w)
            if d.ok and (spec["kind"], msgs.norm_hdr(d.val.phdr), res.val[0], aad) not in self.ledger:
                ctx.violate("forgery", "a damaged %s message yielded content nobody sent" % spec["kind"])
        return how, w


def same_shape(nd, w, rl, i):
    """The damaged message still has a recipient i with the same method (otherwise the receiver has no key for it)."""
    try:
        m = nd.inc.messages.CoseMessage.decode(w)
        if len(m.recipients) <= i or type(m).__name__ not in ("EncMessage", "MacMessage"):
            return False
        a = m.recipients[i].get_attr(nd.inc.headers.Algorithm)
        return a is not None and a.identifier == rl[i]["alg"]
    except Exception:
        return False


def shape(r):
    return [r["alg"], [shape(q) for q in r["inner"]]] if r.get("inner") else r["alg"]


def tamper(wire, kind, i, arg, v):
    """Change what recipient i's key derivation depends on."""
    t = cbor.dec(wire)
    rr = t.value[-1][i]
    if arg % 8 < 4:
        lab = (rcpts.PARTY + (rcpts.SALT,))[arg // 8 % 7]
        p = cbor.dec(rr[0]) if rr[0] else {}
        if lab in p:
            if p[lab] == v:
                v = v + b"x"
            p[lab] = v
            rr[0] = cbor.enc(p)
        else:
            if rr[1].get(lab) == v:
                v = v + b"x"
            rr[1][lab] = v
    else:
        p = cbor.dec(rr[0]) if rr[0] else {}
        p[90003] = v
        rr[0] = cbor.enc(p)
    return cbor.enc(t)


def run(plan, ctx):
    Run(plan, ctx).go()


def reduce(plan):
    for si, st in enumerate(plan["steps"]):
        if "spec" in st:
            sp = st["spec"]

            def var(**kw):
                q = dict(plan)
                q["steps"] = list(plan["steps"])
                q["steps"][si] = {**st, "spec": {**sp, **kw}}
                return q
            if len(sp["payload"]) > 2:
                yield var(payload="61")
            if sp["aad"]:
                yield var(aad="")
            for b in "pu":
                if sp[b]:
                    yield var(**{b: []})
            base = {"label": "cls", "alg": "cls", "tstr": False, "how": "ctor", "penc": "canon", "empty": "bstr", "outer": "canon"}
            if sp["style"] != base:
                yield var(style=base)
            for k, r in enumerate(sp.get("recipients", [])):
                for kk in ("supp_pub", "supp_priv"):
                    if r.get(kk):
                        yield var(recipients=sp["recipients"][:k] + [{**r, kk: ""}] + sp["recipients"][k + 1:])
                for b in "pu":
                    if r[b]:
                        yield var(recipients=sp["recipients"][:k] + [{**r, b: []}] + sp["recipients"][k + 1:])
        for k, (rid, r) in enumerate(st.get("rcpts", []) or st.get("add", [])):
            name = "rcpts" if st.get("rcpts") else "add"
            if r is None:
                continue
            for kk, vv in (("supp_pub", ""), ("supp_priv", ""), ("p", []), ("u", [])):
                if r.get(kk):
                    q = dict(plan)
                    q["steps"] = list(plan["steps"])
                    q["steps"][si] = {**st, name: st[name][:k] + [[rid, {**r, kk: vv}]] + st[name][k + 1:]}
                    yield q
