"""Relays forward what was protected, byte for byte."""
from .. import cbor, faults, judge, msgs, rcpts, ref, seams
from ..loader import Incarnation
from ..msgs import gen_bytes, gen_value, lib
from ..plain import canon, j, u
from ..traffic import make_spec, ENC_KINDS, MAC_KINDS
from .c09 import INTERPRETED

ID = "C10"
RULE = ("A run sends messages of honest senders (the library, or an independent implementation with every legal encoding) through seeded chains "
        "of relays that decode, look at, fail on, edit and re-encode them without keys, re-protect edited ones, retry after failures, crash and "
        "start over, and finally to a receiver. Every encoded form is taken apart independently and compared byte for byte with a model of what "
        "must be forwarded. Non-trivial: at least one re-encoding and one relay fault or edit; distinct: by the hash of the event log.")
RUNS = {"quick": 4000, "thorough": 60000}
STATE_MEASURE = "distinct (message kind, sequence of relay actions, encoding style) tuples"
ASSUMPTIONS = ["unprotected headers are forwarded with the same meaning, not byte for byte", "an edit is one made through phdr_update or the phdr setter"]
MUST_REACH = {"quick": ("forwarded", "hops2", "odd_encoding", "uhdr_edit", "phdr_update", "phdr_set", "reprotected", "relay_crash", "retry_after_failure",
                        "failed_edit", "odd_values", "detached", "recipients", "received_by_library", "received_by_reference", "edited_before_first_send",
                        "text_labels", "phdr_item", "edited_to_lookalike", "inner_recipients")}
REAL = ["pycose (all of it, one fresh import per simulated process)", "cbor2", "cryptography/OpenSSL", "ecdsa"]
STUB = ["network (bytes handed from hop to hop)", "independent peers", "process crash (fresh import)", "entropy (seeded streams)"]

RAWS = ["f6", "f97e00", "f93c00", "fa47c35000", "fb3ff199999999999a", "f7", "e5", "f8ff", "d9ea6101", "d9ea61a1410a02", "c11a514b67b0", "c074323031332d30332d32315432303a30343a30305a",
        "c249010000000000000000", "c48221196ab3", "d81e820103", "d9010283010203", "d82a43000102", "bf61619f02ffff", "5f42010243030405ff",
        "7f6261626163ff", "1bffffffffffffffff", "3bffffffffffffffff", "1800", "190001", "d8185824" + "00" * 36, "80", "a0"]
TEXT = ["ALG", "KID", "IV", "alg", "CRITICAL", "X5_CHAIN", "identifier"]


def gen_extra(rng):
    """One more header of the sort only other implementations send."""
    lab = rng.choice([1001, 7777, -70002, "other", "Other"] + TEXT)
    if rng.random() < .3:
        return [lab, j(rng.choice([0, 1, True, False, 1.0, 0.0, [1], [True, 0], {1: True}, 5, 2.0, "1", b"1"]))]
    return [lab, j(cbor.Raw(bytes.fromhex(rng.choice(RAWS)))) if rng.random() < .6 else j(gen_value(rng))]


def gen_items(rng, taken, edit=False):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        lab = rng.choice([1000, 70000, -70001, "hdr", "x-App", 24, 4, 3, 8888, "new"])
        if lab in taken or lab in [x[0] for x in out]:
            continue
        v = gen_bytes(rng, rng.choice([0, 3, 20])) if lab == 4 else rng.choice([0, 60, "a/b"]) if lab == 3 else gen_value(rng)
        out.append([lab, j(v)])
    return out


def gen_inner(rng, deep):
    """Recipients of a recipient: another implementation may distribute a key encryption key with them."""
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        alg = rng.choice([-3, -4, -5, -29, -31, -25])
        un = {4: rng.randbytes(rng.choice([0, 3, 9]))} if rng.random() < .7 else {}
        if alg in ref.KW_ALGS:
            r = [b"", {1: alg, **un}, rng.randbytes(24)]
        else:
            d = rng.randbytes(31)
            x, y = ref.ec_pub(1, d.rjust(32, b"\0"))
            r = [cbor.enc({1: alg}), {-1: {1: 2, -1: 1, -2: x, -3: y}, **un}, rng.randbytes(24) if alg != -25 else b""]
        if rng.random() < .3:
            r[1]["x"] = rng.randrange(1000)
        if deep and alg != -25 and rng.random() < .3:
            r.append(gen_inner(rng, deep - 1))
        if not isinstance(r[-1], list) and alg == -25:
            out = [r]
            break
        out.append(r)
    return out


def gen(rng, i, tier):
    keys, shared = [], {}
    ring = rcpts.KeyRing(keys)
    pool, steps = [], []
    for n in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(["enc0", "mac0", "sign1", "sign1", "enc", "mac", "enc", "mac", "sign"])
        sp = rcpts.gen_spec(rng, ring, kind) if kind in ("enc", "mac") else make_spec(rng, kind, keys, shared)
        sp["payload"], sp["aad"] = sp["payload"][:600], sp["aad"][:200]
        org = rng.choice(["ref", "ref", "lib"])
        if org == "ref":
            for b in ("p", "u"):
                if rng.random() < .45:
                    ex = gen_extra(rng)
                    if ex[0] not in [x[0] for x in sp["p"] + sp["u"]]:
                        sp[b].append(ex)
            for r in sp.get("recipients", []):
                if rng.random() < .3 and (r["alg"] not in ref.KW_ALGS and r["alg"] != ref.DIRECT or rng.random() < .5):
                    b = "u" if r["alg"] in ref.KW_ALGS or r["alg"] == ref.DIRECT else rng.choice("pu")
                    ex = gen_extra(rng)
                    if ex[0] not in [x[0] for x in r["p"] + r["u"]]:
                        r[b].append(ex)
        m = {"spec": sp, "org": org, "p": rng.randrange(2)}
        if org == "ref" and kind in ("enc0", "mac0", "enc", "mac") and rng.random() < .08:
            m["null"] = True
        if org == "ref" and kind in ("enc", "mac") and rng.random() < .3:
            at = [k for k, r in enumerate(sp["recipients"]) if r["alg"] in ref.KW_ALGS or r["alg"] in ref.KAKW_ALGS or r["alg"] in ref.OAEP_ALGS]
            m["inner"] = [[k, j(gen_inner(rng, 2))] for k in at if rng.random() < .7]
        pool.append(m)
        acts = []
        if org == "lib":
            acts.append({"a": "make"})
            for _ in range(rng.choice([0, 0, 1, 2])):
                acts.append(rng.choice([gen_pedit, gen_uedit])(rng, sp))
            acts.append({"a": "send"})
            if rng.random() < .3:
                acts.append(gen_pedit(rng, sp))
                acts.append({"a": "send"})
        for hop in range(rng.choice([1, 1, 2, 3, 4])):
            acts.append({"a": "recv", "p": rng.randrange(2), "dec": rng.choice(["any", "cls"])})
            for _ in range(rng.choice([0, 1, 2, 4])):
                x = rng.random()
                if x < .3:
                    acts.append({"a": "look", "how": rng.randrange(64), "k": rng.randrange(8)})
                elif x < .6:
                    acts.append(gen_uedit(rng, sp))
                elif x < .7:
                    acts.append({"a": "badedit", "how": rng.randrange(6)})
                elif x < .78:
                    acts.append({"a": "crash", "p": rng.randrange(2)})
                elif x < .9:
                    acts.append({"a": "fwd", "tag": rng.random() < .85, "keep": True})
                else:
                    acts.append(gen_pedit(rng, sp))
                    acts.append({"a": "send" if rng.random() < .85 else "fwd"})
            acts.append({"a": "fwd"})
        acts.append({"a": "open", "p": rng.randrange(2), "i": rng.randrange(4)})
        for a in acts:
            a["m"] = n
            if a["a"] in ("recv", "fwd", "send", "look") and rng.random() < .15:
                a["fault"] = faults.gen(rng, 5 if a["a"] != "send" else 12)
        steps.append(acts)
    # interleave the messages' histories
    merged = []
    steps = [s for s in steps if s]
    while steps:
        s = rng.choice(steps)
        merged.append(s.pop(0))
        steps = [x for x in steps if x]
    return {"keys": keys, "pool": pool, "wseed": rng.randrange(1 << 40), "steps": merged}


def gen_uedit(rng, sp):
    how = rng.choice(["update", "update", "set", "del", "replace", "item", "clear"])
    return {"a": "uedit", "how": how, "items": gen_items(rng, [x[0] for x in sp["p"]]), "lab": rng.randrange(16), "spell": rng.choice(["cls", "id"])}


def gen_pedit(rng, sp):
    return {"a": "pedit", "how": rng.choice(["update", "update", "replace", "replace", "recipient", "item"]), "items": gen_items(rng, [x[0] for x in sp["u"]]),
            "i": rng.randrange(3), "drop": rng.randrange(8), "empty": rng.random() < .25, "alike": rng.randrange(1, 5) if rng.random() < .25 else 0}


def alike(v, n):
    """Another value that a careless comparison takes for v; None if there is none."""
    if isinstance(v, bool):
        return [int(v), float(v), not v][n % 3]
    if isinstance(v, (int, float)) and v == v and abs(v) < 2 ** 50 and v == int(v):
        if v in (0, 1) and n % 2:
            return bool(v)
        return int(v) if isinstance(v, float) else float(v)
    if isinstance(v, list):
        for k, x in enumerate(v):
            y = alike(x, n)
            if y is not None:
                return v[:k] + [y] + v[k + 1:]
    if isinstance(v, dict):
        for k, x in v.items():
            y = alike(x, n)
            if y is not None:
                return {**v, k: y}
    if isinstance(v, str) and n % 2 and v:
        return v.encode()
    if isinstance(v, bytes) and n % 2 and v.isascii() and v:
        return v.decode()
    return None


# ------------------------------------------------------------------ model

def fuzzy(v):
    """True when the value holds CBOR that has more than one reading (tags a decoder interprets, simple values, NaN)."""
    if isinstance(v, cbor.Tag):
        return v.tag in INTERPRETED or fuzzy(v.value)
    if isinstance(v, cbor.Simple) or (isinstance(v, float) and v != v):
        return True
    if isinstance(v, list):
        return any(map(fuzzy, v))
    if isinstance(v, dict):
        return any(fuzzy(k) or fuzzy(x) for k, x in v.items())
    return False


def mean(k, v):
    """What a header value means (algorithms by name or number, points compressed or not)."""
    if k == 1:
        return ref.algid(v)
    if k in (-1, -2) and isinstance(v, dict):
        v = dict(v)
        if isinstance(v.get(-3), bool):
            v[-3] = ref.point(v)[1]
        return v
    return v


def same_hdr(a, b):
    """Same labels, same meaning."""
    if list(map(canon, sorted(a, key=repr))) != list(map(canon, sorted(b, key=repr))):
        return False
    return all(fuzzy(v) or canon(mean(k, a[k])) == canon(mean(k, v)) for k, v in b.items())


def take(b):
    return cbor.dec(b)


class Sim:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.procs = [Incarnation(), Incarnation()]
        self.maps = [ref.key_map(k) for k in plan["keys"]]
        self.fl = []
        for n, m in enumerate(plan["pool"]):
            f = {"m": m, "spec": m["spec"], "kind": m["spec"]["kind"], "obj": None, "proc": m["p"], "wire": None, "hops": 0, "edited": False, "stale": False,
                 "acts": []}
            if m["org"] == "ref":
                w = msgs.ref_send(m["spec"], lambda i: self.maps[i], ("w%d/%d" % (plan["wseed"], n)).encode())
                if m.get("null"):
                    t = take(w)
                    f["real"] = t.value[2]
                    t.value[2] = None
                    w = cbor.enc(t)
                if m.get("inner"):
                    t = take(w)
                    for k, rs in m["inner"]:
                        t.value[-1][k].append(u(rs))
                    w = cbor.enc(t)
                    ctx.probe("inner_recipients")
                f["wire"] = w
                f["want"] = take(w).value
            self.fl.append(f)

    def go(self):
        for n, st in enumerate(self.plan["steps"]):
            f = self.fl[st["m"]]
            self.ctx.now += 1000
            seams.S.entropy = seams.Stream(self.plan["seed"], "step%d" % n)
            self.procs[f["proc"]].activate()
            getattr(self, "do_" + st["a"])(f, st)
            f["acts"].append(st["a"] + st.get("how", "") if isinstance(st.get("how", ""), str) else st["a"])
        for f in self.fl:
            self.ctx.state(f["kind"], f["acts"][:8], (f["spec"].get("style") or {}).get("penc"))

    def keyof(self, inc):
        return lambda i, priv=True: inc.keys.CoseKey.decode(cbor.enc(ref.key_map(self.plan["keys"][i], priv)))

    # ------------------------------ sending
    def do_make(self, f, st):
        inc = self.procs[f["proc"]]
        sp = f["spec"]
        if f["kind"] in ("enc", "mac"):
            f["obj"] = rcpts.build(inc, sp, [msgs.lib_rcpt(inc, r, self.keyof(inc)) for r in sp["recipients"]], self.keyof(inc))
        else:
            f["obj"] = msgs.lib_build(inc, sp, self.keyof(inc))
        pl = None if sp["detached"] else bytes.fromhex(sp["payload"])
        f["want"] = [self.phdr(sp), dict(msgs.hdr_items(sp, "u")), pl]
        if f["kind"] == "sign":
            f["want"].append([[self.phdr(s), dict(msgs.hdr_items(s, "u")), None] for s in sp["signers"]])
        if f["kind"] in ("enc", "mac"):
            f["rwant"] = [[self.phdr(r), dict(msgs.hdr_items(r, "u"))] for r in sp["recipients"]]
        f["made"] = True
        f["edited"] = True
        self.ctx.log("make", st["m"], f["kind"])

    def phdr(self, sp):
        """A protected bucket the library itself is going to encode: only its meaning is fixed."""
        return dict(msgs.hdr_items(sp, "p"))

    def do_send(self, f, st):
        """Protect (again) and encode."""
        o = f["obj"]
        if o is None:
            return
        sp, kind, inc = f["spec"], f["kind"], self.procs[f["proc"]]
        key = self.keyof(inc)
        if not f.get("made"):
            if f["m"].get("null"):
                return
            if kind in ("enc", "mac") and not all(r["alg"] == ref.DIRECT or r["alg"] in ref.KW_ALGS for r in sp["recipients"]):
                return
            if kind == "sign":
                for s, x in zip(o.signers, sp["signers"]):
                    s.key, s.external_aad = key(x["key"]), bytes.fromhex(x["aad"])
            else:
                o.external_aad = bytes.fromhex(sp["aad"])
                if kind in ("enc", "mac"):
                    for x, r in zip(o.recipients, sp["recipients"]):
                        if r["alg"] != ref.DIRECT:
                            x.key = key(r["key"])
                if sp.get("key") is not None:
                    o.key = key(sp["key"])
            if kind in ENC_KINDS:
                o.payload = bytes.fromhex(sp["payload"])
        f["stale"] = False
        r = self.encode(f, st, lambda: msgs.lib_encode(o, sp), "protecting and encoding")
        if r is None:
            return
        t = self.split(f, r)
        want = f["want"]
        self.cmp(f, t, want, "sent", protected=True)
        self.accept(f, r, "what was protected after an edit")
        f["wire"], f["want"] = r, t.value
        f["edited"] = False
        if f["made"] if "made" in f else False:
            self.ctx.probe("edited_before_first_send")
        else:
            self.ctx.probe("reprotected")
        if not f.get("made"):
            f["obj"] = None             # to be received again before it is relayed

    def encode(self, f, st, fn, what):
        ctx = self.ctx
        r, fired = faults.run(ctx, st.get("fault"), fn)
        if fired:
            ctx.log("faulted", st["m"], r.ok)
            if not r.ok:
                ctx.probe("retry_after_failure")
            r = lib(ctx, fn)
        if not r.ok:
            ctx.violate("not-encoded", "%s the %s message failed: %r" % (what, f["kind"], r))
            return None
        ctx.log(st["a"], st["m"], f["kind"], r.val.hex()[:160])
        return r.val

    # ------------------------------ relaying
    def do_recv(self, f, st):
        if f["wire"] is None:
            return
        f["proc"] = st["p"] % 2
        inc = self.procs[f["proc"]].activate()
        c = inc.messages.CoseMessage if st["dec"] == "any" else msgs.lib_cls(inc, f["kind"])
        r, fired = faults.run(self.ctx, st.get("fault"), c.decode, f["wire"])
        if fired and not r.ok:
            self.ctx.probe("retry_after_failure")
            r = lib(self.ctx, c.decode, f["wire"])
        if not r.ok:
            self.ctx.violate("not-decoded", "a relay cannot decode a legal %s message: %r" % (f["kind"], r))
        f["obj"], f["made"], f["edited"] = r.val, False, False
        f["want"] = take(f["wire"]).value
        f["hops"] += 1
        if f["hops"] > 1:
            self.ctx.probe("hops2")
        st_ = f["spec"].get("style") or {}
        if st_.get("penc") != "canon" or st_.get("empty") == "map" or st_.get("outer") != "canon":
            self.ctx.probe("odd_encoding")
        if any(isinstance(u(v), cbor.Raw) for _, v in f["spec"]["p"] + f["spec"]["u"]):
            self.ctx.probe("odd_values")
        if any(k in TEXT for k, _ in f["spec"]["p"] + f["spec"]["u"]):
            self.ctx.probe("text_labels")
        if f["spec"]["detached"] or f["m"].get("null"):
            self.ctx.probe("detached")
        if f["kind"] in ("enc", "mac"):
            self.ctx.probe("recipients")

    def do_look(self, f, st):
        """Things a relay may do that must not change what it forwards."""
        o = f["obj"]
        if o is None or f.get("made"):
            return
        inc, x = self.procs[f["proc"]], st["how"]
        H = inc.headers
        acts = [lambda: repr(o), lambda: (o.get_attr(H.Algorithm), o.get_attr(H.IV), o.get_attr(H.KID)), lambda: (o.phdr_encoded, o.uhdr_encoded, dict(o.phdr)),
                lambda: self.try_open(f, o, True), lambda: self.try_open(f, o, False),
                lambda: [repr(r) for r in getattr(o, "recipients", []) + getattr(o, "signers", [])]]

        def look():
            for n, a in enumerate(acts):
                if x >> n & 1:
                    try:
                        a()
                    except MemoryError:
                        raise
                    except Exception:
                        pass
        faults.run(self.ctx, st.get("fault"), look)

    def try_open(self, f, o, right):
        inc, sp = self.procs[f["proc"]], f["spec"]
        key = self.keyof(inc)
        kind = f["kind"]
        aad = bytes.fromhex(sp["aad"]) + (b"" if right else b"?")
        det = {"detached_payload": bytes.fromhex(sp["payload"])} if sp["detached"] else {}
        if kind == "sign":
            for s, x in zip(o.signers, sp["signers"]):
                s.key, s.external_aad = key(x["key"], False), bytes.fromhex(x["aad"])
                s.verify_signature(**det)
            return
        o.external_aad = aad
        if kind in ("enc", "mac"):
            r = sp["recipients"][0]
            if right and r["alg"] not in ref.DKA_ALGS:
                return rcpts.lib_open(inc, None, 0, r, key(r["key"]), aad, bytes.fromhex(r.get("supp_pub", "")), bytes.fromhex(r.get("supp_priv", "")), o)
            return
        o.key = key(sp["key"], kind != "sign1")
        return o.verify_signature(**det) if kind == "sign1" else o.verify_tag() if kind == "mac0" else o.decrypt()

    def spell(self, f, items, how="cls"):
        inc = self.procs[f["proc"]]
        return {msgs.lib_label(inc, u(k), how): u(v) for k, v in items}

    def do_uedit(self, f, st):
        o, ctx = f["obj"], self.ctx
        if o is None:
            return
        cur = f["want"][1]
        plabels = f["want"][0] if isinstance(f["want"][0], dict) else ref.hdr(f["want"][0])
        items = [it for it in st["items"] if u(it[0]) not in plabels]
        new = {u(k): u(v) for k, v in items}
        d = self.spell(f, items)
        free = [k for k in cur if k not in (1, 5, 6) and not isinstance(k, bool)]
        how = st["how"]
        if how in ("del", "item") and not (free if how == "del" else items):
            return
        if how == "update":
            fn, res = (lambda: o.uhdr_update(d)), {**cur, **new}
        elif how in ("set", "replace"):
            keep = {k: v for k, v in o.uhdr.items() if msgs.plain_val(k) in (1, 5, 6)}
            fn, res = (lambda: setattr(o, "uhdr", {**keep, **d})), {**{k: v for k, v in cur.items() if k in (1, 5, 6)}, **new}
        elif how == "clear":
            if any(k in cur for k in (1, 5, 6)):
                return
            fn, res = o.uhdr.clear, {}
        elif how == "item":
            k = items[0]
            fn, res = (lambda: o.uhdr.__setitem__(msgs.lib_label(self.procs[f["proc"]], u(k[0]), "cls"), u(k[1]))), {**cur, u(k[0]): u(k[1])}
        else:
            lab = sorted(free, key=repr)[st["lab"] % len(free)]
            obj = next(k for k in o.uhdr if canon(msgs.plain_val(k)) == canon(lab))
            fn, res = (lambda: o.uhdr.__delitem__(obj)), {k: v for k, v in cur.items() if k is not lab and k != lab}
        r = lib(ctx, fn)
        if not r.ok:
            ctx.violate("uhdr", "editing the unprotected header (%s) failed: %r" % (how, r))
        f["want"][1] = res
        ctx.probe("uhdr_edit")
        ctx.fault("edit_unprotected")
        ctx.log("uedit", st["m"], how)

    def do_pedit(self, f, st):
        o, ctx = f["obj"], self.ctx
        if o is None:
            return
        inc = self.procs[f["proc"]]
        tgt, slot = o, f["want"]
        if f["kind"] == "sign" and st["how"] == "recipient":
            n = st["i"] % len(o.signers)
            tgt, slot = o.signers[n], f["want"][3][n]
        elif st["how"] == "recipient" and f["kind"] in ("enc", "mac") and f.get("made"):
            n = st["i"] % len(o.recipients)
            if f["spec"]["recipients"][n]["alg"] in (ref.DIRECT, -40, -41, -42, *ref.KW_ALGS):
                return
            tgt, slot = o.recipients[n], f["rwant"][n]
        if st["how"] == "item" and not f.get("made"):
            return                  # the bytes that were received stay in force
        ul = slot[1]
        items = [it for it in st["items"] if u(it[0]) not in ul]
        if st.get("alike"):
            # the same labels with values that compare equal, or look the same, but are not
            now = slot[0] if isinstance(slot[0], dict) else ref.hdr(slot[0]) if slot[0] is not None else {}
            same = [[k, alike(v, st["alike"])] for k, v in now.items()
                    if not (isinstance(k, int) and 1 <= k <= 10) and isinstance(k, (int, str)) and not isinstance(k, bool) and not fuzzy(v)]
            same = [[j(k), j(v)] for k, v in same if v is not None]
            if same:
                items = same
                ctx.probe("edited_to_lookalike")
        if st["how"] == "replace" and st["empty"]:
            items = []
        elif not items:
            return
        new, d = {u(k): u(v) for k, v in items}, self.spell(f, items)
        cur = slot[0] if isinstance(slot[0], dict) else ref.hdr(slot[0]) if slot[0] is not None else {}
        if st["how"] == "replace":
            keep = {k: v for k, v in tgt.phdr.items() if msgs.plain_val(k) in (1, 5, 6)}
            r = lib(ctx, lambda: setattr(tgt, "phdr", {**keep, **d}))
            res = {**{k: v for k, v in cur.items() if k in (1, 5, 6)}, **new}
            ctx.probe("phdr_set")
        elif st["how"] == "item":
            r = lib(ctx, lambda: [tgt.phdr.__setitem__(k, v) for k, v in d.items()])
            res = {**cur, **new}
            ctx.probe("phdr_item")
        else:
            r = lib(ctx, lambda: tgt.phdr_update(d))
            res = {**cur, **new}
            ctx.probe("phdr_update")
        if not r.ok:
            ctx.violate("phdr", "editing the protected header failed: %r" % r)
        slot[0] = res
        f["edited"] = f["stale"] = True
        ctx.fault("edit_protected")
        ctx.log("pedit", st["m"], st["how"])

    def do_badedit(self, f, st):
        o = f["obj"]
        if o is None:
            return
        bad = [lambda: setattr(o, "phdr", None), lambda: setattr(o, "phdr", [1]), lambda: o.phdr_update([1, 2]), lambda: setattr(o, "uhdr", b"x"),
               lambda: o.uhdr_update(7), lambda: setattr(o, "payload", "text")][st["how"] % 6]
        r = lib(self.ctx, bad)
        if r.ok:
            self.ctx.violate("bad-edit", "an ill-typed edit (%d) was accepted" % st["how"])
        self.ctx.probe("failed_edit")
        self.ctx.fault("failed_edit")

    def do_crash(self, f, st):
        p = st["p"] % 2
        self.procs[p] = Incarnation()
        for g in self.fl:
            if g["proc"] == p and g["obj"] is not None:
                g["obj"] = None
                if g["wire"] is not None:       # decoded again from the stored bytes
                    g["obj"] = self.procs[p].messages.CoseMessage.decode(g["wire"])
                    g["want"], g["made"], g["edited"], g["stale"] = take(g["wire"]).value, False, False, g.get("wstale", False)
        self.ctx.probe("relay_crash")
        self.ctx.fault("relay_crash")
        self.ctx.log("crash", p)

    def do_fwd(self, f, st):
        o = f["obj"]
        if o is None or f.get("made") or f["kind"] == "sign":
            return
        flag = "sign" if f["kind"] == "sign1" else "mac" if f["kind"] in MAC_KINDS else "encrypt"
        tag = st.get("tag", True)
        w = self.encode(f, st, lambda: o.encode(tag=tag, **{flag: False}), "encoding without protecting")
        if w is None:
            return
        if not tag:
            w = cbor.enc(cbor.Tag(ref.TAGS[f["kind"]], cbor.Raw(w)))
        t = self.split(f, w)
        self.cmp(f, t, f["want"], "forwarded")
        self.ctx.probe("forwarded")
        self.ctx.fault("relayed")
        if not st.get("keep"):
            f["wire"] = w
            f["wstale"] = f["stale"]

    def split(self, f, w):
        try:
            t = cbor.dec(w, strict=True)
            if not isinstance(t, cbor.Tag) or t.tag != ref.TAGS[f["kind"]] or not isinstance(t.value, list):
                raise ref.RefError("tag")
            ref.hdr(t.value[0])
            return t
        except (cbor.CborError, ref.RefError) as e:
            self.ctx.violate("malformed", "the %s message that was encoded cannot be read: %r" % (f["kind"], e))

    def bucket(self, f, got, want, what):
        """Protected bucket: byte for byte as received, or with the meaning of the edited one."""
        if isinstance(want, dict):
            if not same_hdr(ref.hdr(got) if got is not None else {}, want):
                self.ctx.violate("edit-lost", "%s: the protected header should be the edited one %r but is %r" % (what, want, ref.hdr(got)))
        elif (got or b"") != (want or b""):
            self.ctx.violate("protected-changed", "%s: the protected header %s was received, %s is passed on" % (what, hx(want), hx(got)))

    def cmp(self, f, t, want, how, protected=False):
        ctx, kind, a = self.ctx, f["kind"], t.value
        what = "%s %s message" % (how, kind)
        self.bucket(f, a[0], want[0], what)
        if not same_hdr(a[1], want[1]):
            ctx.violate("unprotected-changed", "%s: unprotected header is %r, should be %r" % (what, a[1], want[1]))
        if not (protected and kind in ENC_KINDS) and canon(a[2]) != canon(want[2]):
            ctx.violate("payload-changed", "%s: payload was %s, is %s" % (what, hx(want[2]), hx(a[2])))
        if kind == "sign":
            if len(a) != 4 or len(a[3]) != len(want[3]):
                ctx.violate("signers-changed", "%s has other signers" % what)
            for x, y in zip(a[3], want[3]):
                self.bucket(f, x[0], y[0], what + " signer")
                if not same_hdr(x[1], y[1]):
                    ctx.violate("unprotected-changed", "%s: unprotected header of a signer changed" % what)
            return
        if protected:
            if isinstance(want[0], bytes) or len(want) > 3 and f.get("made") is False:
                rl = want[-1] if kind in ("enc", "mac") else []
                if kind in ("enc", "mac") and len(a[-1]) != len(rl):
                    ctx.violate("recipients-changed", "%s: %d of %d recipients" % (what, len(a[-1]), len(rl)))
            elif kind in ("enc", "mac"):
                if len(a[-1]) != len(f["rwant"]):
                    ctx.violate("recipients-changed", "%s: %d of %d recipients" % (what, len(a[-1]), len(f["rwant"])))
                for i, (x, y) in enumerate(zip(a[-1], f["rwant"])):
                    self.bucket(f, x[0], y[0], "%s, recipient %d" % (what, i))
            return
        if len(a) != len(want):
            ctx.violate("elements-changed", "%s: %d elements were received, %d are passed on" % (what, len(want), len(a)))
        if kind in ("mac0", "mac", "sign1") and a[3] != want[3]:
            ctx.violate("tag-changed", "%s: tag or signature was %s, is %s" % (what, hx(want[3]), hx(a[3])))
        if kind in ("enc", "mac"):
            self.rcpts(a[-1], want[-1], what)

    def rcpts(self, a, want, what):
        ctx = self.ctx
        if len(a) != len(want):
            ctx.violate("recipients-changed", "%s: %d recipients were received, %d are passed on" % (what, len(want), len(a)))
        for i, (x, y) in enumerate(zip(a, want)):
            wh = "%s, recipient %d (alg %s)" % (what, i, y[1].get(1))
            self.bucket(None, x[0], y[0], wh)
            if not same_hdr(x[1], y[1]):
                ctx.violate("unprotected-changed", "%s: unprotected header is %r, should be %r" % (wh, x[1], y[1]))
            if x[2] != y[2]:
                ctx.violate("recipient-changed", "%s: encrypted key was %s, is %s" % (wh, hx(y[2]), hx(x[2])))
            if len(x) != len(y):
                ctx.violate("recipients-changed", "%s: %d elements were received, %d are passed on" % (wh, len(y), len(x)))
            if len(y) > 3:
                self.rcpts(x[3], y[3], wh)

    # ------------------------------ the final receiver
    def do_open(self, f, st):
        if f["wire"] is None or f.get("wstale"):
            return
        if f["m"].get("null"):
            t = take(f["wire"])
            t.value[2] = f["real"]
            f["wire"] = cbor.enc(t)
        self.accept(f, f["wire"], "the forwarded message", st["i"])
        inc = self.procs[st["p"] % 2].activate()
        r = lib(self.ctx, judge.lib_accept, inc, f["spec"], f["wire"], self.keyof(inc), st["i"])
        if not r.ok or r.val != bytes.fromhex(f["spec"]["payload"]):
            self.ctx.violate("receiver-rejects", "the library's receiver rejects the forwarded %s message or reads something else: %r" % (f["kind"], r))
        self.ctx.probe("received_by_library")
        self.ctx.log("opened", st["m"])

    def accept(self, f, wire, what, i=None):
        """An independent receiver takes it."""
        e = judge.reason(f["spec"], wire, self.maps)
        if e is not None:
            self.ctx.violate("receiver-rejects", "an independent receiver rejects %s (%s): %r" % (what, f["kind"], e))
        self.ctx.probe("received_by_reference")


def hx(b):
    return b.hex()[:120] if isinstance(b, bytes) else repr(b)


def run(plan, ctx):
    Sim(plan, ctx).go()


def reduce(plan):
    for si, st in enumerate(plan["steps"]):
        if st.get("fault"):
            q = list(plan["steps"])
            q[si] = {x: y for x, y in st.items() if x != "fault"}
            yield {**plan, "steps": q}
        for k in range(len(st.get("items", [])) if len(st.get("items", [])) > 1 else 0):
            q = list(plan["steps"])
            q[si] = {**st, "items": st["items"][:k] + st["items"][k + 1:]}
            yield {**plan, "steps": q}
    for mi, m in enumerate(plan["pool"]):
        for b in ("p", "u"):
            for k in range(len(m["spec"][b])):
                q = list(plan["pool"])
                q[mi] = {**m, "spec": {**m["spec"], b: m["spec"][b][:k] + m["spec"][b][k + 1:]}}
                yield {**plan, "pool": q}
