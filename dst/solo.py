"""Operations that stand on their own: what a process does with messages and keys, as plain data in and out,
and the independent judgement of the results."""
from . import cbor, msgs, rcpts, ref
from .loader import Incarnation
from .plain import canon
from .traffic import Traffic, SIGN_KINDS, MAC_KINDS


class World:
    """One process, its shared objects and the programs' operations."""

    def __init__(self, plan, ctx, chk, inc=None):
        self.plan, self.ctx, self.chk = plan, ctx, chk
        self.inc = inc or Incarnation()
        self.cache = {}
        self.maps = chk.maps
        n = plan["n"]
        for i, k in enumerate(plan["keys"]):
            for priv in (True, False):
                self.cache[(i, priv)] = self.load(i, priv)
        self.tmpl = [(msgs.lib_hdr(self.inc, s, "p"), msgs.lib_hdr(self.inc, s, "u")) for s in plan["tmpl"]]
        self.tmpl0 = [[msgs.norm_hdr(a), msgs.norm_hdr(b)] for a, b in self.tmpl]
        self.stmpl = [[(msgs.lib_hdr(self.inc, x, "p"), msgs.lib_hdr(self.inc, x, "u")) for x in s.get("signers", [])] for s in plan["tmpl"]]
        self.wires = chk.pool
        self.objs = [self.prepare(s, w) for s, w in zip(plan["pool"], self.wires)]

    def load(self, i, priv=True):
        return self.inc.keys.CoseKey.decode(cbor.enc(ref.key_map(self.plan["keys"][i], priv)))

    def key(self, i, priv=True):
        return self.cache[(i, priv)]

    def prepare(self, spec, wire):
        """A received message ready to be opened by anyone (keys and external data set)."""
        inc, kind = self.inc, spec["kind"]
        m = inc.messages.CoseMessage.decode(wire)
        if kind == "sign":
            for o, s in zip(m.signers, spec["signers"]):
                o.key = self.key(s["key"], False)
                o.external_aad = bytes.fromhex(s["aad"])
            return m
        m.external_aad = bytes.fromhex(spec["aad"])
        if kind in ("enc", "mac"):
            H = inc.headers
            for o, r in zip(m.recipients, spec["recipients"]):
                if r["alg"] == ref.DIRECT:
                    m.key = self.key(r["key"])
                    continue
                o.key = self.key(r["key"])
                la = {}
                if r.get("supp_pub"):
                    la[H.SuppPubOther] = bytes.fromhex(r["supp_pub"])
                if r.get("supp_priv"):
                    la[H.SuppPrivOther] = bytes.fromhex(r["supp_priv"])
                if la:
                    o.local_attrs = la
            if kind == "mac" and spec["recipients"][0]["alg"] != ref.DIRECT:
                m.key = inc.keys.SymmetricKey(k=self.chk.ceks[self.wires.index(wire)])
            return m
        m.key = self.key(spec["key"], kind not in SIGN_KINDS)
        return m

    # ------------------------------------------------------ operations; each returns plain data
    def op(self, st):
        try:
            return ("ok", getattr(self, "op_" + st["op"])(st))
        except Exception as e:
            return ("error", type(e).__name__, str(e)[:100])

    def build(self, spec):
        inc = self.inc
        kind = spec["kind"]
        if spec.get("_tmpl") is None:
            if kind in ("enc", "mac"):
                return rcpts.build(inc, spec, [msgs.lib_rcpt(inc, r, self.key) for r in spec["recipients"]], self.key)
            return msgs.lib_build(inc, spec, self.key)
        k = spec["_tmpl"]
        ph, uh = self.tmpl[k]
        kw = {"phdr": ph, "uhdr": uh, "payload": None if spec["detached"] else bytes.fromhex(spec["payload"])}
        if (spec.get("style") or {}).get("tstr"):
            kw["alg_tstr_encoding"] = True
        if kind == "sign":
            ss = []
            for (a, b), s in zip(self.stmpl[k], spec["signers"]):
                kt = {"alg_tstr_encoding": True} if (s.get("style") or {}).get("tstr") else {}
                ss.append(inc.signer.CoseSignature(phdr=a, uhdr=b, key=self.key(s["key"]), external_aad=bytes.fromhex(s["aad"]), **kt))
            return msgs.lib_cls(inc, kind)(signers=ss, **kw)
        kw["external_aad"] = bytes.fromhex(spec["aad"])
        if spec.get("key") is not None:
            kw["key"] = self.key(spec["key"])
        if kind in ("enc", "mac"):
            kw["recipients"] = [msgs.lib_rcpt(inc, r, self.key) for r in spec["recipients"]]
        return msgs.lib_cls(inc, kind)(**kw)

    def op_send(self, st):
        spec = st["spec"]
        m = self.build(spec)
        out = [msgs.lib_encode(m, spec)]
        if st["again"]:
            out.append(msgs.lib_encode(m, spec))
        if st["rt"]:
            out2 = self.open_wire(spec, out[0], 0, self.key)
            return {"wires": out, "opened": out2}
        return {"wires": out}

    def op_recv(self, st):
        spec, wire = self.plan["pool"][st["w"]], self.wires[st["w"]]
        key = self.key if st["key"] == "shared" else self.load
        if st["how"] == "cut":
            wire = wire[:len(wire) * 2 // 3]
        return self.open_wire(spec, wire, st["i"], key, b"!" if st["how"] == "aad" else b"")

    def open_wire(self, spec, wire, i, key, extra=b""):
        inc, kind = self.inc, spec["kind"]
        m = inc.messages.CoseMessage.decode(wire)
        seen = [type(m).__name__, hdrs(m)]
        det = bytes.fromhex(spec["payload"]) if spec["detached"] else None
        kw = {"detached_payload": det} if det is not None else {}
        if kind == "sign":
            res = []
            for o, s in zip(m.signers, spec["signers"]):
                o.key = key(s["key"], False)
                o.external_aad = bytes.fromhex(s["aad"]) + extra
                res.append((o.verify_signature(**kw), hdrs(o)))
            return seen + res
        aad = bytes.fromhex(spec["aad"]) + extra
        if kind in ("enc", "mac"):
            rl = spec["recipients"]
            r = rl[i % len(rl)]
            seen += [hdrs(o) for o in m.recipients]
            try:
                return seen + list(rcpts.lib_open(inc, wire, i % len(rl), r, key(r["key"], True), aad, bytes.fromhex(r.get("supp_pub", "")),
                                                  bytes.fromhex(r.get("supp_priv", "")), m))
            except rcpts.Rejected:
                return seen + [False]
        m.key = key(spec["key"], kind not in SIGN_KINDS)
        m.external_aad = aad
        if kind == "sign1":
            return seen + [m.verify_signature(**kw), m.payload]
        if kind == "mac0":
            return seen + [m.verify_tag(), m.payload]
        return seen + [m.decrypt()]

    def op_open(self, st):
        spec, m = self.plan["pool"][st["w"]], self.objs[st["w"]]
        kind = spec["kind"]
        det = bytes.fromhex(spec["payload"]) if spec["detached"] else None
        kw = {"detached_payload": det} if det is not None else {}
        if kind == "sign":
            return m.signers[st["i"] % len(m.signers)].verify_signature(**kw)
        if kind == "sign1":
            return m.verify_signature(**kw)
        if kind in MAC_KINDS:
            return m.verify_tag()
        if kind == "enc0":
            return m.decrypt()
        return m.decrypt(m.recipients[st["i"] % len(m.recipients)])

    def op_gen(self, st):
        inc, a = self.inc, st["arg"]
        if st["what"] == "sym":
            return inc.keys.SymmetricKey.generate_key([16, 24, 32][a % 3]).encode()
        if st["what"] == "ec2":
            return inc.keys.EC2Key.generate_key(inc.curves.CoseCurve.from_id([1, 2, 3][a % 3])).encode()
        return inc.keys.OKPKey.generate_key(inc.curves.CoseCurve.from_id([6, 7][a % 2])).encode()

    def op_load(self, st):
        k, sh = self.load(st["k"]), self.key(st["k"])
        return [canon(msgs.plain_val(dict(k))), canon(cbor.dec(k.encode())), canon(cbor.dec(sh.encode())),
                [canon(msgs.plain_val(getattr(sh, a))) for a in ("kty", "kid", "alg", "base_iv")], canon(msgs.plain_val(dict(sh))), len(sh)]

    def op_store(self, st):
        sh = self.key(st["k"])
        return [[canon(cbor.dec(sh.encode())), sh.base_iv, sh.kid, len(sh)] for _ in range(st["n"])]

    def op_hash(self, st):
        return self.inc.algorithms.CoseAlgorithm.from_id(st["alg"]).compute_hash(bytes.fromhex(st["v"]))


def hdrs(m):
    return (msgs.norm_hdr(m.phdr), msgs.norm_hdr(m.uhdr))


class Check(Traffic):
    """What the results must be."""

    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.keys = plan["keys"]
        self.maps = [ref.key_map(k) for k in self.keys]
        self.pool, self.ceks = [], []
        for n, s in enumerate(plan["pool"]):
            w = msgs.ref_send(s, lambda i: self.maps[i], ("%s/%d" % (plan["seed"], n)).encode())
            self.pool.append(w)
            cek = None
            if s["kind"] in ("enc", "mac"):
                r = s["recipients"][0]
                cek = rcpts.ref_open(w, 0, self.maps[r["key"]], bytes.fromhex(s["aad"]), bytes.fromhex(r.get("supp_pub", "")),
                                     bytes.fromhex(r.get("supp_priv", "")))[1]
            self.ceks.append(cek)
        self.secrets = {}

    def wire(self, spec, wire, who):
        """Independent check of an encoded message; -> what must not depend on the schedule."""
        kind = spec["kind"]
        if kind in ("enc", "mac"):
            cek = rcpts.check_wire(self.ctx, spec, spec["recipients"], wire, self.maps, "message of " + who)
            if cek is not None and spec["recipients"][0]["alg"] not in ref.DKA_ALGS and spec.get("key") is None:
                self.secret(cek, "content key of a message of " + who)
        else:
            self.check_interop_out({"spec": spec}, wire)
        _, a = ref.parse(wire)
        rand = kind in ("enc", "mac") or self.pss(spec)
        shape = [a[0], canon(a[1])]
        if kind == "sign":
            shape += [[x[0], canon(x[1])] for x in a[3]]
        elif kind in ("enc", "mac"):
            shape += [[x[0], canon({k: v for k, v in x[1].items() if k != -1}), len(x[2])] for x in a[-1]]
        return shape if rand else [shape, wire]

    def pss(self, spec):
        algs = [s["alg"] for s in spec["signers"]] if spec["kind"] == "sign" else [spec["alg"]]
        return any(x in ref.SIGN_ALGS and ref.SIGN_ALGS[x][0] == "PS" for x in algs)

    def secret(self, s, what):
        if s in self.secrets:
            self.ctx.violate("secret-shared", "%s equals %s" % (what, self.secrets[s]))
        self.secrets[s] = what

    def result(self, st, r, who):
        """Reduce an outcome to what must be the same in every schedule, checking it on the way."""
        if r[0] != "ok":
            return r[:2]
        v = r[1]
        if st["op"] == "send":
            ws = [self.wire(st["spec"], w, who) for w in v["wires"][:1]]
            for w in v["wires"][1:]:
                sp = st["spec"]
                if sp["kind"] in ("enc", "mac"):
                    rcpts.check_wire(self.ctx, sp, sp["recipients"], w, self.maps, "message of " + who)
                else:
                    self.check_interop_out({"spec": sp}, w)
            o = v.get("opened")
            if o is not None and st["spec"]["kind"] in ("enc", "mac"):
                o = [o[0], o[-2]]
            return ("ok", ws, o)
        if st["op"] == "gen":
            m = cbor.dec(v)
            if m[1] == 2:
                good = ref.ec_pub(m[-1], m[-4]) == (m[-2], m[-3])
            elif m[1] == 1:
                good = ref.okp_pub(m[-1], m[-4]) == m[-2]
            else:
                good = True
            if not good:
                self.ctx.violate("wrong-key", "%s generated an inconsistent key" % who)
            self.secret(m[-1] if m[1] == 4 else m[-4], "key generated by " + who)
            return ("ok", m[1], len(v))
        return r
