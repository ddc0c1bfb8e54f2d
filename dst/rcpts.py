"""Recipients: generation, the sender's objects, and opening messages on both sides."""
from . import cbor, msgs, ref
from .msgs import hdr_items, rspec_hdr
from .plain import canon, j, u

EPK, SPK, SALT = -1, -2, -20
PARTY = (-21, -22, -23, -24, -25, -26)
KEYLEN = {**{a: v[1] for a, v in ref.ENC_ALGS.items()}, **{a: v[3] for a, v in ref.MAC_ALGS.items()}}
MAC_OK = (4, 5, 14, 15, 25, 26)          # content keys of 16/32 bytes
ECDH = tuple(ref.DKA_ALGS) + tuple(ref.KAKW_ALGS)


def mode(alg):
    return (ref.DKA_ALGS.get(alg) or ref.KAKW_ALGS.get(alg))[0]


def family(alg):
    return ("direct" if alg == ref.DIRECT else "kw" if alg in ref.KW_ALGS else "oaep" if alg in ref.OAEP_ALGS
            else "dka" if alg in ref.DKA_ALGS else "kakw")


class KeyRing:
    """Index of the keys in a plan by what they can be used for."""

    def __init__(self, keys):
        self.keys = keys

    def get(self, rng, want, mk, p_new=.45):
        have = [i for i, k in enumerate(self.keys) if all(k.get(a) == b for a, b in want.items())]
        if have and rng.random() > p_new:
            return rng.choice(have)
        k = mk()
        if rng.random() < .3 and not k.get("params"):
            k = {**k, "params": {"2": {"b": rng.choice(["01", "01", "02"])}}}
        self.keys.append({**k, **{k: v for k, v in want.items() if k.startswith("_")}})
        return len(self.keys) - 1

    def sym(self, rng, n, use="kek"):
        return self.get(rng, {"t": "sym", "_n": n, "_use": use}, lambda: msgs.gen_sym(rng, n))

    def ec(self, rng, crv):
        return self.get(rng, {"t": "ec2", "crv": crv}, lambda: msgs.gen_ec(rng, crv))

    def rsa(self, rng):
        return self.get(rng, {"t": "rsa"}, lambda: msgs.gen_rsa(rng))


def gen_rspec(rng, ring, alg, cek=None):
    r = {"alg": alg, "alg_in": "u", "p": [], "u": [], "key": None}
    if rng.random() < .5:
        r["u"].append([4, j(rng.randbytes(rng.choice([1, 2, 8])))])
    if rng.random() < .2:
        r["u"].append([rng.choice([1000, "hdr", -70001]), j(msgs.gen_value(rng))])
    if alg == ref.DIRECT:
        r["key"] = cek
        return r
    if alg in ref.KW_ALGS:
        r["key"] = ring.sym(rng, ref.KW_ALGS[alg])
        return r
    if alg in ref.OAEP_ALGS:
        r["key"] = ring.rsa(rng)
        return r
    r["alg_in"] = rng.choice("pu")
    crv = rng.choice([1, 1, 2, 3])
    r["key"] = ring.ec(rng, crv)
    if mode(alg) == "ss":
        r["skey"] = ring.ec(rng, crv)
        r["skey_spec"] = ring.keys[r["skey"]]
    elif rng.random() < .25:
        r["eph"] = ring.ec(rng, crv)
        r["eph_spec"] = ring.keys[r["eph"]]
    # few values, so that fields often agree; an empty field is not a missing one, and a nonce may be a number
    few = [rng.randbytes(rng.choice([1, 4, 16, 32])) for _ in range(2)]
    often = rng.choice([.2, .2, .7])
    for lab in PARTY + (SALT,):
        if rng.random() < often:
            v = rng.choice([few[0], few[0], few[1], rng.randbytes(8), b""])
            if lab in (-22, -25) and rng.random() < .2:
                v = rng.choice([0, 1, 70000])
            r[rng.choice("pu")].append([lab, j(v)])
    if rng.random() < .15:
        r["p"].append([rng.choice([77000, "ph"]), j(rng.randrange(1000))])
    if rng.random() < .25:
        r["supp_pub"] = rng.randbytes(rng.choice([1, 8, 20])).hex()
    if rng.random() < .25:
        r["supp_priv"] = rng.randbytes(rng.choice([1, 8, 20])).hex()
    r["style"] = {"penc": rng.choice(["canon", "canon", "wide", "indef", "rev"]), "empty": rng.choice(["bstr", "map"])}
    return r


def gen_combo(rng, ring, kind, tgt, cek=None, n=None):
    """Recipient specs of a legal combination. -> (list, direct key index or None)."""
    x = rng.random()
    if x < .12:
        cek = cek if cek is not None else ring.sym(rng, KEYLEN[tgt], "cek%d" % tgt)
        return [gen_rspec(rng, ring, ref.DIRECT, cek) for _ in range(rng.choice([1, 1, 2]))], cek
    if x < .35:
        return [gen_rspec(rng, ring, rng.choice(list(ref.DKA_ALGS)))], None
    algs = list(ref.KW_ALGS) * 3 + list(ref.OAEP_ALGS) * 2 + list(ref.KAKW_ALGS) * 2
    return [gen_rspec(rng, ring, rng.choice(algs)) for _ in range(n or rng.choice([1, 1, 2, 2, 3, 4]))], None


def gen_spec(rng, ring, kind, n=None, tgt=None):
    tgt = tgt or (rng.choice(list(ref.ENC_ALGS)) if kind == "enc" else rng.choice(MAC_OK))
    sp = msgs.gen_spec(rng, kind, tgt, None)
    sp["payload"] = sp["payload"][:800]
    sp["aad"] = sp["aad"][:400]
    sp["recipients"], sp["key"] = gen_combo(rng, ring, kind, tgt, n=n)
    return sp


# ------------------------------------------------------------------ library sender

def build(inc, spec, robjs, keyof):
    """Message object with the given recipient objects."""
    kw = {"payload": bytes.fromhex(spec["payload"]), "external_aad": bytes.fromhex(spec["aad"])}
    if spec.get("key") is not None:
        kw["key"] = keyof(spec["key"])
    how = (spec.get("style") or {}).get("how", "ctor")
    if how == "ctor":
        kw["recipients"] = list(robjs)
    m = msgs.lib_fill(inc, msgs.lib_cls(inc, spec["kind"]), spec, **kw)
    if how != "ctor":
        m.recipients = list(robjs)
    return m


# ------------------------------------------------------------------ opening

class Rejected(Exception):
    pass


def lib_open(inc, wire, ri, r, key, aad, supp_pub=b"", supp_priv=b"", obj=None, direct=False):
    """Open with recipient ri's key through the library. -> (payload, content key bytes or None)."""
    H = inc.headers
    m = obj if obj is not None else inc.messages.CoseMessage.decode(wire)
    m.external_aad = aad
    ro = m.recipients[ri]
    enc = type(m).__name__ == "EncMessage"
    if r["alg"] == ref.DIRECT:
        m.key = key
        if enc:
            return m.decrypt(ro), key.k
        if not m.verify_tag():
            raise Rejected()
        return m.payload, key.k
    ro.key = key
    local = {}
    # assigning local_attrs adds to those already set
    if supp_pub or obj is not None:
        local[H.SuppPubOther] = supp_pub
    if supp_priv or obj is not None:
        local[H.SuppPrivOther] = supp_priv
    if local:
        ro.local_attrs = local
    if enc and direct:
        return m.decrypt(ro), None
    cek = ro.compute_cek(m.get_attr(H.Algorithm), "decrypt")
    if enc:
        return m.decrypt(ro), cek.k
    m.key = inc.keys.SymmetricKey(k=cek.k)
    if not m.verify_tag():
        raise Rejected()
    return m.payload, cek.k


def ref_open(wire, ri, rkey, aad, supp_pub=b"", supp_priv=b""):
    """-> (payload, content key). RefError when rejected."""
    kind, a = ref.parse(wire)
    if kind not in ("enc", "mac"):
        raise ref.RefError("kind")
    rl = a[3] if kind == "enc" else a[4]
    alg = ref.algid(ref.merged(a[0], a[1]).get(1))
    if alg not in KEYLEN:
        raise ref.RefError("alg")
    cek = ref.rcpt_cek(rl[ri], alg, KEYLEN[alg], rkey, supp_pub, supp_priv)
    if len(cek) != KEYLEN[alg] and not (alg in ref.MAC_ALGS and ref.MAC_ALGS[alg][0] == "HMAC"):
        raise ref.RefError("content key of %d bytes for alg %d" % (len(cek), alg))
    if kind == "enc":
        return ref.ref_decrypt(wire, cek, aad), cek
    if not ref.ref_mac_ok(wire, cek, aad):
        raise ref.RefReject("tag")
    return a[2], cek


def check_wire(ctx, spec, rl, wire, maps, what="message"):
    """Every listed recipient must get in, in an independent implementation; the structure is as asked for."""
    kind = spec["kind"]
    payload, aad = bytes.fromhex(spec["payload"]), bytes.fromhex(spec["aad"])
    try:
        k, a = ref.parse(wire)
        cbor.dec(wire, strict=True)
        if k != kind or len(a) != (4 if kind == "enc" else 5):
            raise ref.RefError("structure of a %s message with %d elements" % (k, len(a)))
        ws = a[-1]
        if len(ws) != len(rl):
            raise ref.RefError("%d of %d recipients on the wire" % (len(ws), len(rl)))
        if canon(_algs(ref.hdr(a[0]))) != msgs.want_hdr(spec, "p") or canon(_algs(a[1])) != msgs.want_hdr(spec, "u"):
            raise ref.RefError("message headers on the wire differ")
        if kind == "mac" and a[2] != payload:
            raise ref.RefError("payload on the wire differs")
    except (ref.RefError, cbor.CborError, IndexError, TypeError, AttributeError) as e:
        ctx.violate("wire", "an independent RFC 8152 peer cannot read the %s %s: %r" % (kind, what, e))
        return None
    ceks = []
    for i, r in enumerate(rl):
        try:
            wu = {k: v for k, v in ws[i][1].items() if k not in (EPK, SPK)}
            if canon(_algs(ref.hdr(ws[i][0]))) != canon(dict(rspec_hdr(r, "p"))) or canon(_algs(wu)) != canon(dict(rspec_hdr(r, "u"))):
                raise ref.RefError("recipient headers on the wire differ")
            for lab in (EPK, SPK):
                if -4 in ws[i][1].get(lab, {}):
                    raise ref.RefError("private key in the recipient header")
            got, cek = ref_open(wire, i, maps[r["key"]], aad, bytes.fromhex(r.get("supp_pub", "")),
                                bytes.fromhex(r.get("supp_priv", "")))
        except (ref.RefError, cbor.CborError, IndexError, KeyError, TypeError, AttributeError, ValueError) as e:
            ctx.violate("recipient-shut-out", "recipient %d of %d (alg %s) cannot open the %s %s (content alg %s): %r" % (
                i, len(rl), r["alg"], kind, what, spec["alg"], e))
            return None
        if got != payload:
            ctx.violate("recipient-wrong-content", "recipient %d (alg %s) gets other content from the %s %s" % (i, r["alg"], kind, what))
        ceks.append(cek)
    if any(c != ceks[0] for c in ceks):
        ctx.violate("recipients-differ", "recipients of one %s %s get different content keys" % (kind, what))
    return ceks[0] if ceks else None


def _algs(h):
    h = dict(h)
    if 1 in h:
        h[1] = ref.algid(h[1])
    return h


# ------------------------------------------------------------------ recipients of recipients

def gen_tree(rng, ring, depth=0):
    """A key-wrap recipient whose key is got through recipients of its own."""
    r = gen_rspec(rng, ring, rng.choice(list(ref.KW_ALGS)))
    r["key"] = None
    if rng.random() < .3:
        r["inner"] = [gen_rspec(rng, ring, rng.choice(list(ref.DKA_ALGS)))]
        return r
    algs = list(ref.KW_ALGS) * 3 + list(ref.OAEP_ALGS) + list(ref.KAKW_ALGS)
    r["inner"] = [gen_tree(rng, ring, depth + 1) if depth < 2 and rng.random() < .25 else gen_rspec(rng, ring, rng.choice(algs))
                  for _ in range(rng.choice([1, 1, 2, 3]))]
    return r


def gen_nested(rng, ring, kind):
    sp = gen_spec(rng, ring, kind)
    algs = list(ref.KW_ALGS) * 3 + list(ref.OAEP_ALGS) + list(ref.KAKW_ALGS)
    sp["recipients"] = [gen_rspec(rng, ring, rng.choice(algs)) for _ in range(rng.choice([0, 0, 1, 2]))]
    for _ in range(rng.choice([1, 1, 1, 2])):
        sp["recipients"].insert(rng.randrange(len(sp["recipients"]) + 1), gen_tree(rng, ring))
    sp["key"] = None
    return sp


def leaves(rl, at=()):
    """(path, spec) of every recipient that a key belongs to."""
    for i, r in enumerate(rl):
        if r.get("inner"):
            yield from leaves(r["inner"], at + (i,))
        else:
            yield at + (i,), r


def inner_cek(w, r, path, target, keylen, rkey):
    sp, sv = bytes.fromhex(r.get("supp_pub", "")), bytes.fromhex(r.get("supp_priv", ""))
    if path:
        n = ref.KW_ALGS[r["alg"]]
        q = r["inner"][path[0]]
        if len(w) != 4 or len(w[3]) != len(r["inner"]):
            raise ref.RefError("recipients of a recipient are missing")
        rkey = {1: 4, -1: inner_cek(w[3][path[0]], q, path[1:], r["alg"], n, rkey)}
    return ref.rcpt_cek(w, target, keylen, rkey, sp, sv)


def ref_open_path(wire, rl, path, rkey, aad):
    kind, a = ref.parse(wire)
    ws = a[3] if kind == "enc" else a[4]
    alg = ref.algid(ref.merged(a[0], a[1]).get(1))
    if len(ws) != len(rl):
        raise ref.RefError("%d of %d recipients" % (len(ws), len(rl)))
    cek = inner_cek(ws[path[0]], rl[path[0]], path[1:], alg, KEYLEN[alg], rkey)
    if kind == "enc":
        return ref.ref_decrypt(wire, cek, aad), cek
    if not ref.ref_mac_ok(wire, cek, aad):
        raise ref.RefReject("tag")
    return a[2], cek


def lib_open_path(inc, m, rl, path, key, aad, direct):
    """Open a decoded message as the holder of the key of one recipient."""
    H = inc.headers
    m.external_aad = aad

    def forget(objs):
        for o in objs:
            o.key = None
            forget(o.recipients)
    forget(m.recipients)
    objs, specs = m.recipients, rl
    for i in path:
        o, r = objs[i], specs[i]
        objs, specs = o.recipients, r.get("inner")
    o.key = key
    local = {H.SuppPubOther: bytes.fromhex(r.get("supp_pub", "")), H.SuppPrivOther: bytes.fromhex(r.get("supp_priv", ""))}
    o.local_attrs = local
    ro = m.recipients[path[0]]
    enc = type(m).__name__ == "EncMessage"
    if enc and direct:
        return m.decrypt(ro), None
    cek = ro.compute_cek(m.get_attr(H.Algorithm), "decrypt")
    if enc:
        return m.decrypt(ro), cek.k
    m.key = inc.keys.SymmetricKey(k=cek.k)
    if not m.verify_tag():
        raise Rejected()
    return m.payload, cek.k
