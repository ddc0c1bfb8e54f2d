"""Message specs (plain data), how a library node and a reference peer send and open them."""
import hashlib

from . import cbor, ref, seams
from .plain import canon, j, rp, u

ALG, CRIT, CTY, KID, IV, PIV = 1, 2, 3, 4, 5, 6
EPK, SPK, SALT = -1, -2, -20

# ------------------------------------------------------------------ generation


def gen_size(rng):
    r = rng.random()
    if r < .5:
        return rng.choice([0, 1, 7, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65])
    if r < .9:
        return rng.randint(0, 300)
    if r < .985:
        return rng.choice([255, 256, 257, 1000, 4096])
    return rng.choice([65535, 65536, 70001])


def gen_bytes(rng, n):
    r = rng.random()
    if r < .8:
        return rng.randbytes(n)
    if r < .88:
        return b"\0" * n
    if r < .94:
        return b"\xff" * n
    return bytes(rng.choice(b"ab\0\xa0\xf6\xd8") for _ in range(n))


def gen_value(rng, depth=0):
    r = rng.random()
    if r < .3:
        return rng.choice([0, 1, 23, 24, 255, 256, 65535, 65536, 2 ** 32, 2 ** 63, -1, -24, -25, -257, -65537])
    if r < .55:
        return gen_bytes(rng, rng.choice([0, 1, 3, 8, 23, 24, 40]))
    if r < .7:
        return rng.choice(["", "a", "text/plain", "\u00fcber", "x" * 30])
    if r < .76:
        return rng.choice([True, False])
    if r < .9 and depth < 2:
        return [gen_value(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    if depth < 2:
        return {k: gen_value(rng, depth + 1) for k in rng.sample([1, 2, -5, "k", "zz", 400], rng.randint(0, 3))}
    return rng.randrange(1000)


EXTRA_LABELS = [1000, 70000, -70001, 256, "hdr", "x-App", "X-APP", "\u00e9t\u00e9", 24, 40, -300, 65536]


def gen_hdrs(rng, known=True, n=None):
    """Two disjoint header lists (protected, unprotected) without algorithm and IV."""
    labels = []
    n = rng.choice([0, 0, 1, 1, 2, 3, 5] * 6 + [12]) if n is None else n
    pool = list(EXTRA_LABELS) + ([KID, KID, CTY, CRIT, 9, 10] if known else [])
    p, q = [], []
    for _ in range(n):
        lab = rng.choice(pool)
        if lab in labels:
            continue
        labels.append(lab)
        if lab in (KID, 9, 10):
            v = gen_bytes(rng, rng.choice([0, 1, 4, 20, 33]))
        elif lab == CTY:
            v = rng.choice([0, 60, 1000, "text/plain", "a/b"])
        elif lab == CRIT:
            v = rng.choice([[1], [1, 4], ["hdr"], [1000, "hdr"]])
        elif rng.random() < .03:
            # as large as a certificate chain
            v = rng.choice([lambda: gen_bytes(rng, rng.choice([200, 255, 256, 300, 1500])),
                            lambda: [gen_bytes(rng, rng.randint(100, 700)) for _ in range(rng.randint(1, 3))],
                            lambda: "x" * rng.choice([255, 256, 70000])])()
        else:
            v = gen_value(rng)
        (p if rng.random() < .5 else q).append([j(lab), j(v)])
    return p, q


ES_CRV = {-7: 1, -35: 2, -36: 3}


def gen_sym(rng, n, params=None):
    return {"t": "sym", "k": rng.randbytes(n).hex(), "params": params or {}}


def gen_ec(rng, crv, params=None):
    d = (int.from_bytes(rng.randbytes(ref.CSIZE[crv]), "big") % (ref._ORDER[ref.CURVES[crv].name] - 1) + 1)
    if rng.random() < .15:
        d >>= rng.choice([8, 16])          # leading zero bytes
        d = d or 1
    return {"t": "ec2", "crv": crv, "d": d.to_bytes(ref.CSIZE[crv], "big").hex(), "params": params or {}}


def gen_okp(rng, crv, params=None):
    return {"t": "okp", "crv": crv, "d": rng.randbytes({6: 32, 7: 57}[crv]).hex(), "params": params or {}}


def gen_rsa(rng, params=None):
    return {"t": "rsa", "i": rng.randrange(4), "params": params or {}}


OPS = {"sym": [3, 4, 5, 6, 9, 10], "rsa": [1, 2, 3, 4, 5, 6], "ec2": [1, 2, 7, 8], "okp": [1, 2, 7, 8]}


def declare_ops(rng, keys, p=.4):
    """Let some keys declare everything they are used for (and more)."""
    for i, k in enumerate(keys):
        if rng.random() < p and k["t"] in OPS and "4" not in (k.get("params") or {}):
            o = list(OPS[k["t"]])
            rng.shuffle(o)
            keys[i] = {**k, "params": {**(k.get("params") or {}), "4": o}}


def decorate(rng, keys, p=.4):
    """Key identifiers, base IVs that nothing needs and private parameters."""
    for i, k in enumerate(keys):
        if rng.random() >= p:
            continue
        q = dict(k.get("params") or {})
        if rng.random() < .6:
            q.setdefault("2", {"b": rng.randbytes(rng.choice([1, 4, 24])).hex()})
        if rng.random() < .6 and k["t"] == "sym":
            q.setdefault("5", {"b": rng.randbytes(rng.choice([12, 13])).hex()})
        if rng.random() < .4:
            q.setdefault(rng.choice(["-70001", "1000", "owner", "_note"]), rng.randrange(100))
        keys[i] = {**k, "params": q}


def sign_key(rng, alg):
    fam = ref.SIGN_ALGS[alg][0]
    if fam == "ES":
        # RFC 8152 section 8.1: any of the curves may go with any of the hash functions
        return gen_ec(rng, ES_CRV[alg] if rng.random() < .8 else rng.choice([1, 2, 3]))
    if fam == "ED":
        return gen_okp(rng, rng.choice([6, 6, 7]))
    return gen_rsa(rng)


def pick_sign_alg(rng):
    return rng.choice([-7, -7, -7, -8, -8, -35, -36, -37, -38, -39, -257, -258, -259])


def mac_key(rng, alg):
    fam, h, tl, kl = ref.MAC_ALGS[alg]
    return gen_sym(rng, kl if fam == "CBC" else rng.choice([16, 24, 32, 32]))


def enc_key(rng, alg):
    return gen_sym(rng, ref.ENC_ALGS[alg][1])


def gen_style(rng):
    return {"label": rng.choice(["cls", "cls", "id", "name"]), "alg": rng.choice(["cls", "cls", "id", "name"]),
            "tstr": rng.random() < .12, "how": rng.choice(["ctor", "ctor", "ctor", "update", "setter"]),
            "penc": rng.choice(["canon", "canon", "canon", "wide", "indef", "rev"]),
            "empty": rng.choice(["bstr", "bstr", "map"]), "outer": rng.choice(["canon", "canon", "indef", "wide"])}


def gen_spec(rng, kind, alg=None, key=None):
    """A message spec. `key`: index into the plan's key list (filled in by the caller)."""
    p, q = gen_hdrs(rng)
    spec = {"kind": kind, "p": p, "u": q, "payload": gen_bytes(rng, gen_size(rng)).hex(),
            "aad": (gen_bytes(rng, gen_size(rng)) if rng.random() < .55 else b"").hex(),
            "alg": alg, "alg_in": rng.choice(["p", "p", "p", "u"]), "key": key, "style": gen_style(rng), "detached": False}
    if kind in ("sign1", "sign"):
        spec["detached"] = rng.random() < .25
    if kind in ("enc0", "enc"):
        spec["iv"] = gen_bytes(rng, ref.ENC_ALGS[alg][2]).hex()
        spec["iv_in"] = rng.choice(["p", "u", "u"])
        if ref.ENC_ALGS[alg][2] == 13:        # CCM with a 16-bit length field
            spec["payload"] = spec["payload"][:2 * 65535]
    return spec


# ------------------------------------------------------------------ library side

def label_cls(inc, lab):
    if isinstance(lab, int) and not isinstance(lab, bool):
        return inc.headers.CoseHeaderAttribute.get_registered_classes().get(lab)
    return None


def alg_cls(inc, a):
    return inc.algorithms.CoseAlgorithm.from_id(a)


def lib_label(inc, lab, style):
    c = label_cls(inc, lab)
    if c is None or style == "id":
        return lab
    return c.fullname if style == "name" else c


def lib_alg(inc, a, style):
    c = alg_cls(inc, a)
    return c if style == "cls" else a if style == "id" else c.fullname


def hdr_items(spec, bucket):
    """Plain (label, value) items of a bucket, algorithm and IV included."""
    out = []
    if spec.get("alg") is not None and spec.get("alg_in", "p") == bucket:
        out.append((ALG, spec["alg"]))
    if spec.get("iv") is not None and spec.get("iv_in", "u") == bucket:
        out.append((IV, bytes.fromhex(spec["iv"])))
    if spec.get("piv") is not None and spec.get("iv_in", "u") == bucket:
        out.append((PIV, bytes.fromhex(spec["piv"])))
    out += [(u(k), u(v)) for k, v in spec["p" if bucket == "p" else "u"]]
    return out


def lib_hdr(inc, spec, bucket, force_cls=False):
    st = spec.get("style") or {}
    out = {}
    for k, v in hdr_items(spec, bucket):
        if k == ALG:
            out[lib_label(inc, k, "cls" if force_cls else st.get("label", "cls"))] = \
                lib_alg(inc, v, "cls" if force_cls else st.get("alg", "cls"))
        else:
            out[lib_label(inc, k, "cls" if force_cls else st.get("label", "cls"))] = v
    return out


CLS = {"enc0": "Enc0Message", "mac0": "Mac0Message", "sign1": "Sign1Message", "enc": "EncMessage", "mac": "MacMessage",
       "sign": "SignMessage"}


def lib_cls(inc, kind):
    return getattr(inc.messages, CLS[kind])


def lib_fill(inc, cls, spec, **kw):
    """Construct an object the way the spec's style says."""
    st = spec.get("style") or {}
    how = st.get("how", "ctor")
    if st.get("tstr"):
        kw["alg_tstr_encoding"] = True
    if how == "ctor":
        return cls(phdr=lib_hdr(inc, spec, "p"), uhdr=lib_hdr(inc, spec, "u"), **kw)
    m = cls(**kw)
    if how == "update":
        m.phdr_update(lib_hdr(inc, spec, "p", True))
        m.uhdr_update(lib_hdr(inc, spec, "u", True))
    else:
        m.phdr = lib_hdr(inc, spec, "p", True)
        m.uhdr = lib_hdr(inc, spec, "u", True)
    return m


def lib_key(inc, b):
    return inc.keys.CoseKey.decode(b)


def key_bytes(spec, private=True):
    return cbor.enc(ref.key_map(spec, private))


def lib_build(inc, spec, keyof):
    """Message object from spec. keyof(index) -> library key object (private)."""
    kind = spec["kind"]
    cls = lib_cls(inc, kind)
    payload = None if spec["detached"] else bytes.fromhex(spec["payload"])
    kw = {"payload": payload}
    if kind == "sign":
        signers = []
        for s in spec["signers"]:
            signers.append(lib_fill(inc, inc.signer.CoseSignature, s, key=keyof(s["key"]),
                                    external_aad=bytes.fromhex(s["aad"])))
        if (spec.get("style") or {}).get("how") == "ctor":
            kw["signers"] = signers
            return lib_fill(inc, cls, spec, **kw)
        m = lib_fill(inc, cls, spec, **kw)
        m.signers = signers
        return m
    kw["external_aad"] = bytes.fromhex(spec["aad"])
    if spec.get("key") is not None:
        kw["key"] = keyof(spec["key"])
    if kind in ("enc", "mac"):
        kw["recipients"] = [lib_rcpt(inc, r, keyof) for r in spec["recipients"]]
    return lib_fill(inc, cls, spec, **kw)


RC = {}


def rcpt_class(inc, alg):
    if alg == ref.DIRECT:
        return inc.recipient.DirectEncryption
    if alg in ref.KW_ALGS or alg in ref.OAEP_ALGS:
        return inc.recipient.KeyWrap
    if alg in ref.DKA_ALGS:
        return inc.recipient.DirectKeyAgreement
    return inc.recipient.KeyAgreementWithKeyWrap


def rspec_hdr(r, bucket):
    out = []
    if r.get("alg_in", "u") == bucket:
        out.append((ALG, r["alg"]))
    return out + [(u(k), u(v)) for k, v in r["p" if bucket == "p" else "u"]]


def header_key(spec):
    """The sender's key for the header; one caller in four leaves the private part in it."""
    full = ref.key_map(spec, True)
    return {k: v for k, v in full.items() if k in (1, -1, -2, -3) or k == -4 and full[-2][-1] % 4 == 0}


def lib_rcpt(inc, r, keyof):
    """Sender-side recipient object."""
    H = inc.headers
    alg = r["alg"]
    cls = rcpt_class(inc, alg)

    def mk(bucket):
        return {lib_label(inc, k, "cls"): (lib_alg(inc, v, "cls") if k == ALG else v) for k, v in rspec_hdr(r, bucket)}
    ph, uh = mk("p"), mk("u")
    local = {}
    key = None
    if alg in ref.KW_ALGS or alg in ref.OAEP_ALGS:
        key = keyof(r["key"]) if r.get("key") is not None else None
    elif alg in ref.DKA_ALGS or alg in ref.KAKW_ALGS:
        local[H.StaticKey] = keyof(r["key"], False)
        mode = (ref.DKA_ALGS.get(alg) or ref.KAKW_ALGS.get(alg))[0]
        if mode == "ss":
            key = keyof(r["skey"])
            uh[H.StaticKey] = header_key(r["skey_spec"])
        elif r.get("eph") is not None:
            key = keyof(r["eph"])
            uh[H.EphemeralKey] = header_key(r["eph_spec"])
    if r.get("supp_pub"):
        local[H.SuppPubOther] = bytes.fromhex(r["supp_pub"])
    if r.get("supp_priv"):
        local[H.SuppPrivOther] = bytes.fromhex(r["supp_priv"])
    o = cls(phdr=ph, uhdr=uh)
    if key is not None:
        o.key = key
    if local:
        o.local_attrs = local
    if r.get("inner"):
        o.recipients = [lib_rcpt(inc, q, keyof) for q in r["inner"]]
    return o


def lib_encode(m, spec):
    kw = {}
    if spec["detached"]:
        kw["detached_payload"] = bytes.fromhex(spec["payload"])
    return m.encode(**kw)


# ------------------------------------------------------------------ decoded headers as plain data

def plain_val(v):
    if isinstance(v, type) and hasattr(v, "identifier"):
        return v.identifier
    if isinstance(v, (bytes, str, int, float, bool)) or v is None:
        return v
    if isinstance(v, (list, tuple)):
        return [plain_val(x) for x in v]
    if hasattr(v, "store") and isinstance(v.store, dict):
        return {plain_val(k): plain_val(x) for k, x in v.store.items()}
    if isinstance(v, dict):
        return {plain_val(k): plain_val(x) for k, x in v.items()}
    if hasattr(v, "tag") and hasattr(v, "value"):
        return cbor.Tag(v.tag, plain_val(v.value))
    return ("?", rp(v))


def norm_hdr(h):
    out = {}
    for k, v in h.items():
        out[plain_val(k)] = plain_val(v)
    return canon(out)


def want_hdr(spec, bucket, items=None):
    return canon({k: v for k, v in (items if items is not None else hdr_items(spec, bucket))})


# ------------------------------------------------------------------ reference sender

def ref_hdrs(spec):
    st = spec.get("style") or {}
    pit, uit = hdr_items(spec, "p"), hdr_items(spec, "u")
    if st.get("tstr"):
        pit = [(k, ref.NAMES[v] if k == ALG else v) for k, v in pit]
        uit = [(k, ref.NAMES[v] if k == ALG else v) for k, v in uit]
    return ref.enc_prot(pit, st.get("penc", "canon"), st.get("empty", "bstr")), {k: v for k, v in uit}


def outer(tag, arr, st):
    o = st.get("outer", "canon")
    return cbor.enc(cbor.Tag(tag, arr), width=1 if o == "wide" else 0, indef=o == "indef")


def ref_rcpt(r, cek, target, keylen, keymap, seed):
    """A recipient structure, with recipients of its own where it has any. -> (structure, cek)."""
    st = r.get("style") or {}
    prot = ref.enc_prot(rspec_hdr(r, "p"), st.get("penc", "canon"), st.get("empty", "bstr"))
    skey = keymap(r["skey"]) if r.get("skey") is not None else None
    pub = keymap(r["key"]) if r.get("key") is not None else None
    inner = []
    if r.get("inner"):
        n = ref.KW_ALGS[r["alg"]]
        kek = hashlib.shake_256(b"kek" + seed).digest(n)
        for i, q in enumerate(r["inner"]):
            rr, kek = ref_rcpt(q, kek, r["alg"], n, keymap, seed + b"/" + bytes([i]))
            inner.append(rr)
        pub = {-1: kek}
    rr, cek = ref.make_rcpt(r["alg"], prot, {k: v for k, v in rspec_hdr(r, "u")}, cek, target, keylen, pub, skey, seed,
                            bytes.fromhex(r.get("supp_pub", "")), bytes.fromhex(r.get("supp_priv", "")))
    return rr + ([inner] if inner else []), cek


def ref_send(spec, keymap, seed):
    """Bytes of the message as an independent implementation sends it. keymap(i) -> private COSE_Key map."""
    kind = spec["kind"]
    st = spec.get("style") or {}
    prot, un = ref_hdrs(spec)
    payload = bytes.fromhex(spec["payload"])
    wire_payload = None if spec["detached"] else payload
    aad = bytes.fromhex(spec["aad"])
    tag = ref.TAGS[kind]
    if kind == "sign1":
        sig = ref.sign_raw(spec["alg"], keymap(spec["key"]), ref.sig_structure("Signature1", prot, None, aad, payload), seed)
        return outer(tag, [prot, un, wire_payload, sig], st)
    if kind == "sign":
        ss = []
        for s in spec["signers"]:
            sp, su = ref_hdrs(s)
            sig = ref.sign_raw(s["alg"], keymap(s["key"]),
                               ref.sig_structure("Signature", prot, sp, bytes.fromhex(s["aad"]), payload), seed)
            ss.append([sp, su, sig])
        return outer(tag, [prot, un, wire_payload, ss], st)
    rc, cek = [], None
    if kind in ("enc", "mac"):
        kl = ref.ENC_ALGS[spec["alg"]][1] if kind == "enc" else ref.MAC_ALGS[spec["alg"]][3]
        cek = keymap(spec["key"])[-1] if spec.get("key") is not None else hashlib.shake_256(b"cek" + seed).digest(kl)
        for i, r in enumerate(spec["recipients"]):
            rr, cek = ref_rcpt(r, cek, spec["alg"], kl, keymap, seed + bytes([i]))
            rc.append(rr)
    else:
        cek = keymap(spec["key"])[-1]
    if kind in ("mac0", "mac"):
        t = ref.mac_raw(spec["alg"], cek, ref.mac_structure("MAC0" if kind == "mac0" else "MAC", prot, aad, payload))
        return outer(tag, [prot, un, payload, t] + ([rc] if kind == "mac" else []), st)
    h = dict(hdr_items(spec, "p") + hdr_items(spec, "u"))
    base_iv = keymap(spec["key"]).get(5, b"") if spec.get("key") is not None else b""
    nonce = ref.msg_nonce(spec["alg"], h, base_iv)
    ct = ref.aead_enc(spec["alg"], cek, nonce, payload, ref.enc_structure("Encrypt0" if kind == "enc0" else "Encrypt", prot, aad))
    return outer(tag, [prot, un, ct] + ([rc] if kind == "enc" else []), st)


# ------------------------------------------------------------------ library calls under the simulator

class LibResult:
    __slots__ = ("ok", "val", "exc")

    def __init__(self, ok, val=None, exc=None):
        self.ok, self.val, self.exc = ok, val, exc

    def __repr__(self):
        return "ok" if self.ok else "%s: %s" % (type(self.exc).__name__, str(self.exc)[:120])


def lib(ctx, fn, *a, **k):
    """Run one library operation; every Exception is a reported failure of that operation."""
    ctx.ops += 1
    seams.S.armed = True
    try:
        r = LibResult(True, fn(*a, **k))
    except Exception as e:
        r = LibResult(False, exc=e)
    finally:
        seams.S.armed = False
    if seams.S.after is not None:
        seams.S.after(r)
    return r
