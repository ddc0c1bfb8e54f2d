"""Reference peer: RFC 8152 written independently of the code under test.

Uses the crypto primitives directly (through the originals saved by seams where
those are wrapped) and the simulator's own CBOR codec.  Functions take and return
plain data: labels are integers or text, values are plain CBOR data.
"""
import hashlib
import hmac
import json
import os

from cryptography.exceptions import InvalidSignature, InvalidTag
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, ed25519, ed448, padding, x25519, x448
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature, decode_dss_signature
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms as calg, modes
from cryptography.hazmat.primitives.ciphers.aead import AESGCM, AESCCM

from . import cbor
from .seams import real, _mgf1, _xor, _ORDER

# ----------------------------------------------------------------- registries (IANA numbers)
SIGN_ALGS = {-7: ("ES", "sha256", 1), -35: ("ES", "sha384", 2), -36: ("ES", "sha512", 3),
             -8: ("ED", None, None),
             -37: ("PS", "sha256", None), -38: ("PS", "sha384", None), -39: ("PS", "sha512", None),
             -257: ("RS", "sha256", None), -258: ("RS", "sha384", None), -259: ("RS", "sha512", None),
             -65535: ("RS", "sha1", None)}
MAC_ALGS = {4: ("HMAC", "sha256", 8, 32), 5: ("HMAC", "sha256", 32, 32), 6: ("HMAC", "sha384", 48, 48),
            7: ("HMAC", "sha512", 64, 64),
            14: ("CBC", None, 8, 16), 15: ("CBC", None, 8, 32), 25: ("CBC", None, 16, 16), 26: ("CBC", None, 16, 32)}
ENC_ALGS = {1: ("GCM", 16, 12, 16), 2: ("GCM", 24, 12, 16), 3: ("GCM", 32, 12, 16),
            10: ("CCM", 16, 13, 8), 11: ("CCM", 32, 13, 8), 12: ("CCM", 16, 7, 8), 13: ("CCM", 32, 7, 8),
            30: ("CCM", 16, 13, 16), 31: ("CCM", 32, 13, 16), 32: ("CCM", 16, 7, 16), 33: ("CCM", 32, 7, 16)}
KW_ALGS = {-3: 16, -4: 24, -5: 32}
OAEP_ALGS = {-40: "sha1", -41: "sha256", -42: "sha512"}
DKA_ALGS = {-25: ("es", "sha256"), -26: ("es", "sha512"), -27: ("ss", "sha256"), -28: ("ss", "sha512")}
KAKW_ALGS = {-29: ("es", "sha256", -3), -30: ("es", "sha256", -4), -31: ("es", "sha256", -5),
             -32: ("ss", "sha256", -3), -33: ("ss", "sha256", -4), -34: ("ss", "sha256", -5)}
DIRECT = -6
NAMES = {-7: "ES256", -35: "ES384", -36: "ES512", -8: "EDDSA", -37: "PS256", -38: "PS384", -39: "PS512",
         -257: "RS256", -258: "RS384", -259: "RS512", -65535: "RS1",
         4: "HMAC_256_64", 5: "HMAC_256", 6: "HMAC_384", 7: "HMAC_512", 14: "AES_MAC_128_64", 15: "AES_MAC_256_64",
         25: "AES_MAC_128_128", 26: "AES_MAC_256_128", 1: "A128GCM", 2: "A192GCM", 3: "A256GCM",
         10: "AES_CCM_16_64_128", 11: "AES_CCM_16_64_256", 12: "AES_CCM_64_64_128", 13: "AES_CCM_64_64_256",
         30: "AES_CCM_16_128_128", 31: "AES_CCM_16_128_256", 32: "AES_CCM_64_128_128", 33: "AES_CCM_64_128_256",
         -3: "A128KW", -4: "A192KW", -5: "A256KW", -6: "DIRECT", -25: "ECDH_ES_HKDF_256", -26: "ECDH_ES_HKDF_512",
         -27: "ECDH_SS_HKDF_256", -28: "ECDH_SS_HKDF_512", -29: "ECDH_ES_A128KW", -30: "ECDH_ES_A192KW",
         -31: "ECDH_ES_A256KW", -32: "ECDH_SS_A128KW", -33: "ECDH_SS_A192KW", -34: "ECDH_SS_A256KW",
         -40: "RSAES_OAEP_SHA_1", -41: "RSAES_OAEP_SHA_256", -42: "RSAES_OAEP_SHA_512"}

TAGS = {"enc0": 16, "mac0": 17, "sign1": 18, "enc": 96, "mac": 97, "sign": 98}
KINDS = {v: k for k, v in TAGS.items()}
CURVES = {1: ec.SECP256R1(), 2: ec.SECP384R1(), 3: ec.SECP521R1(), 8: ec.SECP256K1()}
CSIZE = {1: 32, 2: 48, 3: 66, 8: 32}

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "rsa_pool.json")) as _f:
    RSA_POOL = json.load(_f)


class RefError(Exception):
    pass


class RefReject(RefError):
    """A definite rejection, not merely something the reference does not understand."""


# ----------------------------------------------------------------- keys
_eccache = {}


def ec_pub(crv, d):
    k = (crv, d)
    if k not in _eccache:
        n = real.get("ec.derive", ec.derive_private_key)(int.from_bytes(d, "big"), CURVES[crv]).public_key().public_numbers()
        if len(_eccache) > 5000:
            _eccache.clear()
        _eccache[k] = (n.x.to_bytes(CSIZE[crv], "big"), n.y.to_bytes(CSIZE[crv], "big"))
    return _eccache[k]


def okp_pub(crv, d):
    from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
    if crv in (4, 5):
        cls, m = {4: ("X25519PrivateKey", x25519), 5: ("X448PrivateKey", x448)}[crv]
        return (real.get(cls + ".from") or getattr(m, cls).from_private_bytes)(d).public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
    cls = {6: "Ed25519PrivateKey", 7: "Ed448PrivateKey"}[crv]
    return _okp_priv(cls, d).public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)


def _okp_priv(cls, d):
    f = real.get(cls + ".from")
    if f is None:
        f = getattr(ed25519 if "25519" in cls else ed448, cls).from_private_bytes
    return f(d)


def _okp_pubkey(crv, x):
    cls = {6: "Ed25519PublicKey", 7: "Ed448PublicKey"}[crv]
    f = real.get(cls + ".from") or getattr(ed25519 if crv == 6 else ed448, cls).from_public_bytes
    return f(x)


def rsa_ints(i):
    r = RSA_POOL[i]
    n, e, d, p, q = int(r["n"], 16), r["e"], int(r["d"], 16), int(r["p"], 16), int(r["q"], 16)
    return n, e, d, p, q


def ib(x):
    return x.to_bytes((x.bit_length() + 7) // 8, "big")


def key_map(spec, private=True):
    """COSE_Key map (plain data) for a key spec."""
    t = spec["t"]
    params = {k: v for k, v in spec.get("params", {}).items()}
    if t == "sym":
        m = {1: 4, -1: bytes.fromhex(spec["k"])}
    elif t == "ec2":
        d = bytes.fromhex(spec["d"])
        x, y = ec_pub(spec["crv"], d)
        m = {1: 2, -1: spec["crv"], -2: x, -3: y}
        if private:
            m[-4] = d
    elif t == "okp":
        d = bytes.fromhex(spec["d"])
        m = {1: 1, -1: spec["crv"], -2: okp_pub(spec["crv"], d)}
        if private:
            m[-4] = d
    elif t == "rsa":
        n, e, d, p, q = rsa_ints(spec["i"])
        m = {1: 3, -1: ib(n), -2: ib(e)}
        if private:
            m.update({-3: ib(d), -4: ib(p), -5: ib(q), -6: ib(d % (p - 1)), -7: ib(d % (q - 1)), -8: ib(pow(q, -1, p))})
    else:
        raise ValueError(t)
    for k, v in params.items():
        m[int(k) if isinstance(k, str) and k.lstrip("-").isdigit() else k] = bytes.fromhex(v["b"]) if isinstance(v, dict) else v
    return m


# ----------------------------------------------------------------- signatures
def _hash(name):
    return {"sha1": hashes.SHA1, "sha256": hashes.SHA256, "sha384": hashes.SHA384, "sha512": hashes.SHA512}[name]()


def sign_raw(alg, key, tbs, nonce_seed=b""):
    """key: COSE_Key map with private part. Deterministic."""
    fam, h, crv = SIGN_ALGS[alg]
    if fam == "ES":
        # RFC 6979-style deterministic k through a hash chain (any k is a legal signature)
        c = key[-1]
        d = int.from_bytes(key[-4], "big")
        n = _ORDER[CURVES[c].name]
        e = int.from_bytes(hashlib.new(h, tbs).digest(), "big")
        hb = hashlib.new(h).digest_size * 8
        if hb > n.bit_length():
            e >>= hb - n.bit_length()
        i = 0
        while True:
            k = int.from_bytes(hashlib.shake_256(b"k" + key[-4] + tbs + nonce_seed + bytes([i])).digest(CSIZE[c] + 8), "big") % (n - 1) + 1
            x, _ = ec_pub(c, k.to_bytes(CSIZE[c], "big"))
            r = int.from_bytes(x, "big") % n
            s = pow(k, -1, n) * (e + r * d) % n
            if r and s:
                return r.to_bytes(CSIZE[c], "big") + s.to_bytes(CSIZE[c], "big")
            i += 1
    if fam == "ED":
        return _okp_priv({6: "Ed25519PrivateKey", 7: "Ed448PrivateKey"}[key[-1]], key[-4]).sign(tbs)
    n, e, d = (int.from_bytes(key[-i], "big") for i in (1, 2, 3))
    k = (n.bit_length() + 7) // 8
    if fam == "RS":
        pre = {"sha1": "3021300906052b0e03021a05000414", "sha256": "3031300d060960864801650304020105000420",
               "sha384": "3041300d060960864801650304020205000430", "sha512": "3051300d060960864801650304020305000440"}[h]
        t = bytes.fromhex(pre) + hashlib.new(h, tbs).digest()
        em = b"\0\1" + b"\xff" * (k - len(t) - 3) + b"\0" + t
        return pow(int.from_bytes(em, "big"), d, n).to_bytes(k, "big")
    hl = hashlib.new(h).digest_size
    embits = n.bit_length() - 1
    el = (embits + 7) // 8
    salt = hashlib.shake_256(b"salt" + tbs + nonce_seed).digest(hl)
    H = hashlib.new(h, b"\0" * 8 + hashlib.new(h, tbs).digest() + salt).digest()
    db = b"\0" * (el - 2 * hl - 2) + b"\1" + salt
    mdb = bytearray(_xor(db, _mgf1(H, len(db), h)))
    mdb[0] &= 0xff >> (8 * el - embits)
    return pow(int.from_bytes(bytes(mdb) + H + b"\xbc", "big"), d, n).to_bytes(k, "big")


def verify_raw(alg, key, tbs, sig):
    if alg not in SIGN_ALGS or not isinstance(sig, bytes):
        return False
    fam, h, crv = SIGN_ALGS[alg]
    try:
        if fam == "ES":
            if key.get(1) != 2:
                return False
            c = key[-1]
            if len(sig) != 2 * CSIZE[c]:
                return False
            r, s = int.from_bytes(sig[:CSIZE[c]], "big"), int.from_bytes(sig[CSIZE[c]:], "big")
            if not r or not s:
                return False
            pub = ec.EllipticCurvePublicNumbers(int.from_bytes(key[-2], "big"), int.from_bytes(key[-3], "big"), CURVES[c]).public_key()
            pub.verify(encode_dss_signature(r, s), tbs, ec.ECDSA(_hash(h)))
            return True
        if fam == "ED":
            if key.get(1) != 1:
                return False
            _okp_pubkey(key[-1], key[-2]).verify(sig, tbs)
            return True
        if key.get(1) != 3:
            return False
        pn = (real.get("RSAPublicNumbers"))(e=int.from_bytes(key[-2], "big"), n=int.from_bytes(key[-1], "big")).public_key()
        pad = padding.PKCS1v15() if fam == "RS" else padding.PSS(mgf=padding.MGF1(_hash(h)), salt_length=_hash(h).digest_size)
        pn.verify(sig, tbs, pad, _hash(h))
        return True
    except (InvalidSignature, ValueError):
        return False


# ----------------------------------------------------------------- MAC
def mac_raw(alg, k, tbm):
    fam, h, tl, kl = MAC_ALGS[alg]
    if fam == "HMAC":
        return hmac.new(k, tbm, h).digest()[:tl]
    pad = tbm + b"\0" * (-len(tbm) % 16)
    c = b"\0" * 16
    e = Cipher(calg.AES(k), modes.ECB())
    enc = real.get("encryptor", None)
    x = e.encryptor()
    for i in range(0, len(pad), 16):
        c = x.update(_xor(c, pad[i:i + 16]))
    return c[:tl]


# ----------------------------------------------------------------- AEAD
def _aead(alg, k):
    fam, kl, nl, tl = ENC_ALGS[alg]
    if len(k) != kl:
        raise RefError("key length")
    return (AESGCM(k) if fam == "GCM" else AESCCM(k, tag_length=tl)), nl


def aead_enc(alg, k, nonce, pt, aad, any_nonce=False):
    a, nl = _aead(alg, k)
    if nonce is None or len(nonce) != nl and not any_nonce:
        raise RefError("nonce length")
    return a._dst_encrypt(nonce, pt, aad) if hasattr(a, "_dst_encrypt") else a.encrypt(nonce, pt, aad)


def aead_dec(alg, k, nonce, ct, aad, any_nonce=False):
    a, nl = _aead(alg, k)
    if nonce is None or len(nonce) != nl and not any_nonce or not isinstance(ct, bytes):
        raise RefError("nonce length")
    try:
        return a._dst_decrypt(nonce, ct, aad) if hasattr(a, "_dst_decrypt") else a.decrypt(nonce, ct, aad)
    except InvalidTag:
        raise RefReject("tag")


def partial_nonce(alg, base_iv, piv):
    nl = ENC_ALGS[alg][2]
    if len(piv) > nl or len(base_iv) > nl:
        raise RefError("iv length")
    # RFC 8152 3.1: left-pad the Partial IV with zeros to the length of the IV, XOR with the context IV
    return _xor(piv.rjust(nl, b"\0"), base_iv.ljust(nl, b"\0"))


# ----------------------------------------------------------------- structures
def emap(protected):
    """empty_or_serialized_map as used in the structures: h'' for an empty map."""
    if protected[:1] in (b"\xa0", b"\xb8", b"\xb9", b"\xba", b"\xbb", b"\xbf"):
        try:
            if cbor.dec(protected) == {}:
                return b""
        except cbor.CborError:
            pass
    return protected


def sig_structure(context, body, signer, aad, payload):
    a = [context, emap(body)]
    if signer is not None:
        a.append(emap(signer))
    return cbor.enc(a + [aad, payload])


def mac_structure(context, body, aad, payload):
    return cbor.enc([context, emap(body), aad, payload])


def enc_structure(context, body, aad):
    return cbor.enc([context, emap(body), aad])


# ----------------------------------------------------------------- key management
def hkdf(h, secret, info, n, salt=None):
    prk = hmac.new(salt if salt else b"\0" * hashlib.new(h).digest_size, secret, h).digest()
    out, t, i = b"", b"", 1
    while len(out) < n:
        t = hmac.new(prk, t + info + bytes([i]), h).digest()
        out += t
        i += 1
    return out[:n]


def ecdh(crv, d, pub):
    k = real.get("ec.derive", ec.derive_private_key)(int.from_bytes(d, "big"), CURVES[crv])
    p = ec.EllipticCurvePublicNumbers(int.from_bytes(pub[0], "big"), int.from_bytes(pub[1], "big"), CURVES[crv]).public_key()
    return k.exchange(ec.ECDH(), p)


def point(pk):
    """Coordinates of an EC2 public key, whose y may be given as its sign bit."""
    if isinstance(pk[-3], bool):
        n = ec.EllipticCurvePublicKey.from_encoded_point(CURVES[pk[-1]], bytes([2 + pk[-3]]) + pk[-2]).public_numbers()
        return pk[-2], n.y.to_bytes(CSIZE[pk[-1]], "big")
    return pk[-2], pk[-3]


def kdf_context(alg, keylen, hdr, protected, supp_pub=b"", supp_priv=b""):
    """hdr: merged recipient headers (label -> value)."""
    u = [hdr.get(-21), hdr.get(-22), hdr.get(-23)]
    v = [hdr.get(-24), hdr.get(-25), hdr.get(-26)]
    sp = [keylen * 8, emap(protected)]
    if supp_pub:
        sp.append(supp_pub)
    c = [alg, u, v, sp]
    if supp_priv:
        c.append(supp_priv)
    return cbor.enc(c)


def aes_kw(kek, data):
    return real.get("aes_key_wrap")(kek, data)


def aes_kuw(kek, data):
    from cryptography.hazmat.primitives.keywrap import InvalidUnwrap
    try:
        return real.get("aes_key_unwrap")(kek, data)
    except (InvalidUnwrap, ValueError) as e:
        raise RefReject("unwrap %r" % e)


def oaep_enc(h, n, e, data, seed):
    hl = hashlib.new(h).digest_size
    k = (n.bit_length() + 7) // 8
    db = hashlib.new(h, b"").digest() + b"\0" * (k - len(data) - 2 * hl - 2) + b"\1" + data
    seed = hashlib.shake_256(b"oaep" + seed).digest(hl)
    mdb = _xor(db, _mgf1(seed, len(db), h))
    ms = _xor(seed, _mgf1(mdb, hl, h))
    return pow(int.from_bytes(b"\0" + ms + mdb, "big"), e, n).to_bytes(k, "big")


def oaep_dec(h, key, ct):
    n, d = int.from_bytes(key[-1], "big"), int.from_bytes(key[-3], "big")
    k = (n.bit_length() + 7) // 8
    hl = hashlib.new(h).digest_size
    if len(ct) != k:
        raise RefError("oaep length")
    em = pow(int.from_bytes(ct, "big"), d, n).to_bytes(k, "big")
    seed = _xor(em[1:1 + hl], _mgf1(em[1 + hl:], hl, h))
    db = _xor(em[1 + hl:], _mgf1(seed, k - hl - 1, h))
    rest = db[hl:].lstrip(b"\0")
    if em[0] or db[:hl] != hashlib.new(h, b"").digest() or rest[:1] != b"\1":
        raise RefError("oaep")
    return rest[1:]


# ----------------------------------------------------------------- whole messages
def parse(b, tagged=True):
    """-> (kind, list) for a tagged COSE message."""
    t = cbor.dec(b)
    if not isinstance(t, cbor.Tag) or t.tag not in KINDS or not isinstance(t.value, list):
        raise RefError("not a COSE message")
    return KINDS[t.tag], t.value


def hdr(b):
    if b == b"":
        return {}
    m = cbor.dec(b)
    if not isinstance(m, dict):
        raise RefError("protected header is not a map")
    return m


_ALGID = {v: k for k, v in NAMES.items()}


def algid(a):
    if isinstance(a, str):
        return _ALGID.get(a.upper(), a)
    return a


def merged(prot, unprot):
    m = dict(unprot)
    m.update(hdr(prot))
    return m


def ref_verify1(b, key, aad, detached=None):
    """Sign1: accept/reject of bytes b. RefError = malformed."""
    kind, a = parse(b)
    if kind != "sign1" or len(a) != 4:
        raise RefError("shape")
    alg = algid(merged(a[0], a[1]).get(1))
    payload = detached if a[2] is None else a[2]
    if payload is None or (detached is not None and a[2] is not None):
        return False
    return verify_raw(alg, key, sig_structure("Signature1", a[0], None, aad, payload), a[3])


def ref_verify(b, idx, key, aad, detached=None):
    kind, a = parse(b)
    if kind != "sign" or len(a) != 4:
        raise RefError("shape")
    s = a[3][idx]
    alg = algid(merged(s[0], s[1]).get(1))
    payload = detached if a[2] is None else a[2]
    if payload is None or (detached is not None and a[2] is not None):
        return False
    return verify_raw(alg, key, sig_structure("Signature", a[0], s[0], aad, payload), s[2])


def ref_mac_ok(b, k, aad):
    kind, a = parse(b)
    if kind not in ("mac0", "mac") or len(a) < 4:
        raise RefError("shape")
    alg = algid(merged(a[0], a[1]).get(1))
    if alg not in MAC_ALGS or a[2] is None:
        return False
    return mac_raw(alg, k, mac_structure("MAC0" if kind == "mac0" else "MAC", a[0], aad, a[2])) == a[3]


def msg_nonce(alg, h, base_iv):
    if h.get(5) is not None:
        return h[5]
    if h.get(6) is not None and base_iv:
        return partial_nonce(alg, base_iv, h[6])
    raise RefError("no iv")


def ref_decrypt(b, k, aad, base_iv=b""):
    kind, a = parse(b)
    if kind not in ("enc0", "enc") or len(a) < 3:
        raise RefError("shape")
    h = merged(a[0], a[1])
    alg = algid(h.get(1))
    if alg not in ENC_ALGS:
        raise RefError("alg")
    return aead_dec(alg, k, msg_nonce(alg, h, base_iv), a[2],
                    enc_structure("Encrypt0" if kind == "enc0" else "Encrypt", a[0], aad))


def rcpt_cek(r, target_alg, keylen, rkey, supp_pub=b"", supp_priv=b"", sender_pub=None):
    """CEK that recipient structure r gives to the holder of rkey (a COSE_Key map)."""
    h = merged(r[0], r[1])
    alg = algid(h.get(1))
    if alg == DIRECT:
        return rkey[-1]
    if alg in KW_ALGS:
        if len(rkey[-1]) != KW_ALGS[alg]:
            raise RefError("kek length")
        return aes_kuw(rkey[-1], r[2])
    if alg in OAEP_ALGS:
        return oaep_dec(OAEP_ALGS[alg], rkey, r[2])
    if alg in DKA_ALGS:
        mode, hh = DKA_ALGS[alg]
        pk = h.get(-1) if mode == "es" else h.get(-2)
        z = ecdh(rkey[-1], rkey[-4], point(pk))
        return hkdf(hh, z, kdf_context(target_alg, keylen, h, r[0], supp_pub, supp_priv), keylen, h.get(-20))
    if alg in KAKW_ALGS:
        mode, hh, kw = KAKW_ALGS[alg]
        pk = h.get(-1) if mode == "es" else h.get(-2)
        z = ecdh(rkey[-1], rkey[-4], point(pk))
        kek = hkdf(hh, z, kdf_context(kw, KW_ALGS[kw], h, r[0], supp_pub, supp_priv), KW_ALGS[kw], h.get(-20))
        return aes_kuw(kek, r[2])
    raise RefError("recipient alg %r" % (alg,))


def make_rcpt(alg, prot, unprot, cek, target_alg, keylen, rpub, skey=None, seed=b"", supp_pub=b"", supp_priv=b""):
    """Build a recipient structure. -> (structure, cek). prot: encoded protected bytes; unprot: dict."""
    unprot = dict(unprot)
    if alg == DIRECT:
        return [prot, unprot, b""], cek
    if alg in KW_ALGS:
        return [prot, unprot, aes_kw(rpub[-1], cek)], cek
    if alg in OAEP_ALGS:
        return [prot, unprot, oaep_enc(OAEP_ALGS[alg], int.from_bytes(rpub[-1], "big"), int.from_bytes(rpub[-2], "big"), cek, seed)], cek
    mode = (DKA_ALGS.get(alg) or KAKW_ALGS.get(alg))[0]
    c = rpub[-1]
    if mode == "es":
        n = _ORDER[CURVES[c].name]
        d = (int.from_bytes(hashlib.shake_256(b"eph" + seed).digest(CSIZE[c] + 8), "big") % (n - 1) + 1).to_bytes(CSIZE[c], "big")
        x, y = ec_pub(c, d)
        unprot[-1] = {1: 2, -1: c, -2: x, -3: y if d[0] < 128 else bool(y[-1] & 1)}
    else:
        d = skey[-4]
        unprot[-2] = {1: 2, -1: c, -2: skey[-2], -3: skey[-3]}
    z = ecdh(c, d, (rpub[-2], rpub[-3]))
    h = merged(prot, unprot)
    if alg in DKA_ALGS:
        cek = hkdf(DKA_ALGS[alg][1], z, kdf_context(target_alg, keylen, h, prot, supp_pub, supp_priv), keylen, h.get(-20))
        return [prot, unprot, b""], cek
    kw = KAKW_ALGS[alg][2]
    kek = hkdf(KAKW_ALGS[alg][1], z, kdf_context(kw, KW_ALGS[kw], h, prot, supp_pub, supp_priv), KW_ALGS[kw], h.get(-20))
    return [prot, unprot, aes_kw(kek, cek)], cek


# header encodings a legal sender may choose
PENC = ["canon", "wide", "indef", "rev"]


def enc_prot(items, style="canon", empty="bstr"):
    """items: list of (label, value)."""
    if not items:
        return b"" if empty == "bstr" else b"\xa0"
    if style == "rev":
        items = list(reversed(items))
    d = {k: v for k, v in items}
    if style == "wide":
        return cbor.enc(d, width=2)
    if style == "indef":
        return cbor.enc(d, indef=True)
    return cbor.enc(d)
