"""Certificates made to order, the simulated clock and trust store, and a model of path validation."""
import datetime as _dt
import functools
import hashlib
import json
import os
import time as _time

import ecdsa
from asn1crypto import algos, core as acore, keys as akeys, x509 as ax
from ecdsa.util import sigencode_der

from . import seams

RealDT = _dt.datetime
EPOCH = RealDT(2024, 1, 1, tzinfo=_dt.timezone.utc)


# ------------------------------------------------------------------ clock and trust store

class Env:
    """What the process under simulation sees of the outside world."""

    def __init__(self):
        self.now = None          # seconds since EPOCH, None: real clock
        self.store = []          # DER certificates
        self.fail = None         # (kind) raise on the next look at the store
        self.looks = 0
        self.clock_reads = 0


ENV = Env()


def _moment():
    return EPOCH + _dt.timedelta(seconds=ENV.now)


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, RealDT)

    def __subclasscheck__(cls, o):
        return issubclass(o, RealDT)


class SimDT(RealDT, metaclass=_Meta):
    """datetime.datetime whose notion of now is the simulator's."""

    @classmethod
    def now(cls, tz=None):
        if ENV.now is None:
            return RealDT.now(tz)
        ENV.clock_reads += 1
        m = _moment()
        return m.astimezone(tz) if tz is not None else m.replace(tzinfo=None)

    @classmethod
    def utcnow(cls):
        if ENV.now is None:
            return RealDT.utcnow()
        ENV.clock_reads += 1
        return _moment().replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


_real_time = _time.time


def _sim_time():
    if ENV.now is None:
        return _real_time()
    ENV.clock_reads += 1
    return EPOCH.timestamp() + ENV.now


def install():
    """Before the library (and the certificate validator it uses) is imported."""
    if _dt.datetime is SimDT:
        return
    _dt.datetime = SimDT
    _time.time = _sim_time
    from oscrypto import trust_list
    import certvalidator.registry
    import certvalidator.validate
    import certvalidator.context
    certvalidator.context.datetime = SimDT
    real_get = trust_list.get_list

    def get_list(*a, **k):
        if ENV.now is None:
            return real_get(*a, **k)
        ENV.looks += 1
        seams.point("truststore")
        return [(ax.Certificate.load(c), set(), set()) for c in ENV.store]
    trust_list.get_list = get_list
    asy = certvalidator.validate.asymmetric
    for n in ("load_public_key", "rsa_pkcs1v15_verify", "ecdsa_verify"):
        setattr(asy, n, seams._guard(getattr(asy, n), "oscrypto." + n))


# ------------------------------------------------------------------ keys and certificates

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "rsa_pool.json")) as _f:
    _RSA = [{k: int(v, 16) if isinstance(v, str) else v for k, v in d.items()} for d in json.load(_f)]


@functools.lru_cache(None)
def _ec(i):
    c = ecdsa.NIST256p
    d = int.from_bytes(hashlib.sha512(b"cert key %d" % i).digest(), "big") % (c.order - 1) + 1
    return ecdsa.SigningKey.from_secret_exponent(d, c, hashlib.sha256)


@functools.lru_cache(None)
def spki(key):
    if key[0] == "r":
        r = _RSA[int(key[1:]) % len(_RSA)]
        return akeys.PublicKeyInfo({"algorithm": {"algorithm": "rsa", "parameters": acore.Null()},
                                    "public_key": akeys.RSAPublicKey({"modulus": r["n"], "public_exponent": r["e"]})})
    p = _ec(int(key[1:])).verifying_key.pubkey.point
    return akeys.PublicKeyInfo({"algorithm": {"algorithm": "ec", "parameters": akeys.ECDomainParameters(name="named", value="secp256r1")},
                                "public_key": akeys.ECPointBitString.from_coords(p.x(), p.y())})


def key_id(key):
    return hashlib.sha1(b"id " + key.encode()).digest()


_PKCS1 = {"sha256": bytes.fromhex("3031300d060960864801650304020105000420"),
          "sha512": bytes.fromhex("3051300d060960864801650304020305000440"),
          "sha1": bytes.fromhex("3021300906052b0e03021a05000414"),
          "md5": bytes.fromhex("3020300c06082a864886f70d020505000410")}


@functools.lru_cache(4096)
def _sign(key, h, tbs):
    if key[0] == "r":
        r = _RSA[int(key[1:]) % len(_RSA)]
        t = _PKCS1[h] + hashlib.new(h, tbs).digest()
        k = (r["n"].bit_length() + 7) // 8
        em = b"\0\1" + b"\xff" * (k - len(t) - 3) + b"\0" + t
        m = int.from_bytes(em, "big")
        p, q = r["p"], r["q"]
        a, b = pow(m, r["d"] % (p - 1), p), pow(m, r["d"] % (q - 1), q)
        s = b + q * ((a - b) * pow(q, -1, p) % p)
        return s.to_bytes(k, "big")
    return _ec(int(key[1:])).sign_deterministic(tbs, hashfunc=getattr(hashlib, h), sigencode=sigencode_der)


def make(spec):
    """DER of the certificate described by spec."""
    return _make(json.dumps(spec, sort_keys=True))


@functools.lru_cache(4096)
def _make(js):
    s = json.loads(js)
    rsa = s["skey"][0] == "r"
    h = s.get("hash", "sha256")
    alg = algos.SignedDigestAlgorithm({"algorithm": h + ("_rsa" if rsa else "_ecdsa"), **({"parameters": acore.Null()} if rsa else {})})
    ext = []

    def add(oid, critical, v):
        ext.append({"extn_id": oid, "critical": critical, "extn_value": v})
    if s.get("ca") is not None:
        bc = {"ca": s["ca"]}
        if s.get("pl") is not None:
            bc["path_len_constraint"] = s["pl"]
        add("basic_constraints", True, ax.BasicConstraints(bc))
    if s.get("ku") is not None:
        add("key_usage", True, ax.KeyUsage(set(s["ku"])))
    if s.get("ski"):
        add("key_identifier", False, acore.OctetString(key_id(s["key"])))
    if s.get("aki"):
        add("authority_key_identifier", False, ax.AuthorityKeyIdentifier({"key_identifier": key_id(s["skey"])}))
    if s.get("eku"):
        add("extended_key_usage", False, ax.ExtKeyUsageSyntax(s["eku"]))

    def t(sec):
        return ax.Time({"utc_time": EPOCH + _dt.timedelta(seconds=sec)})
    tbs = {"version": "v3" if ext else "v1", "serial_number": s["sn"], "signature": alg, "issuer": ax.Name.build({"common_name": s["iss"]}),
           "validity": {"not_before": t(s["nb"]), "not_after": t(s["na"])}, "subject": ax.Name.build({"common_name": s["sub"]}),
           "subject_public_key_info": spki(s["key"])}
    if ext:
        tbs["extensions"] = ext
    tbs = ax.TbsCertificate(tbs)
    sig = _sign(s["skey"], h, tbs.dump())
    if s.get("copysig") is not None:
        sig = ax.Certificate.load(make(s["copysig"]))["signature_value"].native
    if s.get("badsig") is not None:
        b = bytearray(sig)
        b[-1 - s["badsig"] % 20] ^= 1 << s["badsig"] % 8
        sig = bytes(b)
    return ax.Certificate({"tbs_certificate": tbs, "signature_algorithm": alg, "signature_value": sig}).dump()


# ------------------------------------------------------------------ the model

def genuine(s):
    return s.get("copysig") is None and s.get("badsig") is None and s.get("hash", "sha256") != "md5"


def valid_at(s, now):
    return s["nb"] <= now <= s["na"]


def allows(s, usage):
    return s.get("ku") is not None and set(usage) <= set(s["ku"])


def ambiguous(leaf, others, store):
    """Different issuers' certificates sharing a name and serial number: the validator keeps only one of them."""
    seen = {}
    for c in store + others:
        k = (c["sub"], c["sn"])
        if seen.setdefault(k, c) != c:
            return True
    return False


def verdict(leaf, others, store, now, usage=("digital_signature",)):
    """Is the chain acceptable?  leaf, others, store: certificate specs. -> (bool, why)"""
    if not allows(leaf, usage):
        return False, "its first certificate may not be used for that"
    if not valid_at(leaf, now):
        return False, "its first certificate is outside its validity period"
    if leaf in store:
        if leaf.get("hash") == "md5":
            return None, "a trusted certificate with a weak signature"
        return True, "its first certificate is in the trust store"
    pool = others + store
    why = ["no path to the trust store"]

    def walk(c, below, seen):
        """c is not trusted itself; find its issuer. below: number of CA certificates under the issuer."""
        if not genuine(c):
            why.append("a signature is wrong")
            return False
        for p in pool:
            if p["sub"] != c["iss"] or p["key"] != c["skey"] or p in seen:
                continue
            if p in store:
                if p.get("pl") is not None and below > p["pl"]:
                    why.append("path too long")
                    continue
                return True
            if not valid_at(p, now):
                why.append("an issuer is outside its validity period")
                continue
            if not p.get("ca"):
                why.append("an issuer is not a CA")
                continue
            if p.get("ku") is not None and "key_cert_sign" not in p["ku"]:
                why.append("an issuer may not sign certificates")
                continue
            if p.get("pl") is not None and below > p["pl"]:
                why.append("path too long")
                continue
            if walk(p, below + (p["sub"] != p["iss"]), seen + [p]):
                return True
        return False
    return (True, "") if walk(leaf, 0, [leaf]) else (False, why[-1])
