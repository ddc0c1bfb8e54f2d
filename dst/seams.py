"""Every source of nondeterminism and every failing dependency, behind a switch.

install() must run before the library under test is imported.  It replaces

  * the entropy sources  os.urandom, os.getrandom, random/secrets, and the key
    generators and randomised paddings of the crypto backend, by streams drawn
    from the simulator's seed;
  * the calls into the serialiser (cbor2) and the crypto backends (cryptography,
    ecdsa) by pass-through wrappers with a fault point in front of them;
  * the clock and the trust store the certificate validator reads (x509sim).

With no simulation active (S.on False) everything passes through unchanged.
"""
import hashlib
import os
import random
import time

import cbor2
import ecdsa.keys
from cryptography.hazmat.primitives import hashes as _hashes_mod
from cryptography.hazmat.primitives import hmac as _hmac_mod
from cryptography.hazmat.primitives import keywrap as _kw_mod
from cryptography.hazmat.primitives import ciphers as _ciphers_mod
from cryptography.hazmat.primitives import serialization as _ser_mod
from cryptography.hazmat.primitives.asymmetric import ec, rsa, ed25519, ed448, x25519, x448, padding
from cryptography.hazmat.primitives.ciphers import aead as _aead_mod
from cryptography.hazmat.primitives.kdf import hkdf as _hkdf_mod
from cryptography.exceptions import InternalError


class _S:
    on = False
    entropy = None      # callable n -> bytes
    hook = None         # callable site -> None, may raise
    tap = None          # callable (what, bytes): secrets on their way through the dependencies
    after = None        # callable (LibResult): every library operation when it is over
    armed = False


S = _S()

real = {}               # originals, for the simulator's own use


class Stream:
    """Deterministic byte stream named by a label; every draw is counted."""

    def __init__(self, seed, label):
        self.key = ("%s|%s" % (seed, label)).encode()
        self.n = 0
        self.total = 0
        self.npad = 0

    def __call__(self, n):
        out = hashlib.shake_256(self.key + b"|%d" % self.n).digest(n) if n else b""
        self.n += 1
        self.total += n
        tap("a random draw", out)
        return out

    def pad(self, n):
        """Randomness of signature and encryption paddings, kept apart from key material."""
        self.npad += 1
        return hashlib.shake_256(self.key + b"|pad%d" % self.npad).digest(n)


def tap(what, *bs):
    if S.tap is not None and S.on and S.armed:
        for b in bs:
            if isinstance(b, (bytes, bytearray, memoryview)):
                S.tap(what, bytes(b))


def _tapped(fn, what, ins=(), out=True):
    """Shows arguments and results of a pass-through to whoever watches for secrets."""
    def g(*a, **k):
        tap(what, *[a[i] for i in ins if i < len(a)])
        tap(what, *[v for n, v in k.items() if n in ("wrapping_key", "key_to_wrap", "key_material")])
        r = fn(*a, **k)
        if out:
            tap(what, r)
        return r
    g.__name__ = getattr(fn, "__name__", what)
    g.__wrapped__ = fn
    return g


def point(site):
    if S.on and S.armed and S.hook is not None:
        S.hook(site)


def _urandom(n):
    if not S.on or S.entropy is None:
        return real["urandom"](n)
    point("urandom")
    return S.entropy(n)


def _getrandom(n, flags=0):
    if not S.on or S.entropy is None:
        return real["getrandom"](n, flags)
    point("urandom")
    return S.entropy(n)


def _urandom_like(name):
    def f(n):
        if not S.on or S.entropy is None:
            return real[name](n)
        point("urandom")
        return S.entropy(n)
    return f


# ------------------------------------------------------------------ key generation

def _ec_generate(curve, backend=None):
    if not S.on or S.entropy is None:
        return real["ec.generate"](curve)
    point("ec.generate")
    n = _ORDER[curve.name]
    size = (n.bit_length() + 7) // 8 + 8
    d = int.from_bytes(S.entropy(size), "big") % (n - 1) + 1
    return real["ec.derive"](d, curve)


_ORDER = {
    "secp256r1": 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
    "secp384r1": 0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
    "secp521r1": 0x01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409,
    "secp256k1": 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141,
}

_SMALL = [p for p in range(3, 3000) if all(p % q for q in range(2, int(p ** .5) + 1))]


def _prime(draw, bits):
    x = int.from_bytes(draw(bits // 8), "big") | (3 << (bits - 2)) | 1
    while True:
        if all(x % p for p in _SMALL) and pow(2, x - 1, x) == 1 and pow(3, x - 1, x) == 1 \
                and (x - 1) % 65537:
            return x
        x += 2


def _rsa_generate(public_exponent, key_size, backend=None):
    if not S.on or S.entropy is None:
        return real["rsa.generate"](public_exponent, key_size)
    point("rsa.generate")
    half = key_size // 2
    p = _prime(S.entropy, half)
    q = _prime(S.entropy, key_size - half)
    while q == p:
        q = _prime(S.entropy, key_size - half)
    if p < q:
        p, q = q, p
    e = public_exponent
    d = pow(e, -1, (p - 1) * (q - 1))
    nums = real["RSAPrivateNumbers"](p=p, q=q, d=d, dmp1=d % (p - 1), dmq1=d % (q - 1), iqmp=pow(q, -1, p),
                                     public_numbers=real["RSAPublicNumbers"](e=e, n=p * q))
    return nums.private_key()


def _okp_generate(cls, size):
    orig = cls.generate.__func__

    def generate(c):
        if not S.on or S.entropy is None:
            return orig(c)
        point("okp.generate")
        return real[cls.__name__ + ".from"](S.entropy(size))
    return classmethod(generate)


# ------------------------------------------------------------------ RSA paddings

def _mgf1(seed, n, h):
    out = b""
    i = 0
    while len(out) < n:
        out += hashlib.new(h, seed + i.to_bytes(4, "big")).digest()
        i += 1
    return out[:n]


def _xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


class _RsaPriv:
    def __init__(self, realkey, nums):
        self._real = realkey
        self._n = nums

    def __getattr__(self, a):
        return getattr(self._real, a)

    def sign(self, data, pad, alg):
        point("rsa.sign")
        if not S.on or S.entropy is None or not isinstance(pad, padding.PSS):
            return self._real.sign(data, pad, alg)
        h = alg.name.lower()
        hl = alg.digest_size
        sl = pad._salt_length
        if not isinstance(sl, int) or pad.mgf._algorithm.name != alg.name:
            return self._real.sign(data, pad, alg)
        n = self._n.public_numbers.n
        embits = n.bit_length() - 1
        el = (embits + 7) // 8
        if el < hl + sl + 2:
            return self._real.sign(data, pad, alg)
        salt = S.entropy.pad(sl)
        H = hashlib.new(h, b"\0" * 8 + hashlib.new(h, data).digest() + salt).digest()
        db = b"\0" * (el - sl - hl - 2) + b"\x01" + salt
        mdb = bytearray(_xor(db, _mgf1(H, len(db), h)))
        mdb[0] &= 0xff >> (8 * el - embits)
        em = int.from_bytes(bytes(mdb) + H + b"\xbc", "big")
        s = pow(em, self._n.d, n)
        return s.to_bytes((n.bit_length() + 7) // 8, "big")

    def decrypt(self, ct, pad):
        point("rsa.decrypt")
        r = self._real.decrypt(ct, pad)
        tap("an unwrapped key", r)
        return r

    def public_key(self):
        return _RsaPub(self._real.public_key(), self._n.public_numbers)


class _RsaPub:
    def __init__(self, realkey, nums):
        self._real = realkey
        self._n = nums

    def __getattr__(self, a):
        return getattr(self._real, a)

    def verify(self, signature, data, pad, alg):
        point("rsa.verify")
        return self._real.verify(signature, data, pad, alg)

    def encrypt(self, data, pad):
        point("rsa.encrypt")
        if not S.on or S.entropy is None or not isinstance(pad, padding.OAEP):
            return self._real.encrypt(data, pad)
        h = pad._algorithm.name.lower()
        mh = pad._mgf._algorithm.name.lower()
        hl = pad._algorithm.digest_size
        k = (self._n.n.bit_length() + 7) // 8
        if len(data) > k - 2 * hl - 2:
            return self._real.encrypt(data, pad)
        db = hashlib.new(h, pad._label or b"").digest() + b"\0" * (k - len(data) - 2 * hl - 2) + b"\x01" + data
        seed = S.entropy.pad(hl)
        mdb = _xor(db, _mgf1(seed, len(db), mh))
        ms = _xor(seed, _mgf1(mdb, hl, mh))
        return pow(int.from_bytes(b"\0" + ms + mdb, "big"), self._n.e, self._n.n).to_bytes(k, "big")


class _Proxy:
    def __init__(self, r):
        self._r = r

    def __getattr__(self, a):
        return getattr(self._r, a)

    def __eq__(self, o):
        return self._r == getattr(o, "_r", o)

    def __hash__(self):
        return hash(self._r)


class _RsaPubNums(_Proxy):
    def __init__(self, e, n):
        self._r = real["RSAPublicNumbers"](e=e, n=n)

    def public_key(self, backend=None):
        point("rsa.load")
        return _RsaPub(self._r.public_key(), self._r)


class _RsaPrivNums(_Proxy):
    def __init__(self, p, q, d, dmp1, dmq1, iqmp, public_numbers):
        self._r = real["RSAPrivateNumbers"](p=p, q=q, d=d, dmp1=dmp1, dmq1=dmq1, iqmp=iqmp,
                                            public_numbers=getattr(public_numbers, "_r", public_numbers))

    def private_key(self, backend=None, **kw):
        point("rsa.load")
        return _RsaPriv(self._r.private_key(**kw), self._r)


# ------------------------------------------------------------------ pass-through with fault points

def _guard(fn, site):
    def g(*a, **k):
        point(site)
        return fn(*a, **k)
    g.__name__ = getattr(fn, "__name__", site)
    g.__wrapped__ = fn
    return g


def _double_free(b):
    """Would cbor2's C decoder (5.9.0, decode_definite_long_string) free a chunk twice?  It does when a text string of
    more than 65536 bytes is cut short after its first 65536 bytes: every run after that would be undefined."""
    p, n = 0, len(b)
    while p < n - 65536:
        mt, ai = b[p] >> 5, b[p] & 31
        p += 1
        v = ai
        if 24 <= ai <= 27:
            k = 1 << (ai - 24)
            v = int.from_bytes(b[p:p + k], "big")
            p += k
        elif ai > 27:
            if ai != 31:
                return False
            continue
        if mt in (2, 3):
            if mt == 3 and v > 65536 and 65536 <= n - p < v:
                return True
            p += v
    return False


def _loads(*a, **k):
    point("cbor.loads")
    b = a[0] if a else k.get("s")
    if isinstance(b, (bytes, bytearray)) and len(b) > 65536 and _double_free(b):
        raise cbor2.CBORDecodeEOF("premature end of stream")
    return real["loads"](*a, **k)


class _GHmac(_Proxy):
    def __init__(self, *a, **k):
        point("hmac")
        self._r = real["HMAC"](*a, **k)

    def finalize(self):
        point("hmac")
        return self._r.finalize()


class _GHash(_Proxy):
    def __init__(self, *a, **k):
        point("hash")
        self._r = real["Hash"](*a, **k)

    def finalize(self):
        point("hash")
        return self._r.finalize()


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    real["urandom"] = os.urandom
    os.urandom = _urandom
    random._urandom = _urandom
    if hasattr(os, "getrandom"):
        real["getrandom"] = os.getrandom
        os.getrandom = _getrandom

    try:
        import ssl
        real["ssl.RAND_bytes"] = ssl.RAND_bytes
        ssl.RAND_bytes = _urandom_like("ssl.RAND_bytes")
    except ImportError:
        pass

    real["loads"], real["dumps"] = cbor2.loads, cbor2.dumps
    _loads.__name__, _loads.__wrapped__ = "loads", cbor2.loads
    cbor2.loads = _loads
    cbor2.dumps = _guard(cbor2.dumps, "cbor.dumps")

    real["ec.generate"], real["ec.derive"] = ec.generate_private_key, ec.derive_private_key
    ec.generate_private_key = _ec_generate
    ec.derive_private_key = _guard(ec.derive_private_key, "ec.derive")
    real["rsa.generate"] = rsa.generate_private_key
    rsa.generate_private_key = _rsa_generate
    real["RSAPrivateNumbers"], real["RSAPublicNumbers"] = rsa.RSAPrivateNumbers, rsa.RSAPublicNumbers
    rsa.RSAPrivateNumbers, rsa.RSAPublicNumbers = _RsaPrivNums, _RsaPubNums
    for cls, size in ((ed25519.Ed25519PrivateKey, 32), (ed448.Ed448PrivateKey, 57),
                      (x25519.X25519PrivateKey, 32), (x448.X448PrivateKey, 56)):
        real[cls.__name__ + ".from"] = cls.from_private_bytes
        cls.generate = _okp_generate(cls, size)
        cls.from_private_bytes = staticmethod(_guard(cls.from_private_bytes, "okp.load"))
    for cls in (ed25519.Ed25519PublicKey, ed448.Ed448PublicKey):
        real[cls.__name__ + ".from"] = cls.from_public_bytes
        cls.from_public_bytes = staticmethod(_guard(cls.from_public_bytes, "okp.load"))

    for name in ("AESGCM", "AESCCM"):
        base = getattr(_aead_mod, name)
        real[name] = base

        def enc(self, *a, _b=base, **k):
            point("aead.encrypt")
            return _b.encrypt(self, *a, **k)

        def dec(self, *a, _b=base, **k):
            point("aead.decrypt")
            return _b.decrypt(self, *a, **k)
        # patch the class in place so identity checks inside cryptography still work
        base._dst_encrypt, base._dst_decrypt = base.encrypt, base.decrypt

        def mk(site, orig):
            def f(self, *a, **k):
                if site == "aead.encrypt":
                    tap("plaintext", a[1] if len(a) > 1 else k.get("data"))
                point(site)
                r = orig(self, *a, **k)
                if site == "aead.decrypt":
                    tap("plaintext", r)
                return r
            return f
        base.encrypt = mk("aead.encrypt", base.encrypt)
        base.decrypt = mk("aead.decrypt", base.decrypt)
    real["HMAC"], real["Hash"] = _hmac_mod.HMAC, _hashes_mod.Hash
    _hmac_mod.HMAC, _hashes_mod.Hash = _GHmac, _GHash
    _hkdf_mod.HKDF.derive = _tapped(_guard(_hkdf_mod.HKDF.derive, "hkdf"), "a derived key or shared secret", (1,))
    _ciphers_mod.Cipher.encryptor = _guard(_ciphers_mod.Cipher.encryptor, "cipher")
    real["aes_key_wrap"], real["aes_key_unwrap"] = _kw_mod.aes_key_wrap, _kw_mod.aes_key_unwrap
    _kw_mod.aes_key_wrap = _tapped(_guard(_kw_mod.aes_key_wrap, "kw.wrap"), "a wrapped or wrapping key", (0, 1), False)
    _kw_mod.aes_key_unwrap = _tapped(_guard(_kw_mod.aes_key_unwrap, "kw.unwrap"), "a wrapped or wrapping key", (0,))

    for name in ("load_pem_private_key", "load_pem_public_key"):
        real[name] = getattr(_ser_mod, name)
        setattr(_ser_mod, name, _guard(real[name], "pem.load"))

    sk, vk = ecdsa.keys.SigningKey, ecdsa.keys.VerifyingKey
    sk.sign_deterministic = _guard(sk.sign_deterministic, "ecdsa.sign")
    vk.verify = _guard(vk.verify, "ecdsa.verify")


ENTROPY_SITES = {"urandom", "ec.generate", "rsa.generate", "okp.generate"}


def fault(kind, site):
    """An exception of the sort the real dependency raises when it fails."""
    if kind == "mem":
        return MemoryError("injected at " + site)
    if kind == "val":
        return ValueError("injected refusal of " + site)
    if site == "urandom":
        return OSError(5, "injected entropy failure") if kind == "io" else NotImplementedError("injected: no entropy source")
    if site == "truststore" or site.startswith("oscrypto."):
        return OSError(5 if kind == "io" else 2, "injected failure of " + site)
    if site.startswith("cbor."):
        return OSError(5, "injected serialiser failure")
    return InternalError("injected crypto failure at " + site, [])


real_time = time.time
