"""Watching everything that leaves a simulated process for secrets.

Secrets: the private parameters of every key object, every random draw, every key or shared secret passing through the
key-derivation and key-wrap dependencies, and the plaintext that goes into or comes out of the ciphers.
Ways out: encoded messages, printed representations, error texts, standard output, log records and warnings.
"""
import base64
import binascii
import collections
import io
import logging
import re
import sys
import warnings

from . import loader, seams

W = 8                       # a printed fragment may have up to seven bytes
PRIVATE = {4: (-1,), 2: (-4,), 1: (-4,), 3: tuple(range(-3, -13, -1))}
KTY = {"SymmetricKey": 4, "EC2Key": 2, "OKPKey": 1, "RSAKey": 3}
_esc = re.compile(rb"\\(?:x([0-9a-fA-F]{2})|(.))", re.S)
_simple = {b"n": b"\n", b"r": b"\r", b"t": b"\t"}
_hex = re.compile(r"(?:[0-9a-fA-F]{2}[ :,-]?){%d,}" % W)
_b64 = re.compile(r"[A-Za-z0-9+/_-]{12,}={0,2}")
_ints = re.compile(r"(?:\d{1,3}, ?){%d,}\d{1,3}" % (W - 1))
_big = re.compile(r"\d{18,}")


def _unescape(b):
    return _esc.sub(lambda m: bytes([int(m.group(1), 16)]) if m.group(1) else _simple.get(m.group(2), m.group(2)), b)


def forms(text):
    """Byte strings a text may show."""
    b = text.encode("utf-8", "backslashreplace")
    yield b
    for _ in range(3):
        if b"\\" not in b:
            break
        b = _unescape(b)
        yield b
    for m in _hex.finditer(text):
        h = re.sub(r"[ :,-]", "", m.group())
        for k in (0, 1):
            yield binascii.unhexlify(h[k:len(h) - (len(h) - k) % 2])
    for m in _b64.finditer(text):
        s = m.group().replace("-", "+").replace("_", "/").rstrip("=")
        for k in range(4):
            t = s[k:]
            t = t[:len(t) - len(t) % 4] or ""
            try:
                yield base64.b64decode(t)
            except binascii.Error:
                pass
    for m in _ints.finditer(text):
        v = [int(x) for x in m.group().split(",")]
        yield bytes(x for x in v if x < 256)
    for m in _big.finditer(text):
        n = int(m.group()) if len(m.group()) < 2000 else 0
        yield n.to_bytes((n.bit_length() + 7) // 8, "big")


def snap(v, depth=4):
    """What a value is, without running any of its code."""
    t = type(v)
    if t in (bytes, str, int, bool):
        return t, v
    if depth and t in (list, tuple):
        return (id(v),) + tuple(snap(x, depth - 1) for x in v)
    if depth and t is dict:
        return (id(v),) + tuple((snap(k, 0), snap(x, depth - 1)) for k, x in v.items())
    return id(v)


class Windows(dict):
    def add(self, b, what):
        for i in range(len(b) - W + 1):
            w = b[i:i + W]
            if len(set(w)) >= 6:
                self.setdefault(w, what)

    def find(self, b):
        if not self:
            return None
        for i in range(len(b) - W + 1):
            w = b[i:i + W]
            if w in self:
                return self[w], i
        return None


class _Handler(logging.Handler):
    def __init__(self, watch):
        super().__init__(0)
        self.watch = watch

    def emit(self, rec):
        try:
            self.watch.said.append((rec.getMessage(), "a log record"))
        except TypeError:
            pass


class Watch:
    """with Watch(ctx): the library runs under observation."""

    def __init__(self, ctx, keep=16, keys=True, frac=3):
        self.ctx, self.keys, self.frac = ctx, keys, frac
        self.secret, self.plain = Windows(), Windows()
        self.objs = collections.deque(maxlen=keep)
        self.call = []              # plaintexts of the operation that is running
        self.opened = {}            # id of a held object -> plaintexts it was opened to
        self.fresh = []             # objects made by the operation that is running
        self.got = collections.deque(maxlen=400)        # received messages
        self.said = []              # log records and warnings of the operation that is running
        self.known = set()
        self.found = []             # what encoded messages gave away; reported when the operation is over
        self.n = 0
        self.busy = False
        self.out = io.StringIO()

    # ------------------------------------------------ in and out
    def __enter__(self):
        self.sys = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = self.out
        root = logging.getLogger()
        self.level, self.handler = root.level, _Handler(self)
        root.addHandler(self.handler)
        root.setLevel(1)
        self.warn = warnings.showwarning
        warnings.showwarning = lambda m, *a, **k: self.said.append((str(m), "a warning"))
        loader.ON_BOOT.append(self.instrument)
        seams.S.tap, seams.S.after = self.tap, self.after
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.sys
        root = logging.getLogger()
        root.removeHandler(self.handler)
        root.setLevel(self.level)
        warnings.showwarning = self.warn
        loader.ON_BOOT.remove(self.instrument)
        seams.S.tap = seams.S.after = None
        return False

    def instrument(self, inc):
        """Note every object the process creates and everything it encodes."""
        def make(root):
            def new(cls, *a, **k):
                o = object.__new__(cls)
                self.objs.append(o)
                self.fresh.append(o)
                return o
            root.__new__ = staticmethod(new)
        for leaf in (inc.messages.Enc0Message, inc.keys.SymmetricKey):
            make(next(c for c in reversed(leaf.__mro__) if c.__module__.startswith("pycose.")))
        c = next(c for c in inc.messages.Enc0Message.__mro__ if "decode" in vars(c))
        c.decode = classmethod(self.decoder(vars(c)["decode"]))
        for n in ("Enc0Message", "EncMessage", "Mac0Message", "MacMessage", "Sign1Message", "SignMessage"):
            cls = getattr(inc.messages, n)
            cls.encode = self.encoder(cls.encode)
            if n.startswith("Enc"):
                cls.decrypt = self.decrypter(cls.decrypt)

    def decoder(self, real):
        def decode(cls, b, *a, **k):
            if isinstance(b, bytes):
                self.got.append(b)
            return real.__get__(None, cls)(b, *a, **k)
        return decode

    def encoder(self, real):
        def encode(o, *a, **k):
            if self.busy:
                return real(o, *a, **k)
            mark = len(self.call)
            if type(o).__name__.startswith("Enc") and k.get("encrypt", a[1] if len(a) > 1 else True) and isinstance(o.payload, bytes):
                self.call.append(o.payload)
                if len(o.payload) >= 2 * W:
                    self.plain.add(o.payload, "plaintext")
            b = real(o, *a, **k)
            armed, seams.S.armed = seams.S.armed, False
            try:
                if isinstance(b, bytes):
                    self.wire(o, b, self.call[mark:])
            finally:
                seams.S.armed = armed
            return b
        return encode

    def decrypter(self, real):
        def decrypt(o, *a, **k):
            r = real(o, *a, **k)
            if isinstance(r, bytes) and len(r) >= 2 * W:
                self.opened.setdefault(id(o), (o, []))[1].append((o.payload, r))
            return r
        return decrypt

    # ------------------------------------------------ secrets
    def tap(self, what, b):
        if what == "plaintext":
            self.call.append(b)
            if len(b) >= 2 * W:
                self.plain.add(b, what)
        elif len(b) >= 12:
            self.secret.add(b, what)
            self.ctx.probe("tapped")

    def learn(self):
        if not self.keys:
            return
        for o in self.objs:
            t = KTY.get(type(o).__name__)
            if t is None:
                continue
            try:
                items = list(dict(o).items())
            except Exception:           # half-built
                continue
            for k, v in items:
                k = getattr(k, "identifier", k)
                if k in PRIVATE[t] and isinstance(v, (bytes, list)):
                    for b in [v] if isinstance(v, bytes) else [x for m in v if isinstance(m, dict) for x in m.values()]:
                        if isinstance(b, bytes) and len(b) >= 12 and b not in self.known:
                            self.known.add(b)
                            self.secret.add(b, "a private or symmetric key")

    # ------------------------------------------------ ways out
    def wire(self, o, b, plains):
        self.learn()
        self.ctx.probe("wire_watched")
        f = self.secret.find(b)
        if f:
            self.found.append(("leak", "%s is in the clear in an encoded %s (byte %d of %d)" % (f[0], type(o).__name__, f[1], len(b))))
        held = self.opened.get(id(o), (o, []))[1]
        ps = [p for p in plains + [p for _, p in held] if len(p) >= 2 * W]
        if ps and type(o).__name__.startswith("Enc"):
            w = Windows()
            for p in ps:
                w.add(p, "plaintext")
            f = w.find(b)
            if f and any(c in plains and c == o.payload for c, _ in held):
                # the ciphertext it was received with went through the cipher again
                self.found.append(("encrypted-twice", "a received %s that is encrypted again under the same key and nonce is in the clear" % type(o).__name__))
            elif f:
                self.found.append(("leak", "plaintext is in the clear in an encoded %s (byte %d of %d)" % (type(o).__name__, f[1], len(b))))
            self.ctx.probe("ciphertext_watched")

    def text(self, s, what):
        for b in forms(s):
            f = self.secret.find(b)
            if f is None:
                f = self.plain.find(b)
                if f and any(b[f[1]:f[1] + W] in g for g in self.got):
                    f = None            # somebody sent it in the clear
            if f:
                self.ctx.violate("leak", "%s shows %s: %.300s" % (what, f[0], s))

    def after(self, r):
        """An operation is over: look at its error, and at what the objects of the process print."""
        if self.busy:
            return
        self.busy = True
        try:
            self.report()
            self.learn()
            for s, what in self.said:
                self.text(s, what)
            if not r.ok:
                bad = {id(o) for o in self.fresh if type(o).__name__ in KTY}       # possibly half-built, nobody has it
                self.objs = collections.deque([o for o in self.objs if id(o) not in bad], self.objs.maxlen)
                e, n = r.exc, 0
                while e is not None and n < 8:
                    for s in {str(e), repr(e)} | {repr(a) for a in e.args}:
                        self.text(s, "an error text (%s)" % type(e).__name__)
                    for s in getattr(e, "__notes__", ()):
                        self.text(str(s), "an error note")
                    e, n = e.__cause__ or e.__context__, n + 1
                self.ctx.probe("error_watched")
            self.n += 1
            whole = self.parts(r.val) if r.ok else []
            ids = set(map(id, whole))
            for k, o in enumerate(list(self.objs)):
                if id(o) not in ids and (self.n + k) % self.frac == 0:
                    self.show(o, False)
            for o in whole[:12]:
                self.show(o, True)
            if self.out.tell():
                self.text(self.out.getvalue(), "the process' standard output")
                self.out.seek(0)
                self.out.truncate()
        finally:
            self.busy = False
            del self.call[:], self.fresh[:], self.said[:]

    def report(self):
        found, self.found = self.found, []
        for kind, msg in found:
            self.ctx.violate(kind, msg)

    def parts(self, v):
        out = []
        if type(v).__module__.startswith("pycose."):
            out.append(v)
            for a in ("recipients", "signers"):
                x = getattr(v, a, None)
                if isinstance(x, list):
                    out += x
        elif isinstance(v, (list, tuple)):
            for x in v[:6]:
                out += self.parts(x)
        return out

    def show(self, o, whole):
        before = {k: snap(v) for k, v in vars(o).items()}
        ss = []
        for f in (repr, str):
            try:
                ss.append(f(o))
            except Exception as e:
                if whole:
                    self.ctx.violate("unprintable", "a %s cannot be printed: %r" % (type(o).__name__, e))
        for s in set(ss):
            self.text(s, "the printed %s" % type(o).__name__)
            self.ctx.probe("printed")
        now = vars(o)
        if any(k not in now or snap(now[k]) != v for k, v in before.items()):
            self.ctx.violate("printing-changes", "printing a %s changed it" % type(o).__name__)
