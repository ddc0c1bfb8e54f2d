"""A long-lived process behaves like a fresh one, and nothing but the object asked for changes."""
import gc
import json
import re

from .. import cbor, faults, msgs, rcpts, ref, seams
from ..core import Violation
from ..plain import j, u
from ..solo import Check, World
from ..traffic import make_spec
from .c07 import twin as c07_twin

ID = "C13"
RULE = ("A run is a seeded history of interleaved scripts in one simulated process - messages built from shared header maps, keys and recipient "
        "lists, edited, encoded, opened; keys built from shared parameter maps, edited, stored, used; received messages opened with right and "
        "wrong keys; hostile bytes, failing operations, injected failures, deletions with reuse of addresses, long repetition - and afterwards each "
        "script runs alone in a newly started process with the same entropy. Non-trivial: at least two scripts overlap or an operation failed before "
        "another script's operation; distinct: by the hash of the event log.")
RUNS = {"quick": 1700, "thorough": 24000}
STATE_MEASURE = "distinct (earlier operation of another script, operation) pairs with outcome, algorithm and way of building"
NONTRIVIAL_WITHOUT_FAULT = True
ASSUMPTIONS = ["callers register no classes of their own and do not edit, inside one object's header or key, a nested list or map another one shares",
               "the programs' own edits of message and key objects are made through the public attributes"]
MUST_REACH = {"quick": ("used_then_fresh", "shared_headers", "shared_params", "shared_recipients", "twin_key", "twin_message", "after_failure",
                        "edited_then_encoded", "rebuilt_equal", "bulk", "deleted", "script_fault")}
REAL = ["pycose (all of it, one fresh import per simulated process)", "cbor2", "cryptography/OpenSSL", "ecdsa"]
STUB = ["entropy (one seeded stream per operation of a script)", "failures of dependency calls"]

KINDS = ["enc0", "mac0", "sign1", "enc", "mac", "sign"]
LABELS = [4, 3, 1000, -70001, "hdr", "x-App", 10]
JUNK = [b"", b"\xd2", b"\xd8\x60\x80", cbor.enc(cbor.Tag(98, [b"", {}, b"x", []])), cbor.enc(cbor.Tag(17, [b"\xa1\x01", {}, b"x", b""])),
        cbor.enc(cbor.Tag(18, [b"\xa1\x01\x26", {4: 5}, b"x", b""])), cbor.enc(cbor.Tag(96, [b"", {}, b"x", [[b"", {1: -5}, b"", [1]]]])),
        cbor.enc(cbor.Tag(18, [cbor.enc({1: -999999}), {}, b"x", b"y"])), cbor.enc(cbor.Tag(99, [1, 2, 3])), cbor.enc(cbor.Tag(16, [1, 2, 3])),
        cbor.enc(cbor.Tag(97, [b"", {1: 5}, b"p", b"t", [[b"", {1: -29, -1: {1: 2, -1: 1}}, b""]]])),
        cbor.enc(cbor.Tag(18, [cbor.enc({1: -7, 77: 1}), {78: 2, "q": 3}, b"x", b"y"])),
        cbor.enc(cbor.Tag(16, [cbor.enc({"ALG": 1}), {"IV": b"1"}, b"x"]))]
JUNK_KEYS = [b"", b"\xa0", cbor.enc({1: 4}), cbor.enc({1: 99}), cbor.enc({1: 2, -1: 9, -2: b"x"}), cbor.enc({1: 4, -1: b"x" * 7}),
             cbor.enc({1: 1, -1: 6, 4: [77]}), cbor.enc({1: 2, -1: 1, -2: b"\1" * 32, -3: b"\2" * 32, 3: 1}),
             cbor.enc({1: 4, -1: b"k" * 16, 4: ["nope"]}), cbor.enc({1: 4, -1: b"k" * 16, 99: 5, "x": [1]})]


# ------------------------------------------------------------------ generation

def tweak(rng, sp, keys):
    """Nearly the same message: one thing differs."""
    sp = json.loads(json.dumps(sp))
    x = rng.choice(["payload", "payload", "aad", "key", "u", "iv", "all"])
    if x == "all":
        sp = c07_twin(rng, sp, keys)
        sp.pop("_twin")
    elif x == "payload" and sp["payload"]:
        b = bytearray.fromhex(sp["payload"])
        b[rng.choice([0, -1])] ^= 1 << rng.randrange(8)
        sp["payload"] = b.hex()
    elif x == "aad" and sp["kind"] != "sign":
        sp["aad"] = rng.randbytes(rng.choice([1, 9])).hex()
    elif x == "iv" and sp.get("iv"):
        b = bytearray.fromhex(sp["iv"])
        b[-1] ^= 1
        sp["iv"] = b.hex()
    elif x == "key":
        for s in [sp] + sp.get("signers", []) + [r for r in sp.get("recipients", [])[:1] if r["alg"] in ref.KW_ALGS or r["alg"] in ref.OAEP_ALGS]:
            if s.get("key") is not None and keys[s["key"]]["t"] == "sym":
                k = dict(keys[s["key"]])
                b = bytearray.fromhex(k["k"])
                b[rng.choice([0, -1])] ^= 1 << rng.randrange(8)
                keys.append({**k, "k": b.hex()})
                s["key"] = len(keys) - 1
                for r in sp.get("recipients", []) if s is sp else []:
                    r["key"] = s["key"]
    else:
        sp["u"] = [i for i in sp["u"] if i[0] not in (1000,)] + ([[1000, rng.randrange(9)]] if not any(i[0] == 1000 for i in sp["p"]) else [])
    return sp


def gen_opt(rng):
    """A caller's map of optional key parameters."""
    o = []
    if rng.random() < .6:
        o.append([2, j(rng.randbytes(rng.choice([0, 1, 8])))])
    if rng.random() < .35:
        o.append([3, rng.choice([1, 2, 3, 5, -7, -8, -35, -37])])
    if rng.random() < .6:
        o.append([4, rng.choice([[], [1], [2], [1, 2], [3, 4], [9, 10], [7], [7, 8], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10], [3, 3, 4], [4, 3, 4], [1, 2, 1], [2, 1], [9, 9]])])
    if rng.random() < .25:
        o.append([5, j(rng.randbytes(rng.choice([7, 12, 13])))])
    if rng.random() < .25:
        o.append([rng.choice([99, "x", -70000]), j(msgs.gen_value(rng))])
    if rng.random() < .2:
        # labels the library fills in itself
        for lab in rng.sample([1, -1, -2, -3, -4], rng.choice([1, 2, 3])):
            o.append([lab, j({1: rng.choice([1, 2, 4]), -1: rng.choice([1, 6, 7, rng.randbytes(16)])}.get(lab) or rng.randbytes(rng.choice([0, 1, 32])))])
    rng.shuffle(o)
    return {"o": o, "style": rng.choice(["cls", "cls", "id", "name"])}


def edit(rng, tr=False):
    lab = rng.choice(LABELS)
    v = j(rng.randbytes(rng.choice([0, 1, 4]))) if lab in (4, 10) else rng.choice([0, 60, "text/plain"]) if lab == 3 else j(msgs.gen_value(rng))
    return {"b": rng.choice("pu"), "how": rng.choice(["set", "set", "del", "upd", "upd", "setter", "clear", "tset", "tset", "tupd"]), "tm": rng.randrange(9), "lab": lab, "v": v}


def gen_script(rng, env):
    k = rng.choice(["msg", "msg", "msg", "key", "key", "recv", "recv", "noise", "gen"])
    return k, {"msg": s_msg, "key": s_key, "recv": s_recv, "noise": s_noise, "gen": s_gen}[k](rng, env)


def s_msg(rng, env):
    out = [{"op": "mnew", "o": 0, "t": rng.randrange(len(env["tmpl"])), "pl": rng.randbytes(rng.choice([0, 1, 5, 40])).hex() if rng.random() < .5 else None}]
    n = 1
    for _ in range(rng.choice([1, 2, 3, 4, 6, 8])):
        x = rng.random()
        o = rng.randrange(n)
        if x < .22:
            out.append({"op": "medit", "o": o, **edit(rng)})
        elif x < .32:
            w = rng.choice(["payload", "payload", "aad", "key"])
            out.append({"op": "mset", "o": o, "f": w, "v": rng.randbytes(rng.choice([0, 1, 7])).hex() if w != "key" else rng.randrange(1000)})
        elif x < .6:
            out.append({"op": "menc", "o": o, "fault": faults.gen(rng) if rng.random() < .15 else None, "tag": rng.random() < .93, "prot": rng.random() < .95})
        elif x < .72:
            out.append({"op": "mopen", "o": o, "i": rng.randrange(4), "keep": n if rng.random() < .4 else None, "alter": rng.random() < .2})
            if out[-1]["keep"] is not None:
                n += 1
        elif x < .8:
            out.append({"op": "mfrom", "o": n, "src": o, "led": rng.choice(["pop", "append", "clear", None]), "of": rng.randrange(2)})
            n += 1
        elif x < .86:
            out.append({"op": "mlook", "o": o, "lab": rng.choice([1, 4, 5, 3])})
        elif x < .93:
            out.append({"op": "mnew", "o": n, "t": rng.randrange(len(env["tmpl"])), "pl": None})
            n += 1
        else:
            out.append({"op": "drop", "o": o})
    if rng.random() < .6:
        out.append({"op": "menc", "o": rng.randrange(n), "fault": None, "tag": True, "prot": True})
    return out


def s_key(rng, env):
    out, n = [], 0
    for _ in range(rng.choice([1, 2, 2, 3])):
        out.append({"op": "knew", "o": n, "how": rng.choice(["ctor", "ctor", "dict", "decode", "copy", "gen"]), "k": rng.randrange(1000), "opt": rng.randrange(1000),
                    "src": rng.randrange(n) if n else None, "fault": faults.gen(rng) if rng.random() < .1 else None})
        n += 1
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        x = rng.random()
        o = rng.randrange(n)
        if x < .4:
            out.append({"op": "kedit", "o": o, "how": rng.choice(["alg", "ops", "ops", "kid", "item", "del", "upd", "biv", "opsmut"]), "a": rng.randrange(1000), "v": rng.randbytes(3).hex()})
        elif x < .65:
            out.append({"op": "kenc", "o": o, "fault": faults.gen(rng) if rng.random() < .1 else None})
        elif x < .93:
            out.append({"op": "kuse", "o": o, "a": rng.randrange(1000), "fault": faults.gen(rng) if rng.random() < .1 else None})
        else:
            out.append({"op": "drop", "o": o})
    out.append({"op": "kuse", "o": rng.randrange(n), "a": rng.randrange(1000), "fault": None})
    out.append({"op": "kenc", "o": rng.randrange(n), "fault": None})
    return out


def s_recv(rng, env):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        out.append({"op": "recv", "w": rng.randrange(len(env["pool"])), "how": rng.choice(["right", "right", "right", "aad", "cut", "bit", "bit", "key", "kept"]),
                    "i": rng.randrange(4), "key": rng.choice(["shared", "shared", "own"]), "a": rng.randrange(1 << 20),
                    "fault": faults.gen(rng) if rng.random() < .12 else None})
    return out


def s_noise(rng, env):
    out = []
    for _ in range(rng.choice([1, 2, 4])):
        x = rng.random()
        if x < .35:
            out.append({"op": "junk", "b": rng.choice(JUNK).hex() if rng.random() < .6 else rng.randbytes(rng.choice([1, 4, 20])).hex(),
                        "cls": rng.choice(["CoseMessage"] + list(msgs.CLS.values())), "unk": rng.random() < .7})
        elif x < .55:
            out.append({"op": "junkkey", "b": rng.choice(JUNK_KEYS).hex(), "cls": rng.choice(["CoseKey", "EC2Key", "OKPKey", "RSAKey", "SymmetricKey"])})
        elif x < .75:
            out.append({"op": "fromid", "what": rng.choice(["alg", "hdr", "kp", "ops", "crv"]), "v": rng.choice([-7, 1, 99999, "ES256", "nope", "es256", "ALG", None, [1, 2], True, 2, -1]),
                        "unk": rng.random() < .3})
        elif x < .9 and env["tmpl"]:
            out.append({"op": "bulk", "n": rng.choice([20, 60, 150] if env["tier"] == "quick" else [60, 150, 400, 1200]), "t": rng.randrange(len(env["tmpl"])),
                        "what": rng.choice(["new", "enc", "junk", "key", "hash", "recv", "fail", "cycle", "cycle", "cycle"]), "w": rng.randrange(len(env["pool"])), "k": rng.randrange(1000)})
        else:
            out.append({"op": "badnew", "t": rng.randrange(len(env["tmpl"])), "bad": rng.choice(["phdr", "uhdr", "payload", "aad", "key", "rcpt"])})
    return out


def s_gen(rng, env):
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        if rng.random() < .6:
            out.append({"op": "gen", "what": rng.choice(["sym", "ec2", "okp"]), "arg": rng.randrange(10), "fault": faults.gen(rng) if rng.random() < .2 else None})
        else:
            out.append({"op": "hash", "alg": rng.choice([-16, -14, -15, -17, -18, -43, -44, -45]), "v": rng.randbytes(rng.choice([0, 20])).hex(), "fault": None})
    return out


def gen(rng, i, tier):
    keys, shared = [], {}
    ring = rcpts.KeyRing(keys)
    made = []
    narrow = rng.choice([0, .4, .8])
    focus = rng.choice([None, None, ["enc", "mac"], ["sign1", "sign"], ["enc0"], ["mac0"], ["sign1"], ["enc"], ["mac"]]) or KINDS

    def spec():
        if made and rng.random() < narrow:
            return tweak(rng, rng.choice(made), keys)
        kind = rng.choice(focus)
        sp = rcpts.gen_spec(rng, ring, kind) if kind in ("enc", "mac") else make_spec(rng, kind, keys, shared)
        sp["payload"], sp["aad"] = sp["payload"][:200], sp["aad"][:100]
        if kind in ("enc", "mac") and len(sp["recipients"]) > 2:
            sp["recipients"] = sp["recipients"][:2]
        made.append(sp)
        return sp
    tmpl = [spec() for _ in range(rng.choice([1, 2, 2, 3]))]
    pool = [spec() for _ in range(rng.choice([1, 2, 3, 4]))]
    while rng.random() < .5:
        keys.append(rng.choice([lambda: msgs.gen_sym(rng, rng.choice([16, 24, 32])), lambda: msgs.gen_ec(rng, rng.choice([1, 2, 3])), lambda: msgs.gen_okp(rng, rng.choice([6, 7])),
                                lambda: msgs.gen_rsa(rng)])())
    opts = [gen_opt(rng) for _ in range(rng.choice([1, 2]))]
    env = {"tmpl": tmpl, "pool": pool, "tier": tier}
    nscripts = rng.choice([2, 3, 4, 5, 6])
    kinds, scripts = [], []
    base = gen_script(rng, env) if rng.random() < .4 else None
    for _ in range(nscripts):
        # often the same script twice: the second run must not notice the first
        k, s = base if base and rng.random() < .6 else gen_script(rng, env)
        kinds.append(k)
        scripts.append([dict(x) for x in s])
    steps = []
    left = [list(s) for s in scripts]
    burst = rng.choice([1, 1, 3, 100])
    while any(left):
        s = rng.choice([q for q, x in enumerate(left) if x])
        for _ in range(rng.randint(1, burst)):
            if left[s]:
                steps.append({"s": s, **left[s].pop(0)})
        if rng.random() < .08:
            steps.append({"s": -1, "op": "gc"})
    return {"keys": keys, "tmpl": tmpl, "pool": pool, "opts": opts, "n": nscripts, "steps": steps}


# ------------------------------------------------------------------ what can be seen of an object

def vis(v, depth=0):
    """Plain, type-exact, order-keeping picture of a value."""
    if isinstance(v, type):
        return "C:" + v.__name__
    if v is None or isinstance(v, (bool, int, float, str)):
        return (type(v).__name__, v)
    if isinstance(v, (bytes, bytearray)):
        return (type(v).__name__, bytes(v))
    if depth > 12:
        return "deep"
    if isinstance(v, dict):
        return ("m", tuple((vis(k, depth + 1), vis(x, depth + 1)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(vis(x, depth + 1) for x in v))
    if hasattr(v, "store"):
        return ("key", type(v).__name__, vis(dict(v), depth + 1))
    if hasattr(v, "phdr"):
        out = [type(v).__name__]
        for a in ("phdr", "uhdr", "payload", "external_aad", "key", "signature", "auth_tag", "local_attrs", "alg_tstr_encoding", "context"):
            try:
                out.append((a, vis(getattr(v, a), depth + 1)))
            except AttributeError:
                pass
        for a in ("recipients", "signers"):
            x = getattr(v, a, None)
            if x is not None:
                out.append((a, tuple(vis(y, depth + 1) for y in x)))
        return tuple(out)
    if hasattr(v, "tag") and hasattr(v, "value"):
        return ("tag", v.tag, vis(v.value, depth + 1))
    return "O:" + type(v).__name__


class Process(World):
    """One simulated process: what its programs share, and each script's own objects."""

    def __init__(self, plan, ctx, chk, name):
        seams.S.entropy = seams.Stream(plan["seed"], "setup")
        self.name = name
        super().__init__(plan, ctx, chk)
        inc = self.inc
        self.env = {}
        self.cmaps = [(msgs.lib_hdr(inc, s, "p", True), msgs.lib_hdr(inc, s, "u", True)) for s in plan["tmpl"]]
        self.group = {}
        self.model = {}
        self.rlists = [[self.rcpt(r) for r in s.get("recipients", [])] for s in plan["tmpl"]]
        self.slists = []
        for k, s in enumerate(plan["tmpl"]):
            self.slists.append([self.signer(x, a, b) for x, (a, b) in zip(s.get("signers", []), self.stmpl[k])])
        self.opts = []
        for o in plan["opts"]:
            d = {}
            for k, v in o["o"]:
                d[self.kp(u(k), o["style"])] = self.kpval(u(k), u(v), o["style"])
            self.opts.append(d)
        self.dicts = []
        for n, k in enumerate(plan["keys"]):
            d = ref.key_map(k, True)
            o = plan["opts"][n % len(plan["opts"])]
            d = {self.kp(x, o["style"], k["t"]): y for x, y in d.items()}
            for a, b in self.opts[n % len(self.opts)].items():
                d[a] = b
            self.dicts.append(d)
        self.last = {}

    def rcpt(self, r):
        return msgs.lib_rcpt(self.inc, r, self.key)

    def signer(self, s, a, b):
        kt = {"alg_tstr_encoding": True} if (s.get("style") or {}).get("tstr") else {}
        return self.inc.signer.CoseSignature(phdr=a, uhdr=b, key=self.key(s["key"]), external_aad=bytes.fromhex(s["aad"]), **kt)

    def kp(self, k, style, t=None):
        P = self.inc.keyparam
        if not isinstance(k, int):
            return k
        base = P.KeyParam
        if k < 0:
            base = {"ec2": P.EC2KeyParam, "okp": P.OKPKeyParam, "rsa": P.RSAKeyParam, "sym": P.SymmetricKeyParam}.get(t, base)
        try:
            c = base.from_id(k)
        except Exception:
            return k
        return c if style == "cls" else k if style == "id" else c.fullname

    def kpval(self, k, v, style):
        inc = self.inc
        if style == "id":
            return v
        if k == 3:
            c = inc.algorithms.CoseAlgorithm.from_id(v)
            return c if style == "cls" else c.fullname
        if k == 4:
            return [inc.keyops.KeyOps.from_id(x) if style == "cls" else inc.keyops.KeyOps.from_id(x).fullname for x in v]
        return v

    # ---- what belongs to the callers
    def desk(self):
        return [("header map", [(vis(a), vis(b)) for a, b in self.tmpl]), ("header map", [(vis(a), vis(b)) for a, b in self.cmaps]), ("signer header map", [[(vis(a), vis(b)) for a, b in s] for s in self.stmpl]),
                ("key", [vis(k) for k in self.cache.values()]), ("parameter map", [vis(d) for d in self.opts]), ("key map", [vis(d) for d in self.dicts]),
                ("recipient list", [[id(x) for x in y] for y in self.rlists]), ("signer list", [[id(x) for x in y] for y in self.slists]),
                ("signer of the caller", [[vis(x) for x in y] for y in self.slists])]

    # ---- one step
    def do(self, st, idx):
        """-> ("ok", picture) | ("error", type)"""
        seams.S.entropy = seams.Stream(self.plan["seed"], "s%d.%d" % (st["s"], idx))
        self.touched = set()
        self.idx = idx
        f = getattr(self, "op_" + st["op"])
        r, fired = faults.run(self.ctx if self.name == "used" else Quiet(self.ctx), st.get("fault"), f, st)
        self.fired = fired
        self.err = None if r.ok else r.exc
        if isinstance(r.exc, Violation):
            raise r.exc
        if r.ok:
            return ("ok", r.val)
        return ("error", type(r.exc).__name__)

    def get(self, st, o=None):
        o = st["o"] if o is None else o
        x = self.env.get((st["s"], o))
        if x is None:
            raise Missing()
        return x

    def put(self, st, o, x):
        self.env[(st["s"], o)] = x
        self.touched.add((st["s"], o))

    def touch(self, st, o=None):
        k = (st["s"], st["o"] if o is None else o)
        self.touched |= self.group.get(k, {k})

    # ---- messages
    def op_mnew(self, st):
        self.touch(st)
        self.env.pop((st["s"], st["o"]), None)
        self.last.pop((st["s"], st["o"]), None)
        k = st["t"]
        spec = self.plan["tmpl"][k]
        own = [self.rcpt(r) for r in spec.get("recipients", [])]
        m, L = self.make(spec, k, st.get("pl"), own)
        self.group[(st["s"], st["o"])] = {(st["s"], st["o"])}
        self.put(st, st["o"], m)
        self.model[(st["s"], st["o"])] = {"t": k, "L": L, "spec": spec}
        return vis(m)

    def make(self, spec, k, pl, L):
        inc, kind = self.inc, spec["kind"]
        ph, uh = self.tmpl[k]
        kw = {"payload": None if spec["detached"] else bytes.fromhex(spec["payload"] if pl is None else pl)}
        style = spec.get("style") or {}
        if style.get("tstr"):
            kw["alg_tstr_encoding"] = True
        cls = msgs.lib_cls(inc, kind)
        if kind == "sign":
            L = [self.signer(x, a, b) for x, (a, b) in zip(spec["signers"], self.stmpl[k])]
            kw["signers"] = L
        else:
            kw["external_aad"] = bytes.fromhex(spec["aad"])
            if spec.get("key") is not None:
                kw["key"] = self.key(spec["key"])
            if kind in ("enc", "mac"):
                kw["recipients"] = L
        return cls(phdr=ph, uhdr=uh, **kw), L

    def op_mfrom(self, st):
        """Another message from the caller's same list, then one message's list is edited."""
        src = self.get(st, st["src"])
        sk, nk = (st["s"], st["src"]), (st["s"], st["o"])
        mo = self.model.get(sk)
        if mo is None or not mo["L"]:
            raise Missing()
        L = mo["L"]
        before = list(L)
        lst = "signers" if mo["spec"]["kind"] == "sign" else "recipients"
        spec = mo["spec"]
        kw = {lst: L}
        ph, uh = self.tmpl[mo["t"]]
        m = msgs.lib_cls(self.inc, spec["kind"])(phdr=ph, uhdr=uh, payload=None if spec["detached"] else bytes.fromhex(spec["payload"]), **kw)
        if spec.get("key") is not None:
            m.key = self.key(spec["key"])
        self.put(st, st["o"], m)
        self.model[nk] = {"t": mo["t"], "L": L, "spec": spec}
        g = self.group.setdefault(sk, {sk}) | {nk}
        for x in g:
            self.group[x] = g
        self.touched |= g
        self.ctx.probe("shared_recipients")
        other = [list(getattr(src, lst)), list(getattr(m, lst))]
        a, b = (m, src) if st["of"] else (src, m)
        was = list(getattr(b, lst))
        x = getattr(a, lst)
        if st["led"] == "pop" and x:
            x.pop()
        elif st["led"] == "append" and x:
            x.append(x[0])
        elif st["led"] == "clear":
            x.clear()
        if [id(y) for y in L] != [id(y) for y in before]:
            self.ctx.violate("caller-changed", "the caller's list of %s of a %s message changed with one message's list" % (lst, spec["kind"]))
        if [id(y) for y in getattr(b, lst)] != [id(y) for y in was]:
            self.ctx.violate("other-changed", "two %s messages made from one list of %s share it" % (spec["kind"], lst))
        return vis(m)

    def op_medit(self, st):
        m = self.get(st)
        self.touch(st)
        lab = msgs.label_cls(self.inc, u(st["lab"])) or u(st["lab"])
        b, v, how = st["b"], u(st["v"]), st["how"]
        h = m.phdr if b == "p" else m.uhdr
        mo = self.model.get((st["s"], st["o"]))
        if how == "set":
            if b == "p" and mo is None:
                m.phdr_update({lab: v})        # a received protected header is edited through the message
            else:
                h[lab] = v
        elif how == "upd":
            (m.phdr_update if b == "p" else m.uhdr_update)({lab: v})
        elif how == "del":
            if b == "p" and mo is None:
                m.phdr = {k: x for k, x in h.items() if k != lab}
            else:
                h.pop(lab, None)
        elif how in ("tset", "tupd"):
            d = self.cmaps[st["tm"] % len(self.cmaps)][b == "u"]
            if how == "tupd":
                (m.phdr_update if b == "p" else m.uhdr_update)(d)
            elif b == "p":
                m.phdr = d
            else:
                m.uhdr = d
        else:
            keep = {k: x for k, x in h.items() if how == "setter" or k in (self.inc.headers.Algorithm, self.inc.headers.IV)}
            if how == "setter":
                keep[lab] = v
            if b == "p":
                m.phdr = keep
            else:
                m.uhdr = keep
        return vis(m)

    def op_mset(self, st):
        m = self.get(st)
        self.touch(st)
        if st["f"] == "payload":
            m.payload = bytes.fromhex(st["v"])
        elif st["f"] == "aad":
            if hasattr(m, "signers"):
                if m.signers:
                    m.signers[0].external_aad = bytes.fromhex(st["v"])
            else:
                m.external_aad = bytes.fromhex(st["v"])
        else:
            i = st["v"] % len(self.plan["keys"])
            if hasattr(m, "signers"):
                if m.signers:
                    m.signers[0].key = self.key(i)
            else:
                m.key = self.key(i)
        return vis(m)

    def op_menc(self, st):
        m = self.get(st)
        self.touch(st)
        mo = self.model.get((st["s"], st["o"]))
        spec = mo["spec"] if mo else None
        kw = {}
        if not st.get("tag", True):
            kw["tag"] = False
        if not st.get("prot", True):
            kw[{"E": "encrypt", "M": "mac", "S": "sign"}[type(m).__name__[0]]] = False
        if spec and spec["detached"] and m.payload is None:
            kw["detached_payload"] = bytes.fromhex(spec["payload"])
        again = None
        if self.name == "fresh" and mo is not None and spec["kind"] in ("enc0", "mac0", "sign1") and st.get("prot", True) and not st.get("fault"):
            again = self.rebuild(m, spec)
        out = m.encode(**kw)
        self.last[(st["s"], st["o"])] = (out, spec)
        if again is not None:
            e = seams.S.entropy
            seams.S.entropy = seams.Stream(self.plan["seed"], "s%d.%d" % (st["s"], self.idx))
            w = again.encode(**kw)
            seams.S.entropy = e
            self.ctx.probe("rebuilt_equal")
            if w != out:
                self.ctx.violate("depends-on-past", "a %s message edited into its present state encodes differently from one made that way:\n%s\n%s" % (spec["kind"], out.hex(), w.hex()))
        return out

    def rebuild(self, m, spec):
        kw = {"alg_tstr_encoding": True} if m.alg_tstr_encoding else {}
        k = m.key
        if k is not None:
            k = self.inc.keys.CoseKey.decode(k.encode())
        return type(m)(phdr=dict(m.phdr), uhdr=dict(m.uhdr), payload=m.payload, external_aad=m.external_aad, key=k, **kw)

    def op_mopen(self, st):
        got = self.last.get((st["s"], st["o"]))
        if got is None:
            self.op_menc({**st, "fault": None})
            got = self.last[(st["s"], st["o"])]
        if got[1] is None:
            raise Missing()
        wire, spec = got
        m0 = self.get(st)
        if st["alter"] and len(wire) > 12:
            wire = wire[:-2] + bytes([wire[-2] ^ 4]) + wire[-1:]
        m = self.inc.messages.CoseMessage.decode(wire)
        out = [vis(m)]
        kw = {"detached_payload": bytes.fromhex(spec["payload"])} if m.payload is None and spec["kind"] in ("sign", "sign1") else {}
        if st["keep"] is not None:
            self.put(st, st["keep"], m)
        try:
            if spec["kind"] == "sign":
                for o, s in zip(m.signers, m0.signers):
                    o.key, o.external_aad = s.key, s.external_aad
                    out.append(o.verify_signature(**kw))
            else:
                m.external_aad = m0.external_aad
                if spec["kind"] in ("enc", "mac"):
                    i = st["i"] % len(spec["recipients"])
                    r = spec["recipients"][i]
                    out.append(rcpts.lib_open(self.inc, wire, i, r, self.key(r["key"]), m0.external_aad, bytes.fromhex(r.get("supp_pub", "")), bytes.fromhex(r.get("supp_priv", "")), m))
                else:
                    m.key = m0.key
                    out.append(m.decrypt() if spec["kind"] == "enc0" else m.verify_tag() if spec["kind"] == "mac0" else m.verify_signature(**kw))
        except Exception as e:
            out.append(type(e).__name__)
        if st["keep"] is not None:
            k = (st["s"], st["keep"])
            self.group[k] = {k}
            self.model.pop(k, None)
        return out

    def op_mlook(self, st):
        m = self.get(st)
        out = [re.sub(r"0x[0-9a-f]+", "@", repr(m))]
        try:
            out.append(vis(m.get_attr(self.inc.headers.CoseHeaderAttribute.from_id(st["lab"]))))
        except self.inc.exceptions.CoseException as e:
            out.append(str(e))
        return out

    def op_drop(self, st):
        self.touch(st)
        k = (st["s"], st["o"])
        self.env.pop(k, None)
        self.model.pop(k, None)
        self.last.pop(k, None)
        for g in self.group.values():
            g.discard(k)
        self.ctx.probe("deleted")
        return None

    def op_gc(self, st):
        gc.collect()
        return None

    # ---- keys
    def op_knew(self, st):
        self.touch(st)
        self.env.pop((st["s"], st["o"]), None)
        i = st["k"] % len(self.plan["keys"])
        d = self.plan["keys"][i]
        K = self.inc.keys
        opt = self.opts[st["opt"] % len(self.opts)]
        how = st["how"]
        crv = self.inc.curves.CoseCurve
        if how == "decode":
            k = K.CoseKey.decode(cbor.enc(ref.key_map(d, st["opt"] % 2 == 0)))
        elif how == "dict":
            k = K.CoseKey.from_dict(self.dicts[i])
        elif how == "copy" and st["src"] is not None:
            k = K.CoseKey.from_dict(dict(self.get(st, st["src"])))
        elif how == "gen":
            if d["t"] == "sym":
                k = K.SymmetricKey.generate_key(len(d["k"]) // 2, opt)
            elif d["t"] == "ec2":
                k = K.EC2Key.generate_key(crv.from_id(d["crv"]), opt)
            elif d["t"] == "okp":
                k = K.OKPKey.generate_key(crv.from_id(d["crv"]), opt)
            else:
                raise Missing()
        else:
            m = ref.key_map(d, True)
            if d["t"] == "sym":
                k = K.SymmetricKey(k=m[-1], optional_params=opt)
            elif d["t"] == "ec2":
                k = K.EC2Key(crv=crv.from_id(m[-1]), x=m[-2], y=m[-3], d=m[-4], optional_params=opt)
            elif d["t"] == "okp":
                k = K.OKPKey(crv=crv.from_id(m[-1]), x=m[-2], d=m[-4], optional_params=opt)
            else:
                k = K.RSAKey(n=m[-1], e=m[-2], d=m[-3], p=m[-4], q=m[-5], dp=m[-6], dq=m[-7], qinv=m[-8], optional_params=opt)
        self.ctx.probe("shared_params")
        self.put(st, st["o"], k)
        return vis(k)

    def op_kedit(self, st):
        k = self.get(st)
        self.touch(st)
        P, how, a = self.inc.keyparam, st["how"], st["a"]
        alg = self.inc.algorithms.CoseAlgorithm.from_id([1, 5, -7, -8, -37][a % 5])
        ops = [self.inc.keyops.KeyOps.from_id(x) for x in [[1], [2], [1, 2], [9], [10], [9, 10], [3, 4], [3], [7]][a % 9]]
        if how == "alg":
            k.alg = alg
        elif how == "ops":
            k.key_ops = ops
        elif how == "opsmut":
            if k.key_ops:
                k.key_ops = list(k.key_ops)[:-1]
        elif how == "kid":
            k.kid = bytes.fromhex(st["v"])
        elif how == "biv":
            k.base_iv = bytes.fromhex(st["v"])
        elif how == "item":
            k[P.KpKid if a % 2 else 77] = bytes.fromhex(st["v"])
        elif how == "del":
            del k[[P.KpKid, P.KpAlg, P.KpKeyOps, P.KpBaseIV][a % 4]]
        else:
            k.update({P.KpKid: bytes.fromhex(st["v"]), P.KpAlg: alg})
        return vis(k)

    def op_kenc(self, st):
        k = self.get(st)
        return [k.encode(), re.sub(r"0x[0-9a-f]+", "@", repr(k))]

    def op_kuse(self, st):
        """Protect and open a small message with the key."""
        k, inc, a = self.get(st), self.inc, st["a"]
        H, M = inc.headers, inc.messages
        t = type(k).__name__
        out = []
        if t == "SymmetricKey":
            if a % 2:
                m = M.Enc0Message(phdr={H.Algorithm: inc.algorithms.CoseAlgorithm.from_id({16: 1, 24: 2, 32: 3}[len(k.k)])}, uhdr={H.IV: b"i" * 12}, payload=b"pp", key=k)
            else:
                m = M.Mac0Message(phdr={H.Algorithm: inc.algorithms.CoseAlgorithm.from_id(5 if a % 4 else 4)}, payload=b"pp", key=k)
        else:
            alg = {"OKPKey": -8, "RSAKey": -37}.get(t) or {1: -7, 2: -35, 3: -36}[k.crv.identifier]
            m = M.Sign1Message(phdr={H.Algorithm: inc.algorithms.CoseAlgorithm.from_id(alg)}, payload=b"pp", key=k)
        try:
            w = m.encode()
        except inc.exceptions.CoseException as e:
            return [type(e).__name__]
        out.append(w)
        d = M.CoseMessage.decode(w)
        d.key = k
        try:
            out.append(d.decrypt() if t == "SymmetricKey" and a % 2 else d.verify_tag() if t == "SymmetricKey" else d.verify_signature())
        except inc.exceptions.CoseException as e:
            out.append(type(e).__name__)
        return out

    # ---- received messages
    def op_recv(self, st):
        spec, wire = self.plan["pool"][st["w"]], self.wires[st["w"]]
        key = self.key if st["key"] == "shared" else self.load
        how = st["how"]
        if how == "kept":
            try:
                return ["kept", self.op_open(st)]
            except Exception as e:
                return ["kept", type(e).__name__]
        if how == "cut":
            wire = wire[:len(wire) * 2 // 3]
        elif how == "bit":
            n = 1 + st["a"] % min(len(wire) - 1, 40)
            wire = wire[:-n] + bytes([wire[-n] ^ 1 << (st["a"] >> 8) % 8]) + wire[len(wire) - n + 1:]
        elif how == "key":
            base = key

            def key(i, priv=True):
                t = self.plan["keys"][i]["t"]
                o = [x for x, d in enumerate(self.plan["keys"]) if d["t"] == t and x != i]
                return base(o[st["a"] % len(o)] if o else i, priv)
        try:
            r = self.open_wire(spec, wire, st["i"], key, b"!" if how == "aad" else b"")
        except Exception as e:
            return type(e).__name__
        return r

    def op_gen(self, st):
        return super().op_gen(st)

    # ---- noise
    def op_junk(self, st):
        b = bytes.fromhex(st["b"])
        M = self.inc.messages
        return vis(getattr(M, st["cls"]).decode(b, allow_unknown_attributes=st["unk"]))

    def op_junkkey(self, st):
        return vis(getattr(self.inc.keys, st["cls"]).decode(bytes.fromhex(st["b"])))

    def op_fromid(self, st):
        inc = self.inc
        c = {"alg": inc.algorithms.CoseAlgorithm, "hdr": inc.headers.CoseHeaderAttribute, "kp": inc.keyparam.KeyParam, "ops": inc.keyops.KeyOps, "crv": inc.curves.CoseCurve}[st["what"]]
        return vis(c.from_id(st["v"], st["unk"]))

    def op_badnew(self, st):
        k = st["t"]
        spec = self.plan["tmpl"][k]
        ph, uh = self.tmpl[k]
        inc, bad = self.inc, st["bad"]
        H = inc.headers
        kw = {"phdr": ph, "uhdr": uh, "payload": b"x"}
        if bad == "phdr":
            kw["phdr"] = {**ph, H.KID: 5}
        elif bad == "uhdr":
            kw["uhdr"] = {**uh, H.Critical: []}
        elif bad == "payload":
            kw["payload"] = "x"
        elif bad == "aad":
            kw["external_aad"] = 5
        elif bad == "key":
            kw["key"] = b"raw"
        else:
            kw["signers" if spec["kind"] == "sign" else "recipients"] = [5]
        return vis(msgs.lib_cls(inc, spec["kind"])(**kw))

    def op_bulk(self, st):
        k, what = st["t"], st["what"]
        spec = self.plan["tmpl"][k]
        self.ctx.probe("bulk")
        n = st["n"]
        if what == "cycle":
            return self.cycle(st)
        if what in ("enc", "recv"):
            n = min(n, 12 if spec["kind"] in ("mac0", "enc0") and what == "enc" else 5)
        acc = []
        for q in range(n):
            try:
                if what == "new":
                    m, _ = self.make(spec, k, "%04x" % q, [])
                    r = vis(m.payload)
                elif what == "enc":
                    m, _ = self.make(spec, k, "%04x" % q, [self.rcpt(x) for x in spec.get("recipients", [])])
                    r = m.encode(**({"detached_payload": b"z%d" % q} if spec["detached"] else {}))
                elif what == "junk":
                    r = vis(self.inc.messages.CoseMessage.decode(cbor.enc(cbor.Tag(18, [cbor.enc({1: -7, 1000 + q: q}), {"l%d" % q: q}, b"x", b"y"]))))
                elif what == "key":
                    r = vis(self.inc.keys.CoseKey.decode(cbor.enc({1: 4, -1: b"%016d" % q, 2: b"%d" % q, 1000 + q: 1})))
                elif what == "hash":
                    r = self.inc.algorithms.CoseAlgorithm.from_id(-16).compute_hash(b"%d" % q)
                elif what == "fail":
                    r = vis(self.inc.messages.CoseMessage.decode(JUNK[q % len(JUNK)]))
                else:
                    r = self.open_wire(self.plan["pool"][st["w"]], self.wires[st["w"]], q, self.key)
            except Exception as e:
                r = type(e).__name__
            acc.append(r)
        return acc


    def cycle(self, st):
        """Keys of one type come and go, each used once; the same key must do the same thing every time."""
        t = self.plan["keys"][st["k"] % len(self.plan["keys"])]["t"]
        ks = [i for i, d in enumerate(self.plan["keys"]) if d["t"] == t][-4:]
        first = {}
        n = min(st["n"], 60) if t == "sym" else min(st["n"], 6)
        for q in range(n):
            i = ks[q % len(ks)]
            seams.S.entropy = seams.Stream(self.plan["seed"], "cycle")
            o = ("cycle", 0)
            self.env[(st["s"], o)] = self.load(i)
            r = self.op_kuse({"s": st["s"], "o": o, "a": st["k"]})
            del self.env[(st["s"], o)]
            if first.setdefault(i, r) != r:
                self.ctx.violate("depends-on-past", "key %d (%s), loaded, used and dropped in turn with %d others: %s the first time, %s in round %d" % (i, t, len(ks) - 1, short(first[i]), short(r), q))
        return sorted(first.items())


class Missing(Exception):
    """The step's object does not exist (any more)."""


class Quiet:
    """The fresh process's failures are the same ones; count them once."""

    def __init__(self, ctx):
        self._c = ctx

    def fault(self, *a):
        pass

    def __getattr__(self, a):
        return getattr(self._c, a)

    def __setattr__(self, a, v):
        if a == "_c":
            object.__setattr__(self, a, v)
        else:
            setattr(self._c, a, v)


# ------------------------------------------------------------------ run

def run(plan, ctx):
    chk = Check(plan, ctx)
    steps = plan["steps"]
    pos, idx = {}, []
    for st in steps:
        pos[st["s"]] = pos.get(st["s"], -1) + 1
        idx.append(pos[st["s"]])
    try:
        p = Process(plan, ctx, chk, "used")
    except Exception as e:
        ctx.violate("setup", "keys, header maps and messages of an independent peer could not be loaded one after another: %r" % e)
    desk = p.desk()
    syms = {k["k"] for k in plan["keys"] if k["t"] == "sym"}
    if any(a != b and (a[2:] == b[2:] or a[:-2] == b[:-2]) for a in syms for b in syms):
        ctx.probe("twin_key")
    if any(a is not b and a["kind"] == b["kind"] and a["alg"] == b["alg"] and a["p"] == b["p"] for a in plan["pool"] for b in plan["pool"]):
        ctx.probe("twin_message")
    seen = {}
    got = {}
    failed = None
    lastop = {}
    for n, st in enumerate(steps):
        ctx.now += 1000
        r = p.do(st, idx[n])
        if isinstance(p.err, Missing):
            r = ("none",)
        got[n] = r
        ctx.log(n, st["s"], st["op"], r[0] if r[0] != "error" else r, short(r))
        if st.get("fault") and p.fired:
            ctx.probe("script_fault")
        d = p.desk()
        for (w, a), (_, b) in zip(desk, d):
            if a != b:
                at = [q for q, (x, y) in enumerate(zip(a, b)) if x != y]
                ctx.violate("caller-changed", "step %d (%s, %s) changed the caller's %s %s:\n%s\n%s" % (n, describe(plan, st), r[0], w, at, short([a[q] for q in at], 300), short([b[q] for q in at], 300)))
        now = {k: vis(x) for k, x in p.env.items()}
        for k, x in now.items():
            if k not in p.touched and k in seen and seen[k] != x:
                ctx.violate("other-changed", "step %d (%s, script %d) changed object %d of script %d:\n%s\n%s" % (n, describe(plan, st), st["s"], k[1], k[0], short(seen[k], 400), short(x, 400)))
        seen = now
        note(plan, ctx, st, r, failed, lastop)
        if r[0] == "error":
            failed = (failed or set()) | {st["s"]}
        lastop[st["s"]] = (st["op"], r[0])
    # each script alone in a process started for it
    for s in sorted({st["s"] for st in steps}):
        if s < 0:
            continue
        q = Process(plan, ctx, chk, "fresh")
        for n, st in enumerate(steps):
            if st["s"] != s:
                continue
            r = q.do(st, idx[n])
            if isinstance(q.err, Missing):
                r = ("none",)
            if r != got[n]:
                ctx.violate("history-shows", "step %d (%s, script %d): %s in a process that did other things before, %s in a fresh one" % (
                    n, describe(plan, st), s, short(got[n], 500), short(r, 500)))
            ctx.probe("used_then_fresh")


def describe(plan, st):
    sp = plan["tmpl"][st["t"]] if "t" in st else plan["pool"][st["w"]] if "w" in st else None
    d = " ".join("%s=%s" % (k, v) for k, v in st.items() if k in ("how", "f", "b", "led", "cls", "what", "bad", "lab"))
    return ("%s %s" % (st["op"], d) + (" of a %s message, alg %s %s" % (sp["kind"], sp["alg"], [r["alg"] for r in sp.get("recipients", [])]) if sp else "")).strip()


def short(r, n=160):
    s = repr(r)
    return s if len(s) < n else s[:n // 2] + " ... " + s[-n // 2:]


def note(plan, ctx, st, r, failed, lastop):
    if failed and failed - {st["s"]}:
        ctx.probe("after_failure")
    if st["op"] in ("mnew", "bulk", "mfrom"):
        ctx.probe("shared_headers")
    if st["op"] == "menc" and r[0] == "ok" and ("medit", "ok") == lastop.get(st["s"]):
        ctx.probe("edited_then_encoded")
    if r[0] == "error":
        ctx.fault("failed_operation")
    for s, x in lastop.items():
        if s != st["s"]:
            ctx.state(x, st["op"], r[0], st.get("how") or st.get("what"), plan["tmpl"][st["t"]]["kind"] if "t" in st else plan["pool"][st["w"]]["kind"] if "w" in st else None)


def reduce(plan):
    for s in sorted({st["s"] for st in plan["steps"]}):
        q = [st for st in plan["steps"] if st["s"] != s]
        if q and len(q) < len(plan["steps"]):
            yield {**plan, "steps": q}
    for si, st in enumerate(plan["steps"]):
        for k in ("fault", "keep", "led"):
            if st.get(k) is not None:
                q = list(plan["steps"])
                q[si] = {**st, k: None}
                yield {**plan, "steps": q}
        if st["op"] == "bulk" and st["n"] > 1:
            q = list(plan["steps"])
            q[si] = {**st, "n": st["n"] // 2}
            yield {**plan, "steps": q}
    for b in ("tmpl", "pool"):
        for i, sp in enumerate(plan[b]):
            for f in ("p", "u"):
                if sp[f]:
                    l = list(plan[b])
                    l[i] = {**sp, f: []}
                    yield {**plan, b: l}
