"""Stored keys come back exactly, or not at all."""
from cryptography.hazmat.primitives.asymmetric import ec

from .. import cbor, faults, msgs, ref, seams
from ..loader import Incarnation
from ..msgs import gen_bytes, gen_value, lib
from ..plain import canon, j, u

ID = "C08"
RULE = ("A run is a seeded history of two processes that create, edit, store and reload keys on a shared disk, with failed edits, "
        "serialiser and memory failures, process crashes, and writes that are cut short, lost or leave a stale tail. A dictionary "
        "is the reference model of each key. Non-trivial: at least one store or edit and one fault; distinct: by the hash of the event log.")
RUNS = {"quick": 5000, "thorough": 60000}
STATE_MEASURE = "distinct (key type, set of parameters present, last operation, outcome) tuples"
ASSUMPTIONS = ["a write that fails leaves a prefix of the new content, the old content, or the new content followed by the rest of the old"]
MUST_REACH = {"quick": ("torn_write", "lost_write", "stale_tail", "process_crash", "failed_edit", "prefix_scan", "interop", "reload")}
REAL = ["pycose (all of it, one fresh import per simulated process)", "cbor2", "cryptography/OpenSSL", "ecdsa"]
STUB = ["disk (in-memory store with torn, lost and overlapping writes)", "process crash (fresh import)", "entropy (seeded streams)"]

COMMON = {1: "KTY", 2: "KID", 3: "ALG", 4: "KEY_OPS", 5: "BASE_IV"}
OWN = {"sym": {-1: "K"}, "ec2": {-1: "CURVE", -2: "X", -3: "Y", -4: "D"}, "okp": {-1: "CURVE", -2: "X", -4: "D"},
       "rsa": {-1: "N", -2: "E", -3: "D", -4: "P", -5: "Q", -6: "DP", -7: "DQ", -8: "QINV", -9: "OTHER", -10: "R_I", -11: "D_I", -12: "T_I"}}
KTY = {"okp": 1, "ec2": 2, "rsa": 3, "sym": 4}
KTYN = {1: "OKP", 2: "EC2", 3: "RSA", 4: "SYMMETRIC"}
OPN = {1: "SIGN", 2: "VERIFY", 3: "ENCRYPT", 4: "DECRYPT", 5: "WRAP", 6: "UNWRAP", 7: "DERIVE_KEY", 8: "DERIVE_BITS", 9: "MAC_CREATE",
       10: "MAC_VERIFY"}
SUP = {"sym": (3, 4, 5, 6, 9, 10), "ec2": (1, 2, 7, 8), "okp": (1, 2, 7, 8), "rsa": (1, 2, 7, 8)}
CRVN = {1: "P_256", 2: "P_384", 3: "P_521", 4: "X25519", 5: "X448", 6: "ED25519", 7: "ED448", 8: "SECP256K1"}
CRVS = {"ec2": (1, 2, 3, 8), "okp": (4, 5, 6, 7)}
DLEN = {1: 32, 2: 48, 3: 66, 8: 32, 4: 32, 5: 56, 6: 32, 7: 57}
UNKNOWN = [6, 77, 1000, -70000, -65537, "subject_name", "Subject_Name", "my param", "\u00e9t\u00e9", ""]
MORE = [23, 24, 255, 256, 65535, 65536, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, -24, -25, -256, -257, -65536, -2 ** 31, -2 ** 32,
        -2 ** 63, -2 ** 63 - 1, -2 ** 64, "_", "_owner", "__class__", ".hidden", "-1", "0", "77", "x" * 23, "x" * 24, "y" * 300, " kid", "kid ", "a.b", "a/b",
        "owner@example.org", "\u0000", "\ud7ff", "\U0001f511", "e\u0301", "\u00e9", "store", "get", "self", "null", "subjectname"]


def labels(rng):
    """The private parameters in use in one history."""
    return rng.sample(UNKNOWN, 5) + rng.sample(MORE, 5)
ATTRS = {"sym": {"k": -1}, "ec2": {"crv": -1, "x": -2, "y": -3, "d": -4}, "okp": {"crv": -1, "x": -2, "d": -4},
         "rsa": {"n": -1, "e": -2, "d": -3, "p": -4, "q": -5, "dp": -6, "dq": -7, "qinv": -8}}
CATTRS = {"kid": 2, "alg": 3, "key_ops": 4, "base_iv": 5, "kty": 1}
CLS = {"sym": "SymmetricKey", "ec2": "EC2Key", "okp": "OKPKey", "rsa": "RSAKey"}


# ------------------------------------------------------------------ generation

def pub(t, crv, d):
    return ref.ec_pub(crv, d) if t == "ec2" else (ref.okp_pub(crv, d),)


def gen_map(rng):
    t = rng.choice(["sym", "sym", "ec2", "ec2", "ec2", "okp", "okp", "rsa"])
    m = {1: KTY[t]}
    if t == "sym":
        m[-1] = rng.randbytes(rng.choice([16, 24, 32]))
    elif t == "rsa":
        full = ref.key_map({"t": "rsa", "i": rng.randrange(4)}, True)
        what = rng.choice(["pub", "priv", "priv", "multi"])
        m.update({k: v for k, v in full.items() if what != "pub" or k in (-1, -2)})
        if rng.random() < .2:
            lab = rng.choice([k for k in m if k < 0])
            m[lab] = b"\0" + m[lab]                     # a length other peers may use: the bytes are to be kept
        if what == "multi":
            m[-9] = [{-10: rng.randbytes(9), -11: rng.randbytes(9), -12: rng.randbytes(9)} for _ in range(rng.choice([1, 2]))]
            for k in (-10, -11, -12):
                m[k] = rng.randbytes(9)
    else:
        crv = rng.choice(CRVS[t])
        m[-1] = crv
        d = gen_d(rng, t, crv)
        what = rng.choice(["both", "both", "pub", "d"] + (["x"] if t == "ec2" else []))
        if what in ("both", "d"):
            m[-4] = d
        if what != "d":
            for lab, v in zip((-2, -3), pub(t, crv, d)):
                m[lab] = v
        if what == "x":
            del m[-3]
    if rng.random() < .5:
        m[2] = gen_bytes(rng, rng.choice([0, 1, 4, 23, 24, 40]))
    if rng.random() < .3:
        m[3] = rng.choice(list(ref.NAMES))
    if rng.random() < .35:
        m[4] = rng.sample(range(1, 11), rng.choice([0, 1, 1, 2, 3, 10]))
    if rng.random() < .2:
        m[5] = gen_bytes(rng, rng.choice([0, 7, 12, 13]))
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        m[rng.choice(UNKNOWN)] = gen_value(rng)
    return t, m


def gen_d(rng, t, crv):
    if t == "okp":
        return rng.randbytes(DLEN[crv])
    n = ref._ORDER[ref.CURVES[crv].name]
    d = int.from_bytes(rng.randbytes(DLEN[crv]), "big") % (n - 1) + 1
    if rng.random() < .15:
        d = (d >> rng.choice([8, 16])) or 1
    return d.to_bytes(DLEN[crv], "big")


def form(rng):
    return rng.choice(["cls", "cls", "id", "name", "lower"])


def gen_edit(rng, t):
    x = rng.random()
    if x < .28:
        lab = rng.choice(list(OWN[t]) + [2, 3, 4, 5, 2, 3, 4] + [rng.choice(UNKNOWN)] * 3)
        e = {"e": "set", "lab": j(lab), "form": form(rng), "vform": form(rng), "v": j(gen_val(rng, t, lab))}
    elif x < .36:
        e = {"e": "attr", "name": rng.choice(list(ATTRS[t]) + list(CATTRS)), "vform": form(rng)}
        lab = {**ATTRS[t], **CATTRS}[e["name"]]
        e["v"] = j(gen_val(rng, t, lab, attr=True))
    elif x < .52:
        e = {"e": "badattr", "name": rng.choice(list(ATTRS[t]) + list(CATTRS)), "how": rng.randrange(6)}
    elif x < .56:
        e = {"e": "badset", "lab": rng.choice([3, 4, 4]), "form": form(rng), "how": rng.randrange(3)}
    elif x < .78:
        e = {"e": rng.choice(["del", "del", "del", "pop", "popd"]), "lab": j(rng.choice(list(OWN[t]) + [1, 2, 3, 4, 5] + UNKNOWN)), "form": form(rng)}
    elif x < .84:
        lab = rng.choice([2, 5] + UNKNOWN)
        e = {"e": "setdefault", "lab": j(lab), "form": form(rng), "vform": "id", "v": j(gen_val(rng, t, lab))}
    elif x < .95:
        items = []
        for _ in range(rng.choice([1, 2, 3])):
            lab = rng.choice([2, 3, 4, 5] + UNKNOWN)
            items.append([j(lab), form(rng), form(rng), j(gen_val(rng, t, lab))])
        e = {"e": "update", "items": items}
    else:
        e = {"e": "newmat", "seed": rng.randrange(1 << 30)}
    return e


def gen_val(rng, t, lab, attr=False):
    if lab == 1:
        return KTY[t]
    if lab in (2, 5):
        return gen_bytes(rng, rng.choice([0, 1, 7, 12, 13, 24]))
    if lab == 3:
        return rng.choice(list(ref.NAMES))
    if lab == 4:
        pool = SUP[t] if attr else range(1, 11)
        return rng.sample(list(pool), rng.choice([0, 1, 1, 2, 3])) if rng.random() < .8 else rng.choices(list(pool), k=3)
    if lab in OWN[t]:
        if lab == -1 and t in CRVS:
            return rng.choice(CRVS[t])
        if lab == -1 and t == "sym":
            return rng.randbytes(rng.choice([16, 24, 32]))
        if lab == -9 and t == "rsa":
            return [{-10: rng.randbytes(3)}]
        return rng.randbytes(rng.choice([32, 48, 66, 57]))
    return gen_value(rng)


def gen(rng, i, tier):
    global UNKNOWN
    full, UNKNOWN = UNKNOWN, labels(rng)
    try:
        return gen_history(rng)
    finally:
        UNKNOWN = full


def gen_history(rng):
    steps = []
    objs = {}
    n = rng.randint(5, 22)
    for _ in range(n):
        x = rng.random()
        if x < .16 or not objs:
            o = rng.randrange(4)
            t, m = gen_map(rng)
            objs[o] = t
            via = rng.choice(["ctor", "dict", "dict", "bytes", "bytes", "gen"])
            steps.append({"op": "new", "o": o, "p": rng.randrange(2), "t": t, "m": j(m), "via": via, "form": form(rng), "vform": form(rng),
                          "enc": [rng.choice([0, 0, 1, 2]), rng.random() < .2], "alg_t": rng.random() < .2})
            continue
        o = rng.choice(list(objs))
        if x < .5:
            steps.append({"op": "edit", "o": o, "edit": gen_edit(rng, objs[o])})
        elif x < .68:
            st = {"op": "save", "o": o, "f": rng.randrange(3)}
            y = rng.random()
            if y < .3:
                st["w"] = ["cut", rng.randrange(1000)]
            elif y < .38:
                st["w"] = ["lost"]
            elif y < .5:
                st["w"] = ["tail"]
            elif y < .6:
                st["fault"] = faults.gen(rng, 2)
            steps.append(st)
        elif x < .83:
            o2 = rng.randrange(4)
            objs.setdefault(o2, rng.choice(list(OWN)))
            st = {"op": "load", "f": rng.randrange(3), "o": o2, "p": rng.randrange(2)}
            if rng.random() < .15:
                st["fault"] = faults.gen(rng, 3)
            steps.append(st)
        elif x < .88:
            steps.append({"op": "scan", "o": o})
        elif x < .93:
            steps.append({"op": "crash", "p": rng.randrange(2)})
        else:
            steps.append({"op": "use", "o": o, "v": rng.randbytes(8).hex()})
    for o in list(objs)[:2]:
        steps.append({"op": "save", "o": o, "f": o})
        steps.append({"op": "load", "f": o, "o": o, "p": 1})
        steps.append({"op": "use", "o": o, "v": "00"})
    return {"steps": steps}


# ------------------------------------------------------------------ model

def tof(m):
    return {v: k for k, v in KTY.items()}.get(m.get(1))


def after_load(m):
    """(must_load, expected map, labels not compared) for the encoded form of map m."""
    t = tof(m)
    e = {k: v for k, v in m.items() if not (k == 4 and v == [])}
    if t is None:
        return False, e, ()
    if not isinstance(m.get(2, b""), bytes) or not isinstance(m.get(5, b""), bytes):
        return False, e, ()
    if 3 in m and m[3] not in ref.NAMES:
        return False, e, ()
    if any(not isinstance(m.get(k, b""), bytes) for k in OWN[t] if not (k == -1 and t in CRVS) and k != -9):
        return False, e, ()
    if t == "sym":
        return isinstance(m.get(-1), bytes) and len(m[-1]) in (16, 24, 32), e, ()
    if t == "rsa":
        got = {k for k in OWN["rsa"] if m.get(k) not in (None, b"", [])}
        if any(k in m and k not in got for k in OWN["rsa"]):
            return False, e, ()
        full = set(range(-8, 0))
        return got in ({-1, -2}, full, set(OWN["rsa"])), e, ()
    if m.get(-1) not in CRVS[t]:
        return False, e, ()
    x, y, d = m.get(-2), m.get(-3), m.get(-4)
    if any(v == b"" for v in (x, d) + ((y,) if t == "ec2" else ())):
        return False, e, ()
    if t == "okp":
        return x is not None or d is not None, e, ()
    if d is not None:
        if not 0 < int.from_bytes(d, "big") < ref._ORDER[ref.CURVES[m[-1]].name]:
            return False, e, (-2, -3)
        px, py = ref.ec_pub(m[-1], d)
        e[-2], e[-3] = e.get(-2, px), e.get(-3, py)
        return e[-2] == px and e[-3] == py, e, ()
    if x is None:
        return False, e, ()
    if y is None:
        try:
            ec.EllipticCurvePublicKey.from_encoded_point(ref.CURVES[m[-1]], b"\x02" + x)
            return True, e, (-3,)
        except ValueError:
            return False, e, (-3,)
    return True, e, ()


def deletion(t, m, lab):
    """-> ('ok', labels removed) | ('refused',) | ('missing',) | ('any', labels)."""
    if t != "rsa" and (lab == 1 or (lab == -1 and t in ("sym", "ec2", "okp"))):
        return ("refused",)
    if lab not in m:
        return ("missing",)
    if t == "rsa":
        return ("any", [lab]) if lab in (1,) or lab in OWN[t] else ("ok", [lab])
    if t == "ec2":
        if lab == -4 and (-2 not in m or -3 not in m):
            return ("refused",)
        if lab in (-2, -3) and -4 in m:
            return ("ok", [k for k in (-2, -3) if k in m])
        if lab == -2:
            return ("refused",)
        if lab == -3:
            return ("ok", [-3])
    if t == "okp":
        if (lab == -4 and -2 not in m) or (lab == -2 and -4 not in m):
            return ("refused",)
    return ("ok", [lab])


# ------------------------------------------------------------------ the simulation

class Sim:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.procs = [Incarnation(), Incarnation()]
        self.obj = {}           # o -> [proc, key object, model map, type]
        self.disk = {}          # f -> (bytes, complete model map or None, tail?)

    # ------------------------------ spelling
    def label(self, inc, t, lab, how):
        reg = {**COMMON, **OWN[t]}
        if lab not in reg or how == "id":
            return lab
        if how == "cls":
            base = {"sym": inc.keyparam.SymmetricKeyParam, "ec2": inc.keyparam.EC2KeyParam, "okp": inc.keyparam.OKPKeyParam,
                    "rsa": inc.keyparam.RSAKeyParam}[t]
            return base.get_registered_classes()[lab]
        return reg[lab] if how == "name" else reg[lab].lower()

    def value(self, inc, t, lab, v, how):
        def one(base, names, x):
            if how == "id" or x not in names:
                return x
            if how == "cls":
                return base.from_id(x)
            return names[x] if how == "name" else names[x].lower()
        if lab == 1:
            return one(inc.mods["pycose.keys.keytype"].KTY, KTYN, v)
        if lab == 3:
            return one(inc.algorithms.CoseAlgorithm, ref.NAMES, v)
        if lab == 4 and isinstance(v, list):
            return [one(inc.keyops.KeyOps, OPN, x) for x in v]
        if lab == -1 and t in CRVS:
            return one(inc.curves.CoseCurve, CRVN, v)
        return v

    def spell(self, inc, t, m, f, vf):
        """A dictionary as from_dict() documents it: names of a key's own parameters and of its type in their registered case."""
        return {self.label(inc, t, k, f if f != "lower" or k not in OWN[t] and k != 1 else "name"):
                self.value(inc, t, k, v, vf if vf != "lower" or k != 1 else "name") for k, v in m.items()}

    # ------------------------------ observation
    def see(self, o, why):
        p, k, m, t = self.obj[o]
        inc = self.procs[p].activate()
        ctx = self.ctx
        try:
            got = msgs.plain_val(dict(k))
            n = len(k)
        except Exception as e:
            ctx.violate("edit", "%s key cannot be read as a dictionary after %s: %r" % (t, why, e))
            return
        if canon(got) != canon(m) or n != len(m):
            ctx.violate("edit", "after %s the %s key is %s, should be %s" % (why, t, brief(got, m), brief(m, got)))
        for lab in list({**COMMON, **OWN[t]}) + [k2 for k2 in m if k2 not in COMMON and k2 not in OWN[t]] + [UNKNOWN[0]]:
            for f in ("cls", "id", "name", "lower"):
                a = self.label(inc, t, lab, f)
                try:
                    here = a in k
                    val = k[a] if here else None
                    if not here:
                        try:
                            k[a]
                            here = "readable but not contained"
                        except KeyError:
                            pass
                except Exception as e:
                    ctx.violate("alias", "reading %r of a %s key: %r" % (a, t, e))
                    return
                if here != (lab in m) or (here and canon(msgs.plain_val(val)) != canon(m[lab])):
                    ctx.violate("alias", "%s key: parameter %s by %s: present=%s, value %r; should be %r" % (
                        t, lab, f, here, val, m.get(lab, "absent")))
        for name, lab in {**ATTRS[t], **CATTRS}.items():
            if lab == -1 and lab not in m and t != "rsa":
                continue
            try:
                val = msgs.plain_val(getattr(k, name))
            except Exception as e:
                ctx.violate("alias", "reading .%s of a %s key: %r" % (name, t, e))
                return
            want = m.get(lab, [] if lab == 4 else None if lab in (1, 3) else b"")
            if canon(val) != canon(want):
                ctx.violate("alias", "%s key: .%s is %r, should be %r" % (t, name, val, want))

    def go(self):
        for n, st in enumerate(self.plan["steps"]):
            getattr(self, "do_" + st["op"])(st)
            for o in sorted(self.obj):
                self.see(o, "step %d (%s)" % (n, st["op"] + (" " + st["edit"]["e"] if "edit" in st else "")))
            if "o" in st and st["o"] in self.obj:
                _, _, m, t = self.obj[st["o"]]
                self.ctx.state(t, sorted(map(str, m)), st["op"], st.get("edit", {}).get("e"))

    # ------------------------------ steps
    def do_new(self, st):
        ctx, t, m = self.ctx, st["t"], u(st["m"])
        inc = self.procs[st["p"]].activate()
        K = inc.keys
        via = st["via"]
        f, vf = st["form"], st["vform"]
        if via in ("ctor", "gen"):
            opt = {k: v for k, v in m.items() if k not in OWN[t] and k != 1}
            mat = {k: v for k, v in m.items() if k in OWN[t]}
            opt = self.spell(inc, t, opt, f, vf)
            crv = self.value(inc, t, -1, mat.get(-1), vf)
        if via == "gen":
            if t == "rsa":
                via = "dict"
            elif t == "sym":
                r = lib(ctx, K.SymmetricKey.generate_key, len(m[-1]), opt)
            else:
                r = lib(ctx, getattr(K, CLS[t]).generate_key, crv, opt)
            if via == "gen" and r.ok:
                raw = msgs.plain_val(dict(r.val))
                m = {k: v for k, v in m.items() if k not in OWN[t] and not (k == 4 and not v)}
                m.update({k: raw.get(k) for k in ((-1,) if t == "sym" else (-1, -2, -4) if t == "okp" else (-1, -2, -3, -4))})
                if t != "sym" and (m[-2],) + ((m[-3],) if t == "ec2" else ()) != pub(t, m[-1], m[-4]):
                    ctx.violate("generate", "generated %s key has a public part that does not belong to its private part" % t)
                self.put(st, r, m, t)
                return
        if via == "ctor":
            if t == "sym":
                r = lib(ctx, K.SymmetricKey, mat[-1], opt)
            elif t == "rsa":
                r = lib(ctx, lambda: K.RSAKey(**{OWN[t][k].lower(): v for k, v in mat.items()}, optional_params=opt))
            else:
                a = {{-2: "x", -3: "y", -4: "d"}[k]: v for k, v in mat.items() if k != -1}
                r = lib(ctx, lambda: getattr(K, CLS[t])(crv, optional_params=opt, **a))
        elif via == "dict":
            r = lib(ctx, K.CoseKey.from_dict, self.spell(inc, t, m, f, vf))
        elif via == "bytes":
            mm = dict(m)
            if st["alg_t"] and 3 in mm:
                mm[3] = ref.NAMES[mm[3]]
            if st["alg_t"] and t == "ec2" and -2 in mm and -3 in mm:
                mm[-3] = bool(mm[-3][-1] & 1)       # another implementation's compressed point
            r = lib(ctx, K.CoseKey.decode, cbor.enc(mm, *st["enc"]))
        must, want, skip = after_load(m)
        if not r.ok:
            ctx.violate("create", "a valid %s key with parameters %s cannot be made from %s: %r" % (t, sorted(map(str, m)), via, r.exc))
            return
        self.adopt(st, r, want, skip, t, "made from " + via)

    def adopt(self, st, r, want, skip, t, what):
        got = msgs.plain_val(dict(r.val))
        if type(r.val).__name__ != CLS[t]:
            self.ctx.violate("reload", "a %s key %s is a %s" % (t, what, type(r.val).__name__))
        want = dict(want)
        for lab in skip:
            if lab in got:
                want[lab] = got[lab]
        if skip == (-3,) and t == "ec2":
            try:
                ec.EllipticCurvePublicNumbers(int.from_bytes(got[-2], "big"), int.from_bytes(got[-3], "big"), ref.CURVES[got[-1]]).public_key()
            except (ValueError, KeyError, TypeError):
                self.ctx.violate("reload", "a public key %s from its x coordinate is not on the curve" % what)
        if canon(got) != canon(want):
            self.ctx.violate("reload", "a %s key %s comes back as %s, should be %s" % (t, what, brief(got, want), brief(want, got)))
        self.put(st, r, want, t)

    def put(self, st, r, m, t):
        self.obj[st["o"]] = [st["p"], r.val, m, t]
        self.ctx.log("key", st["o"], st["p"], t, canon(m) if st.get("via") != "gen" else sorted(map(str, m)))
        self.ctx.ops += 1

    def do_edit(self, st):
        if st["o"] not in self.obj:
            return
        p, k, m, t = ent = self.obj[st["o"]]
        inc = self.procs[p].activate()
        ctx, e = self.ctx, st["edit"]
        kind = e["e"]
        new = None
        ctx.ops += 1
        if kind == "newmat":
            # re-key in place: consistent new key material
            import random
            rng = random.Random(e["seed"])
            new = dict(m)
            if t == "sym":
                new[-1] = rng.randbytes(32)
            elif t in CRVS:
                if new.get(-1) not in CRVS[t]:
                    return
                d = gen_d(rng, t, new[-1])
                for lab, v in zip((-2, -3, -4), pub(t, new[-1], d) + ((d,) if t == "ec2" else (None, d))):
                    if v is not None:
                        new[lab] = v
            else:
                return
            ed = {lab: v for lab, v in new.items() if lab in OWN[t] and lab != -1 or (t == "sym" and lab == -1)}
            r = lib(ctx, k.update, {self.label(inc, t, lab, "cls"): v for lab, v in ed.items()})
            self.settle(ent, r, [new], kind)
            return
        if kind in ("set", "setdefault", "update"):
            if kind == "update":
                items = [[u(a), f, vf, u(v)] for a, f, vf, v in e["items"]]
            else:
                items = [[u(e["lab"]), e["form"], e["vform"], u(e["v"])]]
            # an edit planned for another key type makes no sense here
            if any(a not in COMMON and a not in OWN[t] and isinstance(a, int) and -12 <= a < 0 for a, _, _, _ in items) or \
                    any(a == -1 and (isinstance(v, int) != (t in CRVS) or (t in CRVS and v not in CRVS[t])) for a, _, _, v in items) or \
                    any(a in OWN[t] and a != -1 and a != -9 and not isinstance(v, bytes) for a, _, _, v in items) or \
                    any(a == 1 for a, _, _, v in items) or \
                    any(a == -1 and t == "sym" and len(v) not in (16, 24, 32) for a, _, _, v in items):
                return
            new = dict(m)
            d = {}
            for a, f, vf, v in items:
                lv = self.value(inc, t, a, v, vf)
                d[self.label(inc, t, a, f)] = lv
            if kind == "update":
                # two spellings of one entry: the later one wins
                for a, f, vf, v in items:
                    pass
                eff = {}
                for a, f, vf, v in items:
                    lab = self.label(inc, t, a, f)
                    eff[lab] = (a, v)
                for a, v in eff.values():
                    new[a] = v
                r = lib(ctx, k.update, d)
            elif kind == "set":
                new[items[0][0]] = items[0][3]
                (lab, lv), = d.items()
                r = lib(ctx, k.__setitem__, lab, lv)
            else:
                (lab, lv), = d.items()
                new.setdefault(items[0][0], items[0][3])
                r = lib(ctx, k.setdefault, lab, lv)
                if r.ok and canon(msgs.plain_val(r.val)) != canon(new[items[0][0]]):
                    ctx.violate("edit", "setdefault of %r on a %s key returned %r" % (lab, t, r.val))
            self.settle(ent, r, [new], kind + " " + str([a for a, _, _, _ in items]))
            return
        if kind == "attr":
            lab = {**ATTRS[t], **CATTRS}.get(e["name"])
            v = u(e["v"])
            if lab is None or (lab in OWN[t] and (lab == -1 and t in CRVS) != isinstance(v, int)) or (lab == -1 and t in CRVS and v not in CRVS[t]) \
                    or (lab == -1 and t == "sym" and len(v) not in (16, 24, 32)) or (lab == 4 and any(x not in SUP[t] for x in v)):
                return
            if lab == 1:
                v = KTY[t]
            new = {**m, lab: v}
            r = lib(ctx, setattr, k, e["name"], self.value(inc, t, lab, v, e["vform"] if lab != 4 or e["vform"] != "lower" else "name"))
            self.settle(ent, r, [new], "setting ." + e["name"])
            return
        if kind == "badattr":
            lab = {**ATTRS[t], **CATTRS}.get(e["name"])
            if lab is None:
                return
            h = e["how"]
            if lab == 4:
                bad = [inc.keyops.SignOp if t == "sym" else inc.keyops.EncryptOp, 99, "NO SUCH OP"][h % 3]
                good = inc.keyops.EncryptOp if t == "sym" else inc.keyops.SignOp
                bad = [[bad], [good, bad], [good, good, bad], [bad, good], {good: bad}, [None]][h]
            elif lab == 3:
                bad = [9999, "NO SUCH ALG", None, b"x", 0.5, []][h]
                if bad == []:
                    return
            elif lab == 1:
                bad = [9999, "NO SUCH KTY", None, b"x", 0.5, -1][h]
            elif lab == -1 and t in CRVS:
                bad = [CRVS["okp" if t == "ec2" else "ec2"][0], 0, "NO SUCH CURVE", None, b"x", 77][h]
            elif lab == -1 and t == "sym":
                bad = [b"", b"x" * 15, "0" * 16, None, bytearray(16), b"x" * 33][h]
            else:
                bad = ["text", 5, None, bytearray(b"x"), [b"x"], 0.5][h]
            r = lib(ctx, setattr, k, e["name"], bad)
            if r.ok:
                ctx.violate("edit", "%s key: setting .%s to %r was accepted" % (t, e["name"], bad))
            self.settle(ent, r, [m], "setting .%s to %r" % (e["name"], bad), fail=True)
            return
        if kind == "badset":
            lab = e["lab"]
            bad = [9999, "NO SUCH ALG", None][e["how"]] if lab == 3 else [[99], ["NO SUCH OP"], [1, None]][e["how"]]
            r = lib(ctx, k.__setitem__, self.label(inc, t, lab, e["form"]), bad)
            self.settle(ent, r, [{**m, lab: bad}], "item assignment of %r" % (bad,), may_fail=True)
            return
        lab = u(e["lab"])
        if lab not in COMMON and lab not in OWN[t] and isinstance(lab, int) and -12 <= lab < 0:
            return
        exp = deletion(t, m, lab)
        name = self.label(inc, t, lab, e["form"])
        if kind == "del":
            r = lib(ctx, k.__delitem__, name)
        else:
            r = lib(ctx, k.pop, name, *(["dflt"] if kind == "popd" else []))
        if exp[0] == "missing":
            if kind == "popd":
                if not r.ok or r.val != "dflt":
                    ctx.violate("edit", "%s key: pop of the missing %r with a default: %r" % (t, name, r.exc or r.val))
                self.settle(ent, r, [m], "pop of a missing parameter")
            else:
                if r.ok:
                    ctx.violate("edit", "%s key: deleting the missing %r succeeded" % (t, name))
                self.settle(ent, r, [m], "deleting a missing parameter", fail=True)
            return
        if exp[0] == "refused":
            if r.ok and not (kind == "popd" and lab not in m):
                ctx.violate("edit", "%s key: deleting %r was accepted and leaves a key that cannot be stored" % (t, name))
            self.settle(ent, r, [m], "refused deletion of %r" % (name,), fail=True)
            return
        new = {a: b for a, b in m.items() if a not in exp[1]}
        if kind != "del" and r.ok and canon(msgs.plain_val(r.val)) != canon(m[lab]):
            ctx.violate("edit", "%s key: pop of %r returned %r" % (t, name, r.val))
        self.settle(ent, r, [new], "%s %r" % (kind, name), may_fail=exp[0] == "any")

    def settle(self, ent, r, allowed, what, fail=False, may_fail=False):
        """After an edit: failed -> unchanged; succeeded -> the new map. Compared by see() right after."""
        ctx = self.ctx
        t = ent[3]
        ctx.log("edit", t, what.split("<")[0], "ok" if r.ok else type(r.exc).__name__)
        if not r.ok:
            ctx.fault("failed_edit")
            if not fail and not may_fail:
                ctx.violate("edit", "%s key: %s failed: %r" % (t, what, r.exc))
            return
        if not fail:
            ent[2] = allowed[0]

    def encode(self, ent, fault=None):
        p, k, m, t = ent
        self.procs[p].activate()
        r, fired = faults.run(self.ctx, fault, k.encode)
        if not r.ok:
            if not fired:
                self.ctx.violate("store", "a %s key with parameters %s cannot be encoded: %r" % (t, sorted(map(str, m)), r.exc))
            return None
        b = r.val
        try:
            got = cbor.dec(b, strict=True)
        except cbor.CborError as e:
            self.ctx.violate("store", "the encoded %s key is not valid CBOR: %r" % (t, e))
            return None
        if canon({a: v for a, v in got.items() if not (a == 4 and v == [])}) != canon({a: v for a, v in m.items() if not (a == 4 and v == [])}):
            self.ctx.violate("store", "a %s key is stored as %s, should be %s" % (t, brief(got, m), brief(m, got)))
        return b

    def do_save(self, st):
        ent = self.obj.get(st["o"])
        if ent is None:
            return
        ctx = self.ctx
        b = self.encode(ent, st.get("fault"))
        ctx.ops += 1
        if b is None:
            ctx.log("save failed", st["o"])
            return
        w = st.get("w") or ["ok"]
        old = self.disk.get(st["f"], (b"", None, False))
        m = dict(ent[2])
        if w[0] == "cut":
            n = len(b) * w[1] // 1000
            ctx.fault("torn_write")
            self.disk[st["f"]] = (b[:n], None, False)
        elif w[0] == "lost":
            ctx.fault("lost_write")
        elif w[0] == "tail" and len(old[0]) > len(b):
            ctx.fault("stale_tail")
            self.disk[st["f"]] = (b + old[0][len(b):], m, True)
        else:
            self.disk[st["f"]] = (b, m, False)
        ctx.log("save", st["o"], st["f"], w[0], len(b))

    def do_load(self, st):
        ctx = self.ctx
        b, m, tail = self.disk.get(st["f"], (b"", None, False))
        inc = self.procs[st["p"]].activate()
        r, fired = faults.run(ctx, st.get("fault"), inc.keys.CoseKey.decode, b)
        ctx.ops += 1
        ctx.log("load", st["f"], len(b), "ok" if r.ok else type(r.exc).__name__)
        if m is None:
            if r.ok:
                ctx.violate("torn", "a key cut short at byte %d of its encoding loads as %s" % (len(b), msgs.plain_val(dict(r.val))))
            return
        must, want, skip = after_load(m)
        if not r.ok:
            if must and not fired and not tail:
                ctx.violate("reload", "a stored %s key with parameters %s cannot be loaded: %r" % (tof(m), sorted(map(str, m)), r.exc))
            return
        ctx.probe("reload")
        if tof(m) is None:
            ctx.violate("reload", "a key without a key type was loaded")
            return
        self.adopt(st, r, want, skip, tof(m), "stored and loaded")

    def do_scan(self, st):
        ent = self.obj.get(st["o"])
        if ent is None:
            return
        b = self.encode(ent)
        if b is None:
            return
        inc = self.procs[ent[0]].activate()
        for n in range(len(b)):
            r = lib(self.ctx, inc.keys.CoseKey.decode, b[:n])
            if r.ok:
                self.ctx.violate("torn", "a %s key cut short at byte %d of %d loads as %s" % (ent[3], n, len(b), msgs.plain_val(dict(r.val))))
        self.ctx.ops += len(b)
        self.ctx.fault("prefix_scan", len(b))

    def do_crash(self, st):
        p = st["p"]
        self.procs[p] = Incarnation()
        for o in [o for o, e in self.obj.items() if e[0] == p]:
            del self.obj[o]
        self.ctx.fault("process_crash")
        self.ctx.log("crash", p)

    def do_use(self, st):
        ent = self.obj.get(st["o"])
        if ent is None:
            return
        p, k, m, t = ent
        must, want, skip = after_load(m)
        if not must or m.get(4) or m.get(3) is not None:
            return
        inc = self.procs[p].activate()
        H, M = inc.headers, inc.messages
        pay = bytes.fromhex(st["v"])
        ctx = self.ctx
        A = inc.algorithms.CoseAlgorithm.from_id
        if t == "sym":
            b = ref_mac0(m[-1], pay)
            r = lib(ctx, lambda: self.opened(M, b, k).verify_tag())
            if not r.ok or r.val is not True:
                ctx.violate("interop", "a MAC made with another copy of the key is not accepted: %r" % (r.exc or r.val))
            r = lib(ctx, lambda: M.Mac0Message(phdr={H.Algorithm: A(5)}, payload=pay, key=k).encode())
            if not r.ok or not ref.ref_mac_ok(r.val, m[-1], b""):
                ctx.violate("interop", "another copy of the key does not accept a MAC made with this one: %r" % (r.exc,))
            ctx.probe("interop")
            return
        if t == "ec2" and m[-1] in (1, 2, 3):
            alg = {1: -7, 2: -35, 3: -36}[m[-1]]
        elif t == "okp" and m[-1] in (6, 7):
            alg = -8
        elif t == "rsa" and -9 not in m:
            alg = -257
        else:
            return
        signer = -4 in m
        if signer and t == "okp" and len(m[-4]) != DLEN[m[-1]]:
            return
        verifier = -2 in m and (t != "ec2" or -3 in m)
        if t == "okp" and verifier and (len(m[-2]) != DLEN[m[-1]] or (signer and ref.okp_pub(m[-1], m[-4]) != m[-2])):
            return
        if t == "ec2" and verifier:
            try:
                ec.EllipticCurvePublicNumbers(int.from_bytes(m[-2], "big"), int.from_bytes(m[-3], "big"), ref.CURVES[m[-1]]).public_key()
            except ValueError:
                return
        full = dict(m)
        if t == "rsa" and not any(all(m.get(a, x[a]) == x[a] for a in range(-8, 0)) for x in self.rsa_pool()):
            return
        if signer:
            if t == "ec2" and -2 not in full:
                full[-2], full[-3] = ref.ec_pub(m[-1], m[-4])
            if t == "okp" and -2 not in full:
                full[-2] = ref.okp_pub(m[-1], m[-4])
            r = lib(ctx, lambda: M.Sign1Message(phdr={H.Algorithm: A(alg)}, payload=pay, key=k).encode())
            if not r.ok or not ref.ref_verify1(r.val, full, b""):
                ctx.violate("interop", "another copy of the %s key does not accept a signature made with this one: %r" % (t, r.exc))
            ctx.probe("interop")
            if verifier:
                prot = cbor.enc({1: alg})
                b = cbor.enc(cbor.Tag(18, [prot, {}, pay, ref.sign_raw(alg, full, ref.sig_structure("Signature1", prot, None, b"", pay))]))
                r = lib(ctx, lambda: self.opened(M, b, k).verify_signature())
                if not r.ok or r.val is not True:
                    ctx.violate("interop", "a signature made with another copy of the %s key is not accepted: %r" % (t, r.exc or r.val))

    def rsa_pool(self):
        return [ref.key_map({"t": "rsa", "i": i}, True) for i in range(4)]

    def opened(self, M, b, k):
        m = M.CoseMessage.decode(b)
        m.key = k
        return m


def ref_mac0(k, pay):
    prot = cbor.enc({1: 5})
    return cbor.enc(cbor.Tag(17, [prot, {}, pay, ref.mac_raw(5, k, ref.mac_structure("MAC0", prot, b"", pay))]))


def brief(a, b):
    """Entries of a that differ from b."""
    d = {k: v for k, v in a.items() if k not in b or canon(b[k]) != canon(v)}
    s = repr(d)
    return "{.. %s" % (s[1:] if len(s) < 200 else s[1:200] + "...")


def run(plan, ctx):
    s = Sim(plan, ctx)
    s.go()


def reduce(plan):
    for si, st in enumerate(plan["steps"]):
        for k in ("w", "fault"):
            if st.get(k):
                q = list(plan["steps"])
                q[si] = {a: b for a, b in st.items() if a != k}
                yield {**plan, "steps": q}
        if st["op"] == "new" and st["m"].get("m"):
            own = OWN[st["t"]]
            for n, it in enumerate(st["m"]["m"]):
                if it[0] != 1 and it[0] not in own:
                    q = list(plan["steps"])
                    q[si] = {**st, "m": {"m": st["m"]["m"][:n] + st["m"]["m"][n + 1:]}}
                    yield {**plan, "steps": q}
