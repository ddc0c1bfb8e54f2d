"""Keys provisioned as PEM files."""
import functools

from cryptography.hazmat.primitives.asymmetric import ec

from .. import faults, msgs, pem, ref, seams
from ..loader import Incarnation
from ..msgs import gen_bytes, gen_value, lib
from ..plain import canon, j, u
from . import c08
from .c08 import CRVS, DLEN, KTY, OWN, SUP, form, pub

ID = "C16"
RULE = ("A run is a seeded history of provisioning: other tools write keys as PEM files (every key type and curve, private, encrypted and "
        "public, in the encodings the standards allow) to a shared disk whose writes tear, get lost, overlap or decay; two processes "
        "import them, right and wrong passwords and methods mixed, with parser, serialiser and memory failures and process crashes "
        "between, then edit, store, reload and use what they imported. Non-trivial: at least one import and one fault; distinct: by "
        "the hash of the event log.")
RUNS = {"quick": 2000, "thorough": 40000}
STATE_MEASURE = "distinct (key type, curve, file form, damage, method, outcome) tuples"
ASSUMPTIONS = ["what a damaged file denotes is what the PEM/DER parser of the cryptography package makes of it",
               "a write that fails leaves a prefix of the new content, the old content, or the new content followed by the rest of the old"]
MUST_REACH = {"quick": ("torn_write", "lost_write", "stale_tail", "bit_rot", "wrong_password", "wrong_method", "process_crash", "imported",
                        "refused", "unsupported_kind", "interop", "reload", "leading_zero", "same_file_twice")}
REAL = ["pycose (all of it, one fresh import per simulated process)", "cbor2", "cryptography/OpenSSL (PEM and DER parser included)", "ecdsa"]
STUB = ["disk (in-memory store with torn, lost, overlapping and decaying writes)", "process crash (fresh import)", "entropy (seeded streams)",
        "PEM writer (written from the RFCs)"]


@functools.lru_cache(None)
def short_point(crv, which):
    """A private value whose public x (or y) starts with a zero byte, or for other curves ends with one."""
    d = 2
    while True:
        if crv in CRVS["ec2"]:
            b = d.to_bytes(DLEN[crv], "big")
            if ref.ec_pub(crv, b)[which][0] == 0:
                return b
        else:
            b = (d << 3).to_bytes(DLEN[crv], "little")
            if ref.okp_pub(crv, b)[-which] == 0:
                return b
        d += 1


@functools.lru_cache(None)
def rsa_map(i, e, swap, lead):
    """An RSA key over pool primes with another exponent, other order of the primes, a short CRT part."""
    n, _, _, p, q = ref.rsa_ints(i)
    if swap:
        p, q = q, p
    while True:
        try:
            d = pow(e, -1, (p - 1) * (q - 1))
            if not lead or (d % (p - 1)).bit_length() <= (p.bit_length() + 7) // 8 * 8 - 8:
                break
        except ValueError:
            pass
        e += 2
    ib = ref.ib
    return {1: 3, -1: ib(n), -2: ib(e), -3: ib(d), -4: ib(p), -5: ib(q), -6: ib(d % (p - 1)), -7: ib(d % (q - 1)), -8: ib(pow(q, -1, p))}


def key_spec(rng):
    t = rng.choice(["ec2", "ec2", "ec2", "okp", "okp", "rsa"])
    if t == "rsa":
        return {"t": t, "i": rng.randrange(4), "e": rng.choice([3, 17, 257, 65537, 65537, rng.randrange(1 << 33) | 1 | 1 << 32]),
                "swap": rng.randrange(2), "lead": int(rng.random() < .3)}
    crv = rng.choice(CRVS[t])
    s = {"t": t, "crv": crv}
    if rng.random() < .3:
        s["d"] = short_point(crv, rng.randrange(2)).hex()
    else:
        s["d"] = c08.gen_d(rng, t, crv).hex()
    return s


def full_map(s):
    if s["t"] == "rsa":
        return dict(rsa_map(s["i"], s["e"], s["swap"], s["lead"]))
    d = bytes.fromhex(s["d"])
    m = {1: KTY[s["t"]], -1: s["crv"], -4: d}
    m.update(zip((-2, -3), pub(s["t"], s["crv"], d)))
    return m


def gen_form(rng, t):
    f = {"f": rng.choice(["p8", "p8", "enc", "pub", "pub"] + (["trad"] if t != "okp" else []))}
    if f["f"] == "enc":
        f.update(pw=rng.choice([b"x", b"secret", rng.randbytes(9), b"p" * 70]).hex(), seed=rng.randbytes(4).hex(), it=rng.choice([1, 2, 100]))
    if t == "ec2":
        if f["f"] == "pub":
            f["point"] = rng.choice(["plain", "plain", "compressed"])
        else:
            f.update({k: 1 for k in ("nopub", "short") if rng.random() < .15})
    if t == "rsa" and f["f"] == "pub" and rng.random() < .3:
        f["pkcs1"] = 1
    if rng.random() < .2:
        f["eol"] = "\r\n"
    if rng.random() < .15:
        f["pre"] = rng.choice(["Bag Attributes\n    friendlyName: device\n", "\n\n", "# key of Jos\u00e9\n"])
    if rng.random() < .15:
        f["nolast"] = 1
    if rng.random() < .1:
        f["width"] = rng.choice([4, 60, 76, 100000])
    return f


def gen_opts(rng, t):
    m = {}
    if rng.random() < .45:
        m[2] = gen_bytes(rng, rng.choice([0, 1, 4, 24]))
    if rng.random() < .25:
        m[3] = rng.choice(list(ref.NAMES))
    if rng.random() < .3:
        m[4] = rng.sample(list(SUP[t]), rng.choice([0, 1, 2, 4]))
    if rng.random() < .15:
        m[5] = gen_bytes(rng, rng.choice([0, 7, 13]))
    if rng.random() < .1:
        m[1] = KTY[t] if rng.random() < .7 else rng.choice([1, 2, 3, 4])
    if rng.random() < .25:
        m[rng.choice(c08.UNKNOWN + c08.MORE)] = gen_value(rng)
    return m


def gen(rng, i, tier):
    steps, files, objs = [], {}, {}
    for _ in range(rng.randint(6, 24)):
        x = rng.random()
        if x < .2 or not files:
            f = rng.randrange(3)
            st = {"op": "pem", "f": f, "w": ["ok"]}
            if rng.random() < .08:
                st["odd"] = rng.choice(["dsa", "secp224r1", "secp192r1", "brainpoolP256r1", "mixed"])
                st["form"] = {"f": rng.choice(["p8", "pub"])}
                files[f] = ["ec2", None, st["form"]["f"]]
            elif objs and rng.random() < .15:
                st["o"] = rng.choice(list(objs))
                st["form"] = gen_form(rng, "ec2")
                st["form"].pop("pw", 0)
                if st["form"]["f"] == "enc":
                    st["form"]["f"] = "p8"
                files[f] = ["ec2", None, st["form"]["f"]]
            else:
                st["key"] = key_spec(rng)
                st["form"] = gen_form(rng, st["key"]["t"])
                files[f] = [st["key"]["t"], st["form"].get("pw"), st["form"]["f"]]
            y = rng.random()
            if y < .1:
                st["w"] = ["cut", rng.randrange(1000)]
            elif y < .15:
                st["w"] = ["lost"]
            elif y < .22:
                st["w"] = ["tail"]
            steps.append(st)
        elif x < .56:
            f = rng.choice(list(files))
            t, pw, kind = files[f]
            o = rng.randrange(4)
            objs[o] = t
            st = {"op": "imp", "f": f, "o": o, "p": rng.randrange(2), "priv": int(kind != "pub"), "pw": pw, "opts": None if rng.random() < .3 else
                  j(gen_opts(rng, t)), "form": form(rng), "vform": form(rng), "via": rng.choice(["CoseKey", "CoseKey", "EC2Key", "OKPKey", "RSAKey"])}
            y = rng.random()
            if y < .06:
                st["priv"] ^= 1
            elif y < .14:
                st["pw"] = rng.choice([None, "77726f6e67", ""])
            if rng.random() < .12:
                st["fault"] = faults.gen(rng, 3)
            steps.append(st)
            if rng.random() < .15:
                steps.append({**st, "o": rng.randrange(4), "p": rng.randrange(2)})
        elif x < .6:
            steps.append({"op": "rot", "f": rng.choice(list(files)), "at": rng.randrange(10000), "how": rng.randrange(4), "bit": rng.randrange(8)})
        elif x < .66 and objs:
            t = rng.choice(["ec2", "okp"])
            o = rng.randrange(4)
            objs[o] = t
            m = {1: KTY[t], -1: rng.choice(CRVS[t])}
            m.update({k: v for k, v in gen_opts(rng, t).items() if k != 1})
            steps.append({"op": "new", "o": o, "p": rng.randrange(2), "t": t, "m": j(m), "via": "gen", "form": form(rng), "vform": form(rng)})
        elif x < .76 and objs:
            o = rng.choice(list(objs))
            steps.append({"op": "edit", "o": o, "edit": c08.gen_edit(rng, objs[o])})
        elif x < .84 and objs:
            o = rng.choice(list(objs))
            f = rng.randrange(2)
            steps.append({"op": "save", "o": o, "f": 100 + f, "w": rng.choice([["ok"], ["ok"], ["cut", rng.randrange(1000)]])})
            steps.append({"op": "load", "f": 100 + f, "o": rng.randrange(4), "p": rng.randrange(2)})
        elif x < .96 and objs:
            steps.append({"op": "use", "o": rng.choice(list(objs)), "v": rng.randbytes(8).hex()})
        else:
            steps.append({"op": "crash", "p": rng.randrange(2)})
    for o in sorted(objs):
        steps.append({"op": "use", "o": o, "v": "01"})
    return {"steps": steps}


class Sim(c08.Sim):
    def __init__(self, plan, ctx):
        super().__init__(plan, ctx)
        self.pems = {}          # f -> bytes
        self.note = {}          # f -> (form, damage, map written or None)
        self.rsas = []
        self.got = {}           # file content -> number of imports

    def rsa_pool(self):
        return super().rsa_pool() + self.rsas

    def put(self, st, r, m, t):
        super().put(st, r, m, t)
        self.obj[st["o"]][2] = dict(m)

    def do_pem(self, st):
        ctx = self.ctx
        m = None
        if st.get("odd") == "dsa":
            t = pem.DSA[st["form"]["f"] == "pub"]
        elif st.get("odd") == "mixed":
            t = pem.DSA[0] + pem.DSA[1]
        elif st.get("odd"):
            k = seams.real["ec.derive"](5, {"secp224r1": ec.SECP224R1, "secp192r1": ec.SECP192R1, "brainpoolP256r1": ec.BrainpoolP256R1}[st["odd"]]())
            n = k.public_key().public_numbers()
            size = (k.key_size + 7) // 8
            w = {1: 2, -1: 1, -2: n.x.to_bytes(size, "big"), -3: n.y.to_bytes(size, "big"), -4: b"\5".rjust(size, b"\0")}
            t = pem.write(w, {**st["form"], "crv": st["odd"]})
        elif "o" in st:
            ent = self.obj.get(st["o"])
            if ent is None or ent[3] == "sym":
                return
            m = {k: v for k, v in ent[2].items() if k in OWN[ent[3]] or k == 1}
            f = dict(st["form"])
            if ent[3] == "okp" and f["f"] == "trad":
                f["f"] = "p8"
            need = (-1, -2, -3) if ent[3] == "ec2" else (-1, -2)
            if f["f"] != "pub":
                need = {"ec2": (-1, -2, -3, -4), "okp": (-1, -2, -4), "rsa": tuple(range(-8, 0))}[ent[3]]
            if any(k not in m for k in need) or -9 in m or m.get(1) != KTY[ent[3]] or (ent[3] in CRVS and m[-1] not in CRVS[ent[3]]):
                return
            t = pem.write(m, f)
            m = None                # what it denotes is up to the parser: the key may have been edited
        else:
            m = full_map(st["key"])
            if m[1] == 3:
                self.rsas.append(m)
            if any(m.get(k, b"\1")[:1] == b"\0" for k in (-2, -3, -4)) or st["key"].get("lead"):
                ctx.probe("leading_zero")
            t = pem.write(m, st["form"])
            if st["form"]["f"] == "pub":
                m = {k: v for k, v in m.items() if k in ((1, -1, -2, -3) if m[1] == 2 else (1, -1, -2))}
        b, old, w = t.encode(), self.pems.get(st["f"], b""), st["w"]
        damage = w[0]
        if w[0] == "cut":
            b = b[:len(b) * w[1] // 1000]
            m = None
            ctx.fault("torn_write")
        elif w[0] == "lost":
            ctx.fault("lost_write")
            return
        elif w[0] == "tail" and len(old) > len(b):
            ctx.fault("stale_tail")
            b += old[len(b):]
            m = None
        self.pems[st["f"]] = b
        self.note[st["f"]] = (st["form"]["f"], damage, m)
        ctx.ops += 1
        ctx.log("pem", st["f"], len(b), damage)

    def do_rot(self, st):
        b = self.pems.get(st["f"])
        if not b:
            return
        at = st["at"] * len(b) // 10000
        if st["how"] == 0:
            b = b[:at] + bytes([b[at] ^ 1 << st["bit"]]) + b[at + 1:]
        elif st["how"] == 1:
            b = b[:at] + b[at + 1:]
        elif st["how"] == 2:
            # one base64 character for another
            c = b"ABCDEFGHabcdefgh"[st["bit"]]
            b = b[:at] + bytes([c]) + b[at + 1:]
        else:
            k = b.find(b"\n", at)
            b = b[:k + 1] + b[k + 65:] if k >= 0 else b
        self.pems[st["f"]] = b
        self.note[st["f"]] = (self.note[st["f"]][0], "rot", None)
        self.ctx.fault("bit_rot")
        self.ctx.log("rot", st["f"], at, st["how"])

    def do_imp(self, st):
        ctx = self.ctx
        b = self.pems.get(st["f"])
        if b is None:
            return
        txt = b.decode("utf-8", "surrogateescape")
        try:
            txt.encode()
        except UnicodeEncodeError:
            txt = b.decode("latin-1")
        inc = self.procs[st["p"]].activate()
        private = bool(st["priv"])
        pw = None if st["pw"] is None else bytes.fromhex(st["pw"])
        form_, damage, wrote = self.note[st["f"]]
        want = pem.denotes(txt, private, pw)
        if wrote is not None and want is not None and canon(want) != canon(wrote):
            raise AssertionError("the parser and the writer of the harness disagree about a PEM file")
        opts = None if st["opts"] is None else u(st["opts"])
        spelled = None
        t = None
        if isinstance(want, dict):
            t = c08.tof(want)
            if opts is not None:
                spelled = self.spell(inc, t, opts, st["form"], st["vform"])
        elif opts is not None:
            spelled = {k: v for k, v in opts.items() if k in (2, 5)}
        before = None if spelled is None else canon([[repr(k), repr(v)] for k, v in spelled.items()])
        C = getattr(inc.keys, st["via"])
        if private:
            call = (C.from_pem_private_key, txt, pw) + (() if spelled is None else (spelled,))
        else:
            call = (C.from_pem_public_key, txt) + (() if spelled is None else (spelled,))
        r, fired = faults.run(ctx, st.get("fault"), *call)
        ctx.ops += 1
        what = "a PEM file (%s, %s, %s)" % (form_, damage, "private" if private else "public")
        ctx.log("imp", st["f"], st["p"], t, private, "ok" if r.ok else type(r.exc).__name__)
        ctx.state(t, want.get(-1) if t in CRVS else None, form_, damage, private, r.ok)
        if before is not None and canon([[repr(k), repr(v)] for k, v in spelled.items()]) != before:
            ctx.violate("params", "importing %s changed the caller's dictionary of parameters to %r" % (what, spelled))
        if want is None or want == "other" or (opts and t and opts.get(1, KTY[t]) != KTY[t]):
            if r.ok:
                ctx.violate("accepted", "%s that denotes no COSE key imports as %s" % (what, c08.brief(msgs.plain_val(dict(r.val)), {})))
            ctx.probe("refused")
            if want == "other":
                ctx.probe("unsupported_kind")
            if form_ == "enc" and damage == "ok" and want is None and private:
                ctx.fault("wrong_password")
            if private == (form_ == "pub"):
                ctx.fault("wrong_method")
            return
        if not r.ok:
            # a decayed file may hold a public point that does not belong to its private value
            if not fired and c08.after_load(want)[0]:
                ctx.violate("refused", "%s with a %s key cannot be imported: %r" % (what, t, r.exc))
            return
        if self.got.setdefault(b, 0):
            ctx.probe("same_file_twice")
        self.got[b] += 1
        m = {**want, **{k: v for k, v in (opts or {}).items() if not (k == 4 and v == [])}}
        ctx.probe("imported")
        self.adopt(st, r, m, (), t, "imported from " + what)


def run(plan, ctx):
    Sim(plan, ctx).go()


def reduce(plan):
    for si, st in enumerate(plan["steps"]):
        q = list(plan["steps"])
        for k in ("fault",):
            if st.get(k):
                q[si] = {a: b for a, b in st.items() if a != k}
                yield {**plan, "steps": list(q)}
        if st.get("w") and st["w"] != ["ok"]:
            q[si] = {**st, "w": ["ok"]}
            yield {**plan, "steps": list(q)}
        if st["op"] == "pem" and len(st["form"]) > 1 and st["form"]["f"] != "enc":
            q[si] = {**st, "form": {"f": st["form"]["f"]}}
            yield {**plan, "steps": list(q)}
        if st["op"] == "imp" and st["opts"]:
            for n in range(len(st["opts"]["m"])):
                q[si] = {**st, "opts": {"m": st["opts"]["m"][:n] + st["opts"]["m"][n + 1:]}}
                yield {**plan, "steps": list(q)}
            q[si] = {**st, "opts": None}
            yield {**plan, "steps": list(q)}
