"""Hostile bytes can neither wedge nor poison a decoder."""
import sys

import cbor2

from .. import cbor, faults, msgs, mutate, rcpts, ref, seams
from ..loader import Incarnation
from ..msgs import gen_bytes, gen_value, lib
from ..plain import canon, j, rp, u
from ..solo import Check, World
from ..steps import Steps, TooLong
from ..traffic import make_spec
from . import c08

ID = "C09"
RULE = ("A run feeds one long-lived process a seeded history of hostile byte strings (damaged, spliced and truncated messages and keys, "
        "message-shaped nonsense, nested and very long structures, rare CBOR) as messages and keys of requested types, some while memory or the "
        "serialiser fails, interleaved with legitimate operations. A step clock bounds every decoding; every object that comes out is "
        "compared with an independent reading of the bytes; every legitimate operation and every repeated input is compared with a fresh "
        "process. Non-trivial: at least one hostile input; distinct: by the hash of the event log.")
RUNS = {"quick": 2200, "thorough": 40000}
STATE_MEASURE = "distinct (requested class, kind of input, outcome, exception type, shape of the decoded object) tuples"
ASSUMPTIONS = ["decoding takes at most 20000 + 300 lines of pycose per input byte (the step clock), cbor2 itself terminates",
               "maps that carry the same label twice, CBOR tags cbor2 interprets and labels other than integers and text are only checked for termination"]
MUST_REACH = {"quick": ("damaged", "tree", "bomb", "key", "bytes", "rare_cbor", "accepted_message", "accepted_key", "rejected", "strict_labels",
                        "canary", "fed_again", "near", "class_specific", "used_hostile_object")}
REAL = ["pycose (all of it, one fresh import per simulated process)", "cbor2", "cryptography/OpenSSL", "ecdsa"]
STUB = ["peers (hostile and honest ones send independently built bytes)", "step clock", "entropy (seeded streams)"]

KIND = {16: "enc0", 17: "mac0", 18: "sign1", 96: "enc", 97: "mac", 98: "sign"}
CLS = {v: k for k, v in msgs.CLS.items()}
CLSOF = msgs.CLS
KCLS = {1: "OKPKey", 2: "EC2Key", 3: "RSAKey", 4: "SymmetricKey"}
LENS = {"enc0": (3,), "mac0": (4,), "sign1": (4,), "enc": (3, 4), "mac": (4, 5), "sign": (4,)}


# ------------------------------------------------------------------ hostile bytes

def rare(rng):
    """CBOR that honest peers hardly ever send."""
    r = cbor.Raw
    return rng.choice([
        lambda: cbor.Tag(rng.choice([0, 1, 2, 3, 4, 5, 24, 25, 28, 29, 30, 35, 36, 37, 100, 256, 258, 260, 55799, 16, 96, 98]),
                         rng.choice([0, b"", b"\xff" * 3, "x", "2013-03-21T20:04:00Z", [], [1, 2], [0, -1], {}, "(a+)+$", 1e300, -1, None])),
        lambda: cbor.Tag(60001, gen_value(rng)),
        lambda: cbor.Simple(rng.choice([0, 5, 19, 23])),
        lambda: r(bytes.fromhex(rng.choice(["f97e00", "f97c00", "fa7f7fffff", "fb7ff8000000000000", "f818", "f8ff", "9bffffffffffffffff",
                                            "5bffffffffffffffff", "7affffffff", "bb7fffffffffffffff", "ff", "1c", "5f41ff", "7f61", "5f",
                                            "7f6161ff", "5f4101ff", "bf", "9f", "c11b7fffffffffffffff", "c249010000000000000000",
                                            "c349010000000000000000", "d81c81d81d00", "d81ca1d81d0000", "d81c9fd81d00ff", "d81d00", "d81d1863",
                                            "c48221196ab3", "c482f9fc001903e8", "d9010243010203", "fbfff0000000000000"]))),
        lambda: cbor.Tag(28, [b"", {}, b"", [cbor.Tag(29, 0)]]),
        lambda: rng.choice([2 ** 64 - 1, -2 ** 64, 2 ** 63, 0.5, -0.0, 1e308, "\u0000", "x" * 70000, "\U0001f511"]),
        lambda: cbor.Pairs([[1, 1], [1, 3]]),
        lambda: cbor.Pairs([[[1], 2]]), lambda: cbor.Pairs([[{}, 2]]), lambda: cbor.Pairs([[cbor.Tag(29, 0), 2]]),
        lambda: nest(rng.choice([5, 60, 190, 390, 410, 2000]), rng.choice([4, 5, 6])),
        lambda: [], lambda: {}, lambda: None, lambda: True, lambda: "", lambda: b"",
    ])()


def nest(n, major):
    return cbor.Raw({4: b"\x81", 5: b"\xa1\x00", 6: b"\xc6"}[major] * n + b"\x00")


REG = [0, 1, 1, 1, 2, 3, 4, 5, 6, 7, 9, 10, 32, 33, 34, 35, -1, -1, -2, -20, -21, -22, -23, -24, -25, -26]
TXT = ["ALG", "alg", "KID", "IV", "PARTIAL_IV", "CRITICAL", "X5_CHAIN", "EPHEMERAL_KEY", "RESERVED", "", "KTY", "K", "identifier", "fullname"]


def gen_label(rng):
    x = rng.random()
    if x < .6:
        return rng.choice(REG)
    if x < .75:
        return rng.choice(TXT)
    if x < .9:
        return rng.choice(msgs.EXTRA_LABELS)
    return rng.choice([True, False, None, 1.0, 5.0, b"\x01", b"", 2 ** 40, -2 ** 40, cbor.Tag(60001, 1), cbor.Simple(23), [1], {}])


def gen_hval(rng, lab):
    if rng.random() < .15:
        return rare(rng)
    if rng.random() < .12:
        return gen_value(rng)
    if lab == 1:
        return rng.choice(list(ref.NAMES) + ["A128GCM", "ES256", "es256", "HS512/64", "nope", [1, -7], 99999, 0, -6, -10, -25, -29])
    if lab in (-1, -2):
        return keymap(rng)
    if lab == 2:
        return rng.choice([[], [1], [1, 4, "x"], [[]], 1, [1, [2], "x"]])
    if lab == 3:
        return rng.choice([0, 50, "a/b", -1, b"x"])
    if lab in (4, 5, 6, 9, 10):
        return gen_bytes(rng, rng.choice([0, 1, 7, 12, 13, 40]))
    if lab in (32, 33):
        return rng.choice([b"\x30\x03\x02\x01\x05", [b"", b"0"], []])
    if lab == 34:
        return rng.choice([[-16, b"x" * 32], [1], []])
    return gen_value(rng)


def gen_map(rng):
    n = rng.choice([0, 1, 1, 2, 3, 6])
    return cbor.Pairs([[k, gen_hval(rng, k)] for k in (gen_label(rng) for _ in range(n))])


def prot(rng):
    x = rng.random()
    if x < .2:
        return b""
    if x < .85:
        return cbor.enc(gen_map(rng)) + (rng.randbytes(2) if rng.random() < .08 else b"")
    return rng.choice([None, b"\xa0", b"\x80", b"\x01", b"\xf6", b"\xff", b"\xa1\x01", {}, {1: 1}, "", "\xa0", [], 0, True,
                       cbor.enc(rare(rng)), rare(rng)])


def body(rng):
    return gen_bytes(rng, rng.choice([0, 1, 8, 40])) if rng.random() < .8 else rng.choice([None, "", "text", 0, [], {}, True, rare(rng)])


def alghdr(rng, algs):
    """A header map that names one of the algorithms, so that the decoder gets further."""
    m = gen_map(rng)
    m.items = [it for it in m.items if not (isinstance(it[0], int) and it[0] == 1)]
    m.items.insert(rng.randrange(len(m.items) + 1), [1, rng.choice(algs)])
    return m


RALGS = [-6, -3, -4, -5, -40, -41, -42, -25, -26, -27, -28, -29, -30, -31, -32, -33, -34, -10, -11]


def rcpt(rng, depth=0):
    x = rng.random()
    if x < .06:
        return rare(rng)
    a = [prot(rng), gen_map(rng), body(rng)]
    alg = rng.choice(RALGS)
    if x < .8:
        a[1] = alghdr(rng, [alg])
    elif x < .9:
        a[0] = cbor.enc(alghdr(rng, [alg]))
    if rng.random() < .7:               # the shape its recipient class asks for
        if alg in (-6, -3, -4, -5, -40, -41, -42):
            a[0] = b""
        a[2] = b"" if alg in (-6, -10, -11, -25, -26, -27, -28) else rng.randbytes(rng.choice([1, 24, 40]))
        if alg == -6:
            return a
    y = rng.random()
    if y < .25 and depth < 3:
        a.append([rcpt(rng, depth + 1) for _ in range(rng.choice([0, 1, 1, 2, 5]))])
    elif y < .3:
        a.append(rng.choice([[], None, b"", "", {}, 0, rare(rng)]))
    elif y < .33:
        a = a[:rng.randrange(3)]
    elif y < .36:
        a += [[], b"more"]
    return a


def signer(rng):
    if rng.random() < .06:
        return rare(rng)
    a = [prot(rng), gen_map(rng), body(rng)]
    y = rng.random()
    if y < .08:
        a = a[:rng.randrange(3)]
    elif y < .16:
        a.append(rng.choice([b"", [], None]))
    return a


def tree(rng):
    kind = rng.choice(list(LENS))
    tag = ref.TAGS[kind]
    a = [prot(rng), gen_map(rng) if rng.random() < .9 else rng.choice([None, [], b"", 0, rare(rng)]), body(rng)]
    if rng.random() < .6:
        a[1] = alghdr(rng, list(ref.NAMES))
    if kind in ("mac0", "mac", "sign1"):
        a.append(body(rng))
    if kind in ("enc", "mac"):
        a.append([rcpt(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))])
    if kind == "sign":
        a.append([signer(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))])
    x = rng.random()
    if x < .06:
        a = a[:rng.randrange(len(a) + 1)]
    elif x < .12:
        a.insert(rng.randrange(len(a) + 1), rng.choice([None, b"", [], {}]))
    elif x < .16 and kind in ("enc", "mac", "sign"):
        a[-1] = rng.choice([None, b"", "", {}, 0, b"\x80", rare(rng), {(): 1} if False else {1: 2}])
    elif x < .2:
        tag = rng.choice([16, 17, 18, 96, 97, 98, 0, 15, 99, 61, 55799, 2 ** 32])
    v = a if x > .97 else cbor.Tag(tag, a)
    if .94 < x < .97:
        v = cbor.Tag(rng.choice([55799, 16, 98]), v)
    return cbor.enc(v, width=rng.choice([0, 0, 0, 1, 8]), indef=rng.random() < .15)


def bomb(rng):
    what = rng.choice(["nest", "many", "signers", "hdrs", "payload", "phdr", "crit", "flat", "key"])
    n = rng.choice([20, 60, 90, 120, 180])
    if what == "nest":
        r = [b"", {1: -3}, b"x"]
        for _ in range(n):
            r = [b"", {1: -3}, b"x", [r] * rng.choice([1, 1, 1, 2]) if n < 21 and _ < 6 else [r]]
        return cbor.enc(cbor.Tag(rng.choice([96, 97]), [b"", {1: 1}, b""] + [[r]])) if rng.random() < .5 else \
            cbor.enc(cbor.Tag(97, [b"", {1: 5}, b"", b"", [r]]))
    if what == "many":
        ra = rng.choice([-3, -6, -29])
        rs = [[b"", {1: ra, 4: bytes([i % 256])}, b"" if ra == -6 else b"w" * (i % 9 + 1)] for i in range(rng.choice([5, 20, n, n * 4]))]
        if rng.random() < .4:
            rs = [[b"", {1: rng.choice([-3, -29, -40])}, b"cek", rs]]
        return cbor.enc(cbor.Tag(97, [b"", {1: 5}, b"", b"t", rs]) if rng.random() < .5 else cbor.Tag(96, [b"", {1: 1}, b"", rs]))
    if what == "signers":
        return cbor.enc(cbor.Tag(98, [b"", {}, b"", [[b"\xa1\x01\x26", {4: bytes([i % 256])}, b"s"] for i in range(rng.choice([5, 20, n, n * 4]))]]))
    if what == "hdrs":
        return cbor.enc(cbor.Tag(16, [b"", {(k if k % 2 else "h%d" % k): k for k in range(1000, 1000 + n * 10)}, b""]))
    if what == "phdr":
        return cbor.enc(cbor.Tag(18, [cbor.enc({k + 1000: [k] for k in range(n * 5)}), {}, None, b""]))
    if what == "crit":
        return cbor.enc(cbor.Tag(17, [cbor.enc({1: 5, 2: list(range(n * 10))}), {}, b"", b""]))
    if what == "payload":
        return cbor.enc(cbor.Tag(rng.choice([16, 17, 18]), [b"", {}, rng.randbytes(100) * n, b"t"]))
    if what == "key":
        return cbor.enc({1: 4, -1: b"k" * 16, 4: [3] * n * 5, 2: b"k" * n * 100, **{1000 + i: i for i in range(n * 3)}})
    return rng.choice([b"\x81", b"\xa1\x00", b"\xd2", b"\xd8\x60\x84"]) * n * 20


def keymap(rng):
    t, m = c08.gen_map(rng)
    items = [[k, v] for k, v in m.items()]
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        i = rng.randrange(len(items))
        x = rng.random()
        if x < .2:
            del items[i]
            if not items:
                return cbor.Pairs(items)
        elif x < .45:
            items[i] = [items[i][0], rng.choice([None, 0, 1, 2, 3, 4, 5, 8, "EC2", "SYMMETRIC", "P_256", "ES256", b"", True, False, [], [True], ["SIGN", 2],
                                                 {}, "x", b"\x00" * 32, b"\xff" * 32, 1.0]) if rng.random() < .8 else rare(rng)]
        elif x < .6 and isinstance(items[i][1], bytes):
            b = items[i][1]
            items[i] = [items[i][0], rng.choice([b[:-1], b + b"\0", b"\0" + b, b[:len(b) // 2], bytes(len(b))])]
        elif x < .75:
            items.append([rng.choice([1, 2, 3, 4, 5, -1, -2, -3, -4, -9]), rng.choice([1, 2, 3, 4, b"x" * 16, [1], -7, True, None])])
        elif x < .85:
            items.append([gen_label(rng), gen_value(rng)])
        else:
            items[i] = [rng.choice([-1, -2, -3, -4, 0, 1, "K", "x", True, 1.0]), items[i][1]]
    return cbor.Pairs(items)


def near(rng, wire, what=None):
    """A well-formed message with exactly one thing its class forbids."""
    t = cbor.dec(wire)
    a, kind = t.value, KIND[t.tag]
    x = rng.random()
    if kind in ("enc", "mac") and x < .7 and a[-1]:
        r = rng.choice(a[-1])
        y = rng.randrange(9) if what is None else what
        if y == 0:
            r[0] = rng.choice([cbor.enc({99: 1}), cbor.enc({4: b"k"}), cbor.enc({1: r[1].get(1, -6)}) if isinstance(r[1], dict) else b"\x01", b"\xa0\x01"])
        elif y == 1:
            r[2] = b"" if r[2] else b"x"
        elif y == 2:
            r[3:] = [[[b"", {1: rng.choice([-6, -3, -29])}, rng.choice([b"", b"w" * 24])]]]
        elif y == 3:
            p = cbor.dec(r[0]) if r[0] else {}
            for lab in (-1, 1):
                if lab in p or lab in r[1]:
                    p.pop(lab, None)
                    r[1].pop(lab, None)
                    break
            r[0] = cbor.enc(p) if p else b""
        elif y == 4:
            r[1][1] = rng.choice([0, 99999, "nope", -7, 5, -6, -3, -25, -29, -40, [], None])
        elif y == 5:
            r[1][rng.choice([-1, -2])] = rng.choice([{}, {1: 2}, {1: 4, -1: b"k" * 16}, {1: 2, -1: 1, -2: b"x"}, b"", None])
        elif y == 6:
            r[rng.randrange(len(r))] = rng.choice([None, 0, "", [], {}])
        elif y == 7:
            r[1][rng.choice([-20, -21, -22, -24])] = rng.choice([None, 1.5, [], {}, "t"])
        else:
            a[-1].append([b"", {1: rng.choice([-6, -25, -3])}, rng.choice([b"", b"w" * 24])])
        return cbor.enc(t)
    if kind == "sign" and x < .7 and a[-1]:
        r = rng.choice(a[-1])
        y = rng.randrange(4)
        if y == 0:
            r[rng.randrange(3)] = rng.choice([None, 0, "", [], {}])
        elif y == 1:
            r[:] = r[:rng.randrange(3)]
        elif y == 2:
            r[1][1] = rng.choice([0, 99999, "nope", None, []])
        else:
            r.append(b"")
        return cbor.enc(t)
    y = rng.randrange(6)
    if y == 0:
        a[rng.randrange(len(a))] = rng.choice([None, 0, "", [], {}])
    elif y == 1:
        a[1][rng.choice([1, 2, 3, 4, 5, 6, 33, 34, -1])] = rng.choice([None, 0, "nope", [], {}, 99999, b""])
    elif y == 2:
        a[0] = rng.choice([b"\x01", b"\xff", cbor.enc({1: 99999}), cbor.enc({1: None}), cbor.enc({2: []}), cbor.enc([1]), cbor.enc({1: "nope"})])
    elif y == 3:
        del a[-1]
    elif y == 4:
        a.append(rng.choice([b"", [], {}]))
    else:
        t.tag = rng.choice([16, 17, 18, 96, 97, 98])
    return cbor.enc(t)


def siege(rng, pool, wires, keys, kb):
    """The same kind of attack, again and again, and then the legitimate user."""
    steps = []
    w = rng.randrange(len(pool))
    how = rng.choice(["near", "near", "near", "near", "key", "reject", "mixed"])
    what = rng.choice([None, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8])
    one = near(rng, wires[w], what)
    m = keymap(rng)
    kone = rng.choice(kb)
    for _ in range(rng.choice([1, 2, 4, 6, 9, 17, 33])):
        if how == "reject" or how == "mixed" and rng.random() < .4:
            steps.append({"s": "canary", "t": 0, "op": "recv", "w": w, "how": rng.choice(["aad", "aad", "cut"]), "i": rng.randrange(4), "key": "own"})
        elif how == "key":
            steps.append({"s": "feed", "b": (cbor.enc(m) if rng.random() < .7 else kone[:rng.randrange(len(kone))]).hex(), "cls": "CoseKey", "cat": "key"})
        else:
            b = one if rng.random() < .6 else near(rng, wires[rng.randrange(len(pool))] if how == "mixed" else wires[w], what)
            st = {"s": "feed", "b": b.hex(), "cls": rng.choice(["CoseMessage", "CoseMessage", CLSOF[KIND[cbor.dec(b).tag]]]), "cat": "near"}
            if rng.random() < .3:
                st["use"] = rng.randrange(1 << 20)
            if rng.random() < .1:
                st["strict"] = True
            steps.append(st)
    for v in range(len(pool)):
        for i in range(2):
            steps.append({"s": "canary", "t": 0, "op": "recv", "w": v, "how": "right", "i": i, "key": "own"})
    steps.append({"s": "canary", "t": 0, "op": "send", "spec": {**pool[w], "payload": rng.randbytes(9).hex()}, "again": False, "rt": True})
    steps.append({"s": "canary", "t": 0, "op": "load", "k": rng.randrange(len(keys))})
    return steps


def raw(rng, wires):
    x = rng.random()
    if x < .25:
        return rng.randbytes(rng.choice([0, 1, 2, 5, 30, 200]))
    if x < .4:
        return bytes([rng.choice([0xd0, 0xd1, 0xd2])]) + rng.randbytes(rng.choice([0, 3, 30]))
    if x < .5:
        return b"\xd8" + bytes([rng.choice([96, 97, 98, 28, 29])]) + rng.randbytes(rng.choice([0, 3, 30]))
    if x < .7:
        w = rng.choice(wires)
        return w[:rng.randrange(len(w) + 1)]
    if x < .85:
        return cbor.enc(rare(rng))
    a, b = rng.choice(wires), rng.choice(wires)
    return a[:rng.randrange(len(a) + 1)] + b[rng.randrange(len(b) + 1):]


def gen(rng, i, tier):
    keys, shared = [], {}
    ring = rcpts.KeyRing(keys)
    pool, wires, kinds = [], [], []
    seed = rng.randrange(1 << 40)
    besieged = rng.random() < .3
    for _ in range(rng.choice([2, 3, 5])):
        kind = rng.choice(["enc0", "mac0", "sign1", "enc", "mac", "sign"])
        if besieged and rng.random() < .5:
            kind = rng.choice(["enc", "mac"])
        sp = rcpts.gen_spec(rng, ring, kind) if kind in ("enc", "mac") else make_spec(rng, kind, keys, shared)
        sp["payload"], sp["aad"] = sp["payload"][:600], sp["aad"][:200]
        if besieged and kind in ("enc", "mac") and rng.random() < .4:
            sp["key"] = ring.sym(rng, rcpts.KEYLEN[sp["alg"]], "cek%d" % sp["alg"])
            sp["recipients"] = [rcpts.gen_rspec(rng, ring, ref.DIRECT, sp["key"])]
        pool.append(sp)
        kinds.append(kind)
    maps = [ref.key_map(k) for k in keys]
    for n, sp in enumerate(pool):
        wires.append(msgs.ref_send(sp, lambda i: maps[i], ("w%d/%d" % (seed, n)).encode()))
    kb = [cbor.enc(m) for m in maps]
    steps = []
    for _ in range(rng.choice([6, 15, 30])):
        x = rng.random()
        if x < .14:
            y = rng.random()
            if y < .35:
                st = {"op": "recv", "w": rng.randrange(len(pool)), "how": rng.choice(["right", "right", "aad", "cut"]), "i": rng.randrange(4), "key": "own"}
            elif y < .55:
                st = {"op": "open", "w": rng.randrange(len(pool)), "i": rng.randrange(4)}
            elif y < .8:
                sp = rng.choice(pool)
                st = {"op": "send", "spec": {**sp, "payload": rng.randbytes(9).hex()}, "again": rng.random() < .3, "rt": rng.random() < .4}
            elif y < .9:
                st = {"op": "load", "k": rng.randrange(len(keys))}
            elif y < .95:
                st = {"op": "strict", "w": rng.randrange(len(pool))}
            else:
                st = {"op": "gen", "what": rng.choice(["sym", "ec2", "okp"]), "arg": rng.randrange(10)}
            steps.append({"s": "canary", "t": 0, **st})
            continue
        w = rng.randrange(len(pool))
        donors = {k: b for k, b in enumerate(wires)}
        cat = rng.choice(["legit", "damaged", "damaged", "tree", "tree", "tree", "tree", "bomb", "key", "key", "bytes"])
        if cat == "legit":
            b = wires[w]
        elif cat == "damaged":
            b = mutate.apply(wires[w], [mutate.gen(rng, kinds[w], list(donors)) for _ in range(rng.choice([1, 1, 2, 4]))], donors)
        elif cat == "tree":
            b = tree(rng)
        elif cat == "bomb":
            b = bomb(rng)
        elif cat == "key":
            b = cbor.enc(keymap(rng)) if rng.random() < .85 else mutate.apply(rng.choice(kb), [["flip", rng.randrange(9999), rng.randrange(8)]])
        else:
            b = raw(rng, wires + kb)
        if rng.random() < .04:                  # one wrapping too many
            b = rng.choice([lambda: b"\x81" + b, lambda: cbor.enc(b), lambda: b"\xd8\x18" + cbor.enc(b), lambda: b"\xd9\xd9\xf7" + b,
                            lambda: b"\xa1\x01" + b, lambda: b"\x82" + b + b, lambda: cbor.enc(cbor.Tag(rng.choice([16, 18, 98]), [b]))])()
        k = cbor.dec_kind(b)
        x = rng.random()
        right = "CoseKey" if k == "map" or cat == "key" else "CoseMessage"
        cls = right if x < .7 else rng.choice(list(CLS) + ["CoseMessage"]) if x < .85 else rng.choice(list(KCLS.values()) + ["CoseKey"])
        if k == "map" and rng.random() < .3:
            cls = rng.choice(list(KCLS.values()))
        st = {"s": "feed", "b": b.hex(), "cls": cls, "cat": cat}
        if rng.random() < .12:
            st["strict"] = True
        if rng.random() < .3:
            st["use"] = rng.randrange(1 << 20)
        if rng.random() < .12:
            st["fault"] = faults.gen(rng, 6)
        if rng.random() < .2:
            st["again"] = True
        if rng.random() < .06:                  # leniently first
            steps.append({k: v for k, v in st.items() if k not in ("strict", "fault")})
            st["strict"] = True
        steps.append(st)
        if rng.random() < .02:
            steps += siege(rng, pool, wires, keys, kb)
    if besieged:
        steps += siege(rng, pool, wires, keys, kb)
    return {"keys": keys, "n": 1, "tmpl": [], "pool": pool, "wseed": seed, "steps": steps}


# ------------------------------------------------------------------ what the bytes say

class Unclear(Exception):
    """Nothing is claimed about how such bytes are represented."""


INTERPRETED = (0, 1, 2, 3, 4, 5, 25, 28, 29, 30, 35, 36, 37, 100, 256, 258, 260, 261, 1004, 43000, 55799)


def plain(v, key=False):
    if isinstance(v, cbor.Simple) or (isinstance(v, cbor.Tag) and v.tag in INTERPRETED):
        raise Unclear()
    if isinstance(v, cbor.Tag):
        plain(v.value)
    elif isinstance(v, list):
        for x in v:
            plain(x)
    elif isinstance(v, dict):
        for k, x in v.items():
            if isinstance(k, (bool, float, cbor.Tag, cbor.Simple)):
                raise Unclear()
            plain(x)


def read(b):
    d = cbor.DUPS[0]
    try:
        v, _ = cbor.dec_prefix(b)
    except (cbor.CborError, RecursionError):
        raise Unclear()
    if cbor.DUPS[0] != d:
        raise Unclear()
    return v


def algn(v):
    if isinstance(v, bool):
        raise Unclear()
    if isinstance(v, list):
        return [algn(x) for x in v]
    return ref.algid(v.upper()) if isinstance(v, str) and v.upper() in ref.NAMES.values() else v


def want_key(m):
    """(class name or None, map, labels not compared) of a key map on the wire."""
    for k in m:
        if isinstance(k, str) and k.upper() in TEXTUAL:
            raise Unclear()
    t = m.get(1)
    if not isinstance(t, int) or isinstance(t, bool):
        if isinstance(t, (str, bool, float)):
            raise Unclear()
        return None, {}, ()
    if t not in KCLS:
        return None, {}, ()
    m = dict(m)
    if 3 in m:
        m[3] = algn(m[3])
    if 4 in m and isinstance(m[4], list):
        if any(isinstance(x, bool) for x in m[4]):
            raise Unclear()
        m[4] = [OPID.get(x.upper(), x) if isinstance(x, str) else x for x in m[4]]
    elif isinstance(m.get(4), str):
        raise Unclear()
    if t in (1, 2):
        c = m.get(-1)
        if isinstance(c, bool):
            raise Unclear()
        if isinstance(c, str):
            m[-1] = CRVID.get(c.upper(), c)
        if t == 2 and isinstance(m.get(-3), bool):
            try:
                m[-3] = ref.point(m)[1]
            except Exception:
                raise Unclear()
    if m.get(4) == []:
        del m[4]
    skip = ()
    if t == 2 and not all(m.get(k) for k in (-2, -3)):
        skip = (-2, -3)
        try:
            px, py = ref.ec_pub(m[-1], m[-4])
            m[-2], m[-3] = m.get(-2) or px, m.get(-3) or py
            skip = ()
        except Exception:
            if m.get(-2):
                skip = (-3,)
    return KCLS[t], m, skip


TEXTUAL = set()
for _d in [c08.COMMON] + list(c08.OWN.values()):
    TEXTUAL |= set(_d.values())
OPID = {v: k for k, v in c08.OPN.items()}
CRVID = {v: k for k, v in c08.CRVN.items()}


def check_key(ctx, o, m, what, cls=None):
    name, e, skip = want_key(m)
    if name is None or type(o).__name__ != name:
        ctx.violate("key-kind", "%s: a %s came out of a key of type %r" % (what, type(o).__name__, m.get(1)))
    got = msgs.plain_val(dict(o))
    own = c08.OWN[c08.tof(m)]           # null and empty values of a key's own parameters mean that it has none
    a = {k: v for k, v in got.items() if k not in skip and not (k in own and v in (b"", None, []))}
    b = {k: v for k, v in e.items() if k not in skip and not (k in own and v in (b"", None, []))}
    if canon(a) != canon(b):
        ctx.violate("key-content", "%s: decoded key has %s where the bytes have %s" % (what, c08.brief(a, b), c08.brief(b, a)))


def check_hdr(ctx, got, want, what):
    """got: header dict of the object; want: map on the wire."""
    plain(want)
    a, b = {}, {}
    for k, v in got.items():
        a[msgs.plain_val(k)] = v
    if set(map(canon, a)) != set(map(canon, want)):
        ctx.violate("headers", "%s has labels %s, the bytes have %s" % (what, sorted(map(repr, a)), sorted(map(repr, want))))
    for k, w in want.items():
        g = a[k]
        if k in (-1, -2) and isinstance(w, dict):
            try:
                check_key(ctx, g, w, "%s label %s" % (what, k))
            except Unclear:
                pass
            continue
        if k == 1 and isinstance(k, int):
            w = algn(w)
        if canon(msgs.plain_val(g)) != canon(w):
            ctx.violate("headers", "%s: label %r is %.80r, the bytes have %.80r" % (what, k, g, w))


def check_buckets(ctx, o, a, what):
    p = a[0]
    if p is None or p == b"":
        pm = {}
    elif isinstance(p, bytes):
        pm = read(p)
        plain(pm)
    else:
        plain(p)
        pm = None
    if not isinstance(pm, dict):
        ctx.violate("headers", "%s came out of a protected header that is no map: %.60r" % (what, p))
    check_hdr(ctx, o.phdr, pm, what + " protected header")
    um = a[1]
    if um is None:
        um = {}
    if not isinstance(um, dict):
        plain(um)
        ctx.violate("headers", "%s came out of an unprotected header that is no map: %.60r" % (what, um))
    check_hdr(ctx, o.uhdr, um, what + " unprotected header")
    if isinstance(p, bytes) and o.phdr_encoded != p:
        ctx.violate("headers", "%s: protected header bytes are %s, received %s" % (what, o.phdr_encoded.hex(), p.hex()))


def same(ctx, got, want, what):
    plain(want)
    if canon(msgs.plain_val(got)) != canon(want):
        ctx.violate("content", "%s is %.80r, the bytes have %.80r" % (what, got, want))


def check_rcpts(ctx, objs, ws, what):
    if not isinstance(ws, list):
        plain(ws)
        if len(objs) or (hasattr(ws, "__len__") and len(ws)) or not hasattr(ws, "__len__"):
            ctx.violate("recipients", "%s: %d recipients came out of %.60r" % (what, len(objs), ws))
        return
    if len(objs) != len(ws):
        ctx.violate("recipients", "%s has %d recipients, the bytes have %d" % (what, len(objs), len(ws)))
    for i, (o, w) in enumerate(zip(objs, ws)):
        wh = "%s recipient %d" % (what, i)
        try:
            if not isinstance(w, list):
                plain(w)
                ctx.violate("recipients", "%s came out of %.60r" % (wh, w))
            if len(w) not in (3, 4):
                ctx.violate("recipients", "%s came out of %d elements" % (wh, len(w)))
            check_buckets(ctx, o, w, wh)
            same(ctx, o.payload, w[2], wh + " ciphertext")
            check_rcpts(ctx, o.recipients, w[3] if len(w) > 3 else [], wh)
        except Unclear:
            pass


def check_msg(ctx, o, b):
    v = read(b)
    if not isinstance(v, cbor.Tag):
        ctx.violate("kind", "a %s came out of bytes without a tag" % type(o).__name__)
    if v.tag in INTERPRETED:
        raise Unclear()
    kind = KIND.get(v.tag)
    name = type(o).__name__
    if kind is None or msgs.CLS[kind] != name:
        ctx.violate("kind", "a %s came out of CBOR tag %d" % (name, v.tag))
    a = v.value
    if not isinstance(a, list):
        plain(a)
        ctx.violate("kind", "a %s came out of something that is no array" % name)
    if len(a) not in LENS[kind]:
        ctx.violate("elements", "a %s came out of %d elements" % (name, len(a)))
    for f in (lambda: check_buckets(ctx, o, a, name), lambda: same(ctx, o.payload, a[2], name + " payload")):
        try:
            f()
        except Unclear:
            pass
    if kind in ("mac0", "mac"):
        same(ctx, o.auth_tag, a[3], name + " tag")
    if kind == "sign1":
        same(ctx, o.signature, a[3], name + " signature")
    if kind in ("enc", "mac"):
        check_rcpts(ctx, o.recipients, a[LENS[kind][0]] if len(a) > LENS[kind][0] else [], name)
    if kind == "sign":
        if not isinstance(a[3], list):
            plain(a[3])
            if len(o.signers) or not hasattr(a[3], "__len__") or len(a[3]):
                ctx.violate("signers", "%d signers came out of %.60r" % (len(o.signers), a[3]))
            return
        if len(o.signers) != len(a[3]):
            ctx.violate("signers", "%d signers came out of %d signatures" % (len(o.signers), len(a[3])))
        for i, (s, w) in enumerate(zip(o.signers, a[3])):
            wh = "signer %d" % i
            try:
                if not isinstance(w, list):
                    plain(w)
                    ctx.violate("signers", "%s came out of %.60r" % (wh, w))
                if len(w) != 3:
                    ctx.violate("signers", "%s came out of %d elements" % (wh, len(w)))
                check_buckets(ctx, s, w, wh)
                same(ctx, s.signature, w[2], wh + " signature")
            except Unclear:
                pass


def check_strict(ctx, o, what):
    """Decoded with unknown labels forbidden."""
    for h in (o.phdr, o.uhdr):
        for k in h:
            if isinstance(k, (int, str)):
                ctx.violate("strict", "%s decoded with unknown header labels forbidden has the label %.60r" % (what, k))
    for a in ("recipients", "signers"):
        for n, x in enumerate(getattr(o, a, [])):
            check_strict(ctx, x, "%s %s %d" % (what, a[:-1], n))
    ctx.probe("strict_accepted")


def show(v):
    try:
        return canon(msgs.plain_val(v))
    except (TypeError, RecursionError):         # cyclic values and types plain data has no name for
        try:
            return rp(v)
        except Exception as e:
            return "unprintable: " + type(e).__name__


def snap(o, depth=0):
    """All of a decoded object as plain data."""
    if hasattr(o, "store"):
        return [type(o).__name__, show(o.store)]
    out = [type(o).__name__, show(o.phdr), show(o.uhdr), show(o.payload), o.phdr_encoded]
    for a in ("auth_tag", "signature"):
        if hasattr(o, a):
            out.append(show(getattr(o, a, None)))
    for a in ("recipients", "signers"):
        out.append([snap(x, depth + 1) for x in getattr(o, a, [])])
    return out


# ------------------------------------------------------------------ the run

class Proc(World):
    """One process under the hostile stream, or its fresh twin."""

    def op_strict(self, st):
        m = self.inc.messages.CoseMessage.decode(self.wires[st["w"]], allow_unknown_attributes=False)
        return snap(m)

    def decode(self, st):
        b = bytes.fromhex(st["b"])
        if st["cls"] in CLS or st["cls"] == "CoseMessage":
            c = getattr(self.inc.messages, st["cls"])
            return c.decode(b, allow_unknown_attributes=False) if st.get("strict") else c.decode(b)
        return getattr(self.inc.keys, st["cls"]).decode(b)

    def use(self, o, x):
        """Things an application may do to what it received; each may fail, all must come back."""
        inc = self.inc
        k16 = inc.keys.SymmetricKey(k=b"k" * 16)
        ec = inc.keys.EC2Key(crv="P_256", d=b"\x11" * 32, optional_params={}) if x % 2 else None
        if hasattr(o, "store"):
            acts = [lambda: repr(o), lambda: o.encode(), lambda: [getattr(o, a) for a in ("alg", "key_ops", "kid", "base_iv")],
                    lambda: inc.messages.Mac0Message({inc.headers.Algorithm: inc.algorithms.HMAC256}, {}, b"x", key=o).encode()]
        else:
            def opened():
                o.key = ec if type(o).__name__.startswith("Sign") else k16
                for s in getattr(o, "signers", []):
                    s.key = ec
                    s.verify_signature()
                for r in getattr(o, "recipients", []):
                    r.key = rng_key
                if hasattr(o, "verify_signature"):
                    return o.verify_signature()
                if hasattr(o, "verify_tag"):
                    return o.verify_tag()
                return o.decrypt(*([o.recipients[0]] if getattr(o, "recipients", []) else []))
            rng_key = ec or k16
            flags = {"Enc0Message": "encrypt", "EncMessage": "encrypt", "Mac0Message": "mac", "MacMessage": "mac"}
            kw = {flags.get(type(o).__name__, "sign"): False}
            acts = [lambda: repr(o), lambda: o.encode(**kw), opened, lambda: o.encode()]
        for n, f in enumerate(acts):
            if x >> n & 1:
                try:
                    f()
                except Exception:
                    pass


def outcome(r):
    if not r.ok:
        return ("error",)       # which error bad input raises is not promised
    return ("ok", repr(snap(r.val)))


def differ(*rs):
    """The results from where they first differ."""
    ss = [repr(r) for r in rs]
    i = 0
    while all(len(x) > i for x in ss) and len({x[i] for x in ss}) == 1:
        i += 1
    return [x[max(0, i - 60):i + 60] for x in ss]


def run(plan, ctx):
    chk = Check({**plan, "seed": plan["wseed"]}, ctx)
    seams.S.entropy = seams.Stream(plan["seed"], "boot")
    env = (sys.getrecursionlimit(), cbor2.loads, cbor2.dumps, cbor2.CBORTag)
    w = Proc(plan, ctx, chk)
    seams.S.entropy = seams.Stream(plan["seed"], "boot")
    kept, later = [], []
    for n, st in enumerate(plan["steps"]):
        w.inc.activate()
        seams.S.entropy = seams.Stream(plan["seed"], "step%d" % n)
        ctx.now += 1000
        if st["s"] == "canary":
            ctx.ops += 1
            r = w.op(st)
            ctx.log("canary", n, st["op"], r[0] if r[0] == "ok" else r)
            ctx.probe("canary")
            later.append((n, st, r))
            continue
        b = bytes.fromhex(st["b"])
        ctx.probe({"legit": "legit", "bytes": "bytes"}.get(st["cat"], st["cat"]))
        if st["cat"] in ("tree", "bytes", "key") and any(x in b for x in (b"\xd8\x1c", b"\xd8\x1d", b"\xd9\x01\x02", b"\xc2\x49", b"\xf9\x7e", b"\xf7")):
            ctx.probe("rare_cbor")
        if st["cls"] not in ("CoseMessage", "CoseKey"):
            ctx.probe("class_specific")
        if st.get("strict"):
            ctx.probe("strict_labels")
        ctx.fault("hostile_" + st["cat"])
        lim = Steps(20000 + 300 * len(b))
        try:
            with lim:
                r, fired = faults.run(ctx, st.get("fault"), w.decode, st)
        except TooLong as e:
            ctx.violate("wedged", "decoding %d bytes as %s has not ended after %d steps, %s" % (len(b), st["cls"], lim.n, e))
        ctx.log("feed", n, st["cls"], len(b), "ok" if r.ok else type(r.exc).__name__, lim.n)
        if not fired and st.get("again"):
            later.append((n, st, outcome(r)))
        if r.ok:
            o = r.val
            iskey = hasattr(o, "store")
            ctx.probe("accepted_key" if iskey else "accepted_message")
            if st["cls"] in CLS and type(o).__name__ != st["cls"] or st["cls"] in KCLS.values() and type(o).__name__ != st["cls"]:
                ctx.violate("kind", "%s.decode returned a %s" % (st["cls"], type(o).__name__))
            try:
                if iskey:
                    m = read(b)
                    plain(m)
                    if not isinstance(m, dict):
                        ctx.violate("key-kind", "a key came out of something that is no map")
                    check_key(ctx, o, m, "key")
                else:
                    if st.get("strict"):
                        check_strict(ctx, o, type(o).__name__)
                    check_msg(ctx, o, b)
                ctx.probe("compared")
            except Unclear:
                ctx.probe("unclear")
            ctx.state(st["cls"], st["cat"], type(o).__name__, len(getattr(o, "recipients", [])), len(getattr(o, "signers", [])))
            if st.get("use") is not None:
                lim = Steps(400000 + 3000 * len(b))
                try:
                    with lim:
                        w.use(o, st["use"])
                except TooLong as e:
                    ctx.violate("wedged", "using a %s decoded from %d bytes has not ended after %d steps, %s" % (type(o).__name__, len(b), lim.n, e))
                ctx.probe("used_hostile_object")
            else:
                kept.append((n, o, repr(snap(o))))
        else:
            ctx.probe("rejected")
            ctx.state(st["cls"], st["cat"], type(r.exc).__name__)
    # nothing that was decoded earlier has changed meanwhile
    w.inc.activate()
    for n, o, s in kept:
        if repr(snap(o)) != s:
            ctx.violate("poisoned", "the object decoded at step %d has changed although nobody touched it" % n)
    if (sys.getrecursionlimit(), cbor2.loads, cbor2.dumps, cbor2.CBORTag) != env:
        ctx.violate("poisoned", "the interpreter's recursion limit or cbor2 was changed")
    # the same inputs again, in the old process and in a fresh one
    seams.S.entropy = seams.Stream(plan["seed"], "boot")
    fresh = Proc(plan, ctx, chk)
    for n, st, r0 in later:
        if st["s"] == "feed":
            ctx.probe("fed_again")
            w.inc.activate()
            r1 = outcome(lib(ctx, w.decode, st))
            fresh.inc.activate()
            r2 = outcome(lib(ctx, fresh.decode, st))
            if not r0 == r1 == r2:
                ctx.violate("poisoned", "the input of step %d (%s of %d bytes) gave %s; later %s; in a fresh process %s" % (
                    (n, st["cls"], len(st["b"]) // 2) + tuple(differ(r0, r1, r2))))
            continue
        fresh.inc.activate()
        seams.S.entropy = seams.Stream(plan["seed"], "step%d" % n)
        r2 = fresh.op(st)
        if r0 != r2:
            ctx.violate("poisoned", "%s (step %d) gives %.300r, in a fresh process %.300r" % (st["op"], n, r0, r2))
        if st["op"] != "strict":
            chk.secrets = {}
            chk.result(st, r0, "the process that was fed hostile bytes")
        if r0[0] != "ok" and st["op"] in ("send", "open", "load", "gen") or st["op"] == "recv" and st["how"] == "right" and r0[0] != "ok":
            ctx.violate("poisoned", "%s (step %d) of legitimate traffic failed: %s" % (st["op"], n, r0))


def reduce(plan):
    for si, st in enumerate(plan["steps"]):
        for k in ("use", "fault", "again", "strict"):
            if st.get(k) is not None:
                q = list(plan["steps"])
                q[si] = {x: y for x, y in st.items() if x != k}
                yield {**plan, "steps": q}
