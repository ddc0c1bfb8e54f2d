"""What a faulty network, disk or peer does to bytes in flight."""
from . import cbor
from .plain import u, j

BYTE_OPS = ("flip", "set", "cut", "chop", "ins", "del", "app", "swap", "zero", "prep")
STRUCT_OPS = ("retag", "fpre", "fstrip", "fpad", "fcut", "fflip", "fset", "fapp", "uset", "udel", "pset", "pdel", "splice", "drop", "dup",
              "swapitems", "rewrap", "preenc", "hmove", "untag", "addrcpt")


def _walk(root, path):
    """-> (container, index) of the field a path names, indices taken modulo the length."""
    cont, idx = None, None
    cur = root
    for p in path:
        if not isinstance(cur, list) or not cur:
            return None, None
        cont, idx = cur, p % len(cur)
        cur = cur[idx]
    return cont, idx


def apply1(b, d, donors):
    op = d[0]
    n = len(b)
    if op in BYTE_OPS:
        ba = bytearray(b)
        if op == "flip" and n:
            ba[d[1] % n] ^= 1 << (d[2] % 8)
        elif op == "set" and n:
            ba[d[1] % n] = d[2] % 256
        elif op == "cut" and n:
            ba = ba[:d[1] % n]
        elif op == "chop":
            ba = ba[:max(0, n - 1 - d[1] % 24)]
        elif op == "ins":
            p = d[1] % (n + 1)
            ba = ba[:p] + bytes.fromhex(d[2]) + ba[p:]
        elif op == "del" and n:
            p = d[1] % n
            ba = ba[:p] + ba[p + 1 + d[2] % 8:]
        elif op == "app":
            ba += bytes.fromhex(d[1])
        elif op == "prep":
            ba = bytearray(bytes.fromhex(d[1])) + ba
        elif op == "swap" and n:
            x, y = d[1] % n, d[2] % n
            ba[x], ba[y] = ba[y], ba[x]
        elif op == "zero" and n:
            p = d[1] % n
            for q in range(p, min(n, p + 1 + d[2] % 8)):
                ba[q] = 0
        return bytes(ba)
    try:
        t = cbor.dec(b)
    except (cbor.CborError, RecursionError):
        return b
    if not isinstance(t, cbor.Tag) or not isinstance(t.value, list):
        return b
    a = t.value
    try:
        if op == "retag":
            t.tag = d[1]
        elif op == "untag":
            return cbor.enc(a)
        elif op == "fcut":
            c, i = _walk(a, d[1])
            if c is not None and isinstance(c[i], bytes) and c[i]:
                c[i] = c[i][:d[2] % len(c[i])]
        elif op == "fflip":
            c, i = _walk(a, d[1])
            if c is not None and isinstance(c[i], bytes) and c[i]:
                x = bytearray(c[i])
                x[d[2] % len(x)] ^= 1 << (d[3] % 8)
                c[i] = bytes(x)
        elif op == "fapp":
            c, i = _walk(a, d[1])
            if c is not None and isinstance(c[i], bytes):
                c[i] = c[i] + bytes.fromhex(d[2])
        elif op == "fpre":
            c, i = _walk(a, d[1])
            if c is not None and isinstance(c[i], bytes):
                c[i] = bytes.fromhex(d[2]) + c[i]
        elif op == "fstrip":
            c, i = _walk(a, d[1])
            if c is not None and isinstance(c[i], bytes):
                c[i] = c[i][1:] if d[2] else c[i].lstrip(b"\0") if len(c[i].lstrip(b"\0")) != len(c[i]) else c[i].rstrip(b"\0")
        elif op == "fpad":
            # up to a length a block cipher or a fixed-size reader expects, or a field said twice
            c, i = _walk(a, d[1])
            if c is not None and isinstance(c[i], bytes):
                x = c[i]
                c[i] = x + x if d[2] == 0 else x + bytes(-len(x) % d[2]) if d[2] > 0 else bytes(-len(x) % -d[2]) + x
        elif op == "fset":
            c, i = _walk(a, d[1])
            if c is not None:
                c[i] = u(d[2])
        elif op in ("uset", "udel"):
            c, i = _walk(a, d[1])
            m = c[i] if c is not None else None
            if isinstance(m, dict):
                if op == "uset":
                    m[u(d[2])] = u(d[3])
                else:
                    m.pop(u(d[2]), None)
        elif op in ("pset", "pdel", "preenc"):
            c, i = _walk(a, d[1])
            if c is not None and isinstance(c[i], bytes):
                m = cbor.dec(c[i]) if c[i] else {}
                if isinstance(m, dict):
                    if op == "pset":
                        m[u(d[2])] = u(d[3])
                        c[i] = cbor.enc(m)
                    elif op == "pdel":
                        m.pop(u(d[2]), None)
                        c[i] = cbor.enc(m) if m else b""
                    else:
                        st = d[2]
                        if st == "rev":
                            m = dict(reversed(list(m.items())))
                        c[i] = cbor.enc(m, width=1 if st == "wide" else 0, indef=st == "indef")
        elif op == "hmove":
            # move a header from protected to unprotected or back
            pi, ui = d[1] % len(a), d[2] % len(a)
            if isinstance(a[pi], bytes) and isinstance(a[ui], dict):
                m = cbor.dec(a[pi]) if a[pi] else {}
                if d[3] == "pu" and m:
                    k = list(m)[d[4] % len(m)]
                    a[ui][k] = m.pop(k)
                elif a[ui]:
                    k = list(a[ui])[d[4] % len(a[ui])]
                    m[k] = a[ui].pop(k)
                a[pi] = cbor.enc(m) if m else b""
        elif op == "splice":
            src = donors.get(d[2])
            if src is None:
                return b
            s = cbor.dec(src)
            if isinstance(s, cbor.Tag) and isinstance(s.value, list):
                sc, si = _walk(s.value, d[3])
                c, i = _walk(a, d[1])
                if c is not None and sc is not None:
                    c[i] = sc[si]
        elif op in ("drop", "dup", "swapitems"):
            c, i = _walk(a, d[1])
            if c is not None:
                if op == "drop":
                    del c[i]
                elif op == "dup":
                    c.insert(i, c[i])
                else:
                    k = (i + 1) % len(c)
                    c[i], c[k] = c[k], c[i]
        elif op == "addrcpt":
            if len(a) == 3 and t.tag == 16:
                a.append([[b"", {1: -6}, b""]])
                t.tag = 96
            elif t.tag == 17 and len(a) == 4:
                a.append([[b"", {1: -6}, b""]])
                t.tag = 97
            elif t.tag == 18 and len(a) == 4:
                a[3] = [[a[0], {}, a[3]]]
                t.tag = 98
            elif t.tag in (96, 97) and a:
                a.pop()
                t.tag -= 80
            elif t.tag == 98 and len(a) == 4 and isinstance(a[3], list) and a[3]:
                s = a[3][0]
                a[0], a[3] = s[0], s[2]
                t.tag = 18
        elif op == "rewrap":
            return cbor.enc(t, width=1 if d[1] == "wide" else 0, indef=d[1] == "indef")
    except (cbor.CborError, TypeError, IndexError, RecursionError, KeyError, AttributeError, ZeroDivisionError, ValueError):
        return b
    try:
        return cbor.enc(t)
    except (TypeError, RecursionError):
        return b


def apply(b, dmg, donors=None):
    for d in dmg:
        b = apply1(b, d, donors or {})
    return b


def _path(rng, kind):
    if kind in ("sign", "enc", "mac") and rng.random() < .5:
        i = {"sign": 3, "enc": 3, "mac": 4}[kind]
        return [i, rng.randrange(3), rng.randrange(3)]
    return [rng.randrange(6)]


def gen(rng, kind, mids):
    """One damage item for a message of the given kind; mids: donors available."""
    r = rng.random()
    if r < .40:
        op = rng.choice(["flip", "flip", "flip", "flip", "set", "cut", "chop", "ins", "del", "app", "swap", "zero", "prep"])
        if op in ("flip",):
            return [op, rng.randrange(1 << 20), rng.randrange(8)]
        if op in ("set", "del", "swap", "zero"):
            return [op, rng.randrange(1 << 20), rng.randrange(256)]
        if op in ("cut", "chop"):
            return [op, rng.randrange(1 << 20)]
        if op == "ins":
            return [op, rng.randrange(1 << 20), rng.randbytes(rng.randint(1, 4)).hex()]
        return [op, rng.randbytes(rng.randint(1, 4)).hex()]
    last = {"sign1": 3, "mac0": 3, "mac": 3, "enc0": 2, "enc": 2}.get(kind)
    op = rng.choice(["retag", "fcut", "fcut", "fflip", "fflip", "fflip", "fset", "fapp", "fpre", "fpre", "fstrip", "fpad", "uset", "udel", "pset", "pdel",
                     "splice", "splice", "splice", "drop", "dup", "swapitems", "rewrap", "preenc", "hmove", "untag", "addrcpt"])
    if op == "retag":
        return [op, rng.choice([16, 17, 18, 96, 97, 98, 99, 0])]
    if op in ("fcut", "fflip", "fapp", "fpre", "fstrip", "fpad"):
        p = [last] if last is not None and rng.random() < .5 else _path(rng, kind)
        if kind == "sign" and rng.random() < .4:
            p = [3, rng.randrange(3), 2]
        if op == "fcut":
            return [op, p, rng.choice([0, 1, 4, 7, 8, 12, 15, 16, rng.randrange(512)])]
        if op == "fflip":
            return [op, p, rng.randrange(1 << 20) if rng.random() < .7 else -1 - rng.randrange(9), rng.randrange(8)]
        if op == "fstrip":
            return [op, p, rng.randrange(2)]
        if op == "fpad":
            return [op, p, rng.choice([0, 16, 32, 64, 256, -16, -32, -64])]
        x = rng.randbytes(rng.choice([1, 1, 2, 8]))
        return [op, p, (x if rng.random() < .5 else bytes(len(x))).hex()]
    if op == "fset":
        return [op, _path(rng, kind), j(rng.choice([None, b"", b"\xa0", 0, [], {}, rng.randbytes(8), {1: -7}, b"\xa1\x01\x05"]))]
    if op in ("uset", "udel", "pset", "pdel"):
        p = [1] if op[0] == "u" else [0]
        if kind in ("sign", "enc", "mac") and rng.random() < .5:
            p = [{"sign": 3, "enc": 3, "mac": 4}[kind], rng.randrange(3)] + p
        lab = rng.choice([1, 1, 2, 3, 4, 5, 6, 1000, "x", -70001])
        val = {1: rng.choice([1, 3, 4, 5, 7, 10, 14, -6, -7, -35, -8, -37, -257]), 5: rng.randbytes(rng.choice([7, 12, 13])),
               4: rng.randbytes(4), 6: rng.randbytes(2), 2: [1]}.get(lab, rng.randrange(1000))
        return [op, p, lab, j(val)] if op.endswith("set") else [op, p, lab]
    if op == "splice":
        p = _path(rng, kind)
        return [op, p, rng.choice(mids) if mids else 0, p if rng.random() < .85 else _path(rng, kind)]
    if op in ("drop", "dup", "swapitems"):
        return [op, _path(rng, kind)[:rng.choice([1, 2, 3])]]
    if op in ("rewrap", "preenc"):
        st = rng.choice(["wide", "indef", "rev"])
        return [op, st] if op == "rewrap" else [op, [0] if rng.random() < .7 or kind != "sign" else [3, rng.randrange(3), 0], st]
    if op == "hmove":
        return [op, 0, 1, rng.choice(["pu", "up"]), rng.randrange(8)]
    return [op]
