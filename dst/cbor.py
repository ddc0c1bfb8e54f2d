"""A small CBOR codec of the simulator's own (independent of cbor2).

Used to build and to take apart messages without going through the code under
test or the serialiser it uses.  `enc` takes options so that reference peers can
emit every legal encoding (non-minimal heads, indefinite lengths).
"""
import struct


class Tag:
    __slots__ = ("tag", "value")

    def __init__(self, tag, value):
        self.tag, self.value = tag, value

    def __eq__(self, o):
        return isinstance(o, Tag) and (o.tag, o.value) == (self.tag, self.value)

    def __repr__(self):
        return "Tag(%r,%r)" % (self.tag, self.value)


class Simple:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Simple) and o.n == self.n

    def __hash__(self):
        return hash(("simple", self.n))


class Raw:
    """Bytes that are already CBOR."""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b


def head(major, n, width=0):
    """Head of an item; width 0 = shortest, else the number of extra bytes (1, 2, 4, 8)."""
    need = 0 if n < 24 else 1 if n < 256 else 2 if n < 65536 else 4 if n < 2 ** 32 else 8
    w = max(need, width)
    m = major << 5
    if w == 0:
        return bytes([m | n])
    return bytes([m | {1: 24, 2: 25, 4: 26, 8: 27}[w]]) + n.to_bytes(w, "big")


def enc(v, width=0, indef=False):
    """Encode; `width` forces longer heads, `indef` uses indefinite-length arrays and maps."""
    if isinstance(v, Raw):
        return v.b
    if v is None:
        return b"\xf6"
    if v is True:
        return b"\xf5"
    if v is False:
        return b"\xf4"
    if isinstance(v, int):
        return head(0, v, width) if v >= 0 else head(1, -1 - v, width)
    if isinstance(v, (bytes, bytearray)):
        return head(2, len(v), width) + bytes(v)
    if isinstance(v, str):
        b = v.encode()
        return head(3, len(b), width) + b
    if isinstance(v, float):
        return b"\xfb" + struct.pack(">d", v)
    if isinstance(v, (list, tuple)):
        body = b"".join(enc(x, width, indef) for x in v)
        return b"\x9f" + body + b"\xff" if indef else head(4, len(v), width) + body
    if isinstance(v, dict):
        body = b"".join(enc(k, width, indef) + enc(x, width, indef) for k, x in v.items())
        return b"\xbf" + body + b"\xff" if indef else head(5, len(v), width) + body
    if isinstance(v, Pairs):
        return head(5, len(v.items)) + b"".join(enc(k) + enc(x) for k, x in v.items)
    if isinstance(v, Tag):
        return head(6, v.tag, width) + enc(v.value, width, indef)
    if isinstance(v, Simple):
        return head(7, v.n)
    raise TypeError(type(v))


class CborError(ValueError):
    pass


_BREAK = object()
DUPS = [0]          # labels seen twice in one map, ever


class Pairs:
    """A map given as pairs: the same label may occur twice, and labels may be anything."""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


def _dec(b, i, depth):
    if depth > 200:
        raise CborError("too deep")
    if i >= len(b):
        raise CborError("eof")
    ib = b[i]
    major, ai = ib >> 5, ib & 31
    i += 1
    if ai < 24:
        n = ai
    elif ai < 28:
        w = 1 << (ai - 24)
        if i + w > len(b):
            raise CborError("eof")
        n = int.from_bytes(b[i:i + w], "big")
        i += w
    elif ai == 31 and major in (2, 3, 4, 5, 7):
        n = None
    else:
        raise CborError("bad head")
    if major == 0:
        return n, i
    if major == 1:
        return -1 - n, i
    if major in (2, 3):
        if n is None:
            out = b""
            while True:
                if i < len(b) and b[i] == 0xff:
                    i += 1
                    break
                if i >= len(b) or b[i] >> 5 != major or b[i] & 31 == 31:
                    raise CborError("bad chunk")
                c, i = _dec(b, i, depth + 1)
                out += c if major == 2 else c.encode()
        else:
            if i + n > len(b):
                raise CborError("eof")
            out = bytes(b[i:i + n])
            i += n
        if major == 3:
            try:
                return out.decode(), i
            except UnicodeDecodeError:
                raise CborError("utf8")
        return out, i
    if major == 4:
        out = []
        while n is None or len(out) < n:
            v, i = _dec(b, i, depth + 1)
            if v is _BREAK:
                if n is None:
                    return out, i
                raise CborError("break")
            out.append(v)
        return out, i
    if major == 5:
        out, c = {}, 0
        while n is None or c < n:
            k, i = _dec(b, i, depth + 1)
            if k is _BREAK:
                if n is None:
                    return out, i
                raise CborError("break")
            v, i = _dec(b, i, depth + 1)
            if v is _BREAK:
                raise CborError("break")
            try:
                hash(k)
            except TypeError:
                raise CborError("unhashable key")
            if k in out:
                DUPS[0] += 1
            out[k] = v
            c += 1
        return out, i
    if major == 6:
        v, i = _dec(b, i, depth + 1)
        if v is _BREAK:
            raise CborError("break")
        return Tag(n, v), i
    if n is None:
        return _BREAK, i
    if ai == 25:
        return struct.unpack(">e", n.to_bytes(2, "big"))[0], i
    if ai == 26:
        return struct.unpack(">f", n.to_bytes(4, "big"))[0], i
    if ai == 27:
        return struct.unpack(">d", n.to_bytes(8, "big"))[0], i
    if ai == 24 and n < 32:
        return Simple(n), i         # not well-formed (RFC 8949 section 3.3), some decoders accept it
    if n == 20:
        return False, i
    if n == 21:
        return True, i
    if n == 22:
        return None, i
    return Simple(n), i


def dec_prefix(b):
    """(first item, number of bytes it took)"""
    v, i = _dec(b, 0, 0)
    if v is _BREAK:
        raise CborError("break")
    return v, i


def dec(b, strict=False):
    v, i = dec_prefix(b)
    if strict and i != len(b):
        raise CborError("trailing bytes")
    return v


def dec_kind(b):
    """Rough kind of the first item: what an application would take the bytes for."""
    return {5: "map", 6: "tag"}.get(b[0] >> 5, "other") if b else "other"
