"""Plans are JSON: bytes and maps need a spelling.  j() writes it, u() reads it."""
import re

from . import cbor


def rp(v):
    """repr() without the addresses of objects."""
    return re.sub(r" at 0x[0-9a-f]+", "", repr(v))


def j(v):
    if isinstance(v, cbor.Raw):
        return {"raw": v.b.hex()}
    if isinstance(v, (bytes, bytearray)):
        return {"b": bytes(v).hex()}
    if isinstance(v, dict):
        return {"m": [[j(k), j(x)] for k, x in v.items()]}
    if isinstance(v, (list, tuple)):
        return [j(x) for x in v]
    return v


def u(v):
    if isinstance(v, dict):
        if "b" in v:
            return bytes.fromhex(v["b"])
        if "raw" in v:
            return cbor.Raw(bytes.fromhex(v["raw"]))
        return {u(k): u(x) for k, x in v["m"]}
    if isinstance(v, list):
        return [u(x) for x in v]
    return v


def canon(v):
    """Hashable, type-exact form of plain CBOR data."""
    if isinstance(v, dict):
        return ("m", tuple(sorted(((canon(k), canon(x)) for k, x in v.items()), key=repr)))
    if isinstance(v, (list, tuple)):
        return ("l", tuple(canon(x) for x in v))
    if isinstance(v, (bytes, bytearray)):
        return ("b", bytes(v))
    if isinstance(v, bool):
        return ("t", v)
    if isinstance(v, float):
        return ("f", repr(v))
    if hasattr(v, "tag") and hasattr(v, "value"):
        return ("g", v.tag, canon(v.value))
    return (type(v).__name__, v)
