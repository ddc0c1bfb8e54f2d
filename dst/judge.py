"""What independent and library receivers make of a finished message."""
from . import cbor, rcpts, ref


def reason(sp, wire, maps):
    """None when an independent receiver accepts the message with the content in the spec, else why not."""
    kind = sp["kind"]
    aad, payload = bytes.fromhex(sp["aad"]), bytes.fromhex(sp["payload"])
    det = payload if sp["detached"] else None
    try:
        if kind == "sign1":
            if not ref.ref_verify1(wire, maps[sp["key"]], aad, det):
                raise ref.RefReject("signature")
        elif kind == "sign":
            for n, s in enumerate(sp["signers"]):
                if not ref.ref_verify(wire, n, maps[s["key"]], bytes.fromhex(s["aad"]), det):
                    raise ref.RefReject("signature %d" % n)
        elif kind == "mac0":
            if not ref.ref_mac_ok(wire, maps[sp["key"]][-1], aad):
                raise ref.RefReject("tag")
        elif kind == "enc0":
            if ref.ref_decrypt(wire, maps[sp["key"]][-1], aad, maps[sp["key"]].get(5, b"")) != payload:
                raise ref.RefReject("plaintext")
        else:
            for n, r in enumerate(sp["recipients"]):
                got, _ = rcpts.ref_open(wire, n, maps[r["key"]], aad, bytes.fromhex(r.get("supp_pub", "")), bytes.fromhex(r.get("supp_priv", "")))
                if got != payload:
                    raise ref.RefReject("content")
        if kind in ("sign1", "sign", "mac0") and not sp["detached"]:
            if ref.parse(wire)[1][2] != payload:
                raise ref.RefReject("payload")
    except (ref.RefError, cbor.CborError, KeyError, TypeError, ValueError, IndexError) as e:
        return e
    return None


def lib_accept(inc, sp, wire, key, i=0):
    """Open through the library with key(i, private) objects; the payload, or an exception."""
    kind = sp["kind"]
    m = inc.messages.CoseMessage.decode(wire)
    det = bytes.fromhex(sp["payload"]) if sp["detached"] else None
    kw = {"detached_payload": det} if det is not None else {}
    if kind == "sign":
        for o, s in zip(m.signers, sp["signers"]):
            o.key, o.external_aad = key(s["key"], False), bytes.fromhex(s["aad"])
            if not o.verify_signature(**kw):
                raise rcpts.Rejected()
        return m.payload if det is None else det
    aad = bytes.fromhex(sp["aad"])
    if kind in ("enc", "mac"):
        n = i % len(sp["recipients"])
        r = sp["recipients"][n]
        return rcpts.lib_open(inc, wire, n, r, key(r["key"]), aad, bytes.fromhex(r.get("supp_pub", "")), bytes.fromhex(r.get("supp_priv", "")), m)[0]
    m.external_aad, m.key = aad, key(sp["key"], kind != "sign1")
    if kind == "enc0":
        return m.decrypt()
    if not (m.verify_signature(**kw) if kind == "sign1" else m.verify_tag()):
        raise rcpts.Rejected()
    return m.payload if det is None else det
