"""Injecting a failure at the k-th call an operation makes into its dependencies."""
from . import seams
from .msgs import lib

KINDS = ("mem", "err", "io")


def gen(rng, span=14, sticky=.25):
    f = {"n": min(rng.randrange(span), rng.randrange(span)), "kind": rng.choice(KINDS)}
    if rng.random() < sticky:
        f["sticky"] = 1
    if rng.random() < .3:
        f["site"] = rng.choice(["urandom", "cbor.dumps", "aead", "hmac", "hash", "cipher", "hkdf", "kw", "ec", "rsa",
                                "okp", "ecdsa", "cbor.loads"])
        f["n"] = rng.choice([0, 0, 0, 1, 1, 2, 3])
    return f


class Hook:
    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.seen = 0
        self.fired = 0
        self.sites = []

    def __call__(self, site):
        f = self.f
        if f.get("site") and not site.startswith(f["site"]):
            return
        k = self.seen
        self.seen += 1
        if k == f["n"] or (f.get("sticky") and k > f["n"]):
            self.fired += 1
            self.sites.append(site)
            self.ctx.fault("fail_%s_%s" % (site, f["kind"]))
            raise seams.fault(f["kind"], site)


def run(ctx, f, fn, *a, **k):
    """Library operation under fault f (or none). -> (LibResult, times fired)."""
    if not f:
        return lib(ctx, fn, *a, **k), 0
    h = Hook(ctx, f)
    seams.S.hook = h
    try:
        r = lib(ctx, fn, *a, **k)
    finally:
        seams.S.hook = None
    return r, h.fired
