"""Secrets leave a process only where the caller asks for them."""
from .. import careless, leak
from ..core import Violation
from . import c02, c03, c04, c06, c08, c09, c10, c11, c13, c14, c16

ID = "C17"
RULE = ("A run is a seeded history of one of the other simulations (traffic, careless callers, recipients with faults, failed and retried operations, key edits and storage, "
        "imports, relays, re-provisioning, counters, long-lived processes) with every way out of the process watched: all encoded messages, "
        "the representations of all objects after every operation, all error texts with their causes, standard output, log records, warnings. "
        "They are searched for every secret in the process, in the raw and in the usual textual spellings. Non-trivial: at least one injected "
        "fault; distinct: by the hash of the event log.")
RUNS = {"quick": 2000, "thorough": 40000}
STATE_MEASURE = "distinct states of the watched simulations"
ASSUMPTIONS = ["a secret is recognised by any eight consecutive bytes of it; shorter fragments may be shown",
               "what the caller asks for is no leak: encoded keys, returned plaintext, derived keys handed to the caller"]
NONTRIVIAL_WITHOUT_FAULT = True
MUST_REACH = {"quick": ("printed", "wire_watched", "ciphertext_watched", "error_watched", "tapped", "careless_refused", "careless_fault", "careless_open")}
REAL = ["pycose (all of it, one fresh import per simulated process)", "cbor2", "cryptography/OpenSSL", "ecdsa"]
STUB = ["network, disk, peers (simulated)", "process crash (fresh import)", "entropy (seeded streams)"]

BASES = {"careless": careless, "c02": c02, "c03": c03, "c04": c04, "c06": c06, "c08": c08, "c09": c09, "c10": c10, "c11": c11, "c13": c13, "c14": c14, "c16": c16}
MIX = ["c06", "c06", "c06", "c04", "c04", "c03", "c10", "c08", "c16", "c11", "c13", "c14", "c02", "c09", "careless", "careless", "careless"]
MINE = ("leak", "encrypted-twice", "unprintable", "printing-changes")


class Stop(Exception):
    pass


class Only:
    """The run's context; what other properties say about the history ends it quietly."""

    def __init__(self, ctx):
        self.__dict__["_c"] = ctx

    def __getattr__(self, a):
        return getattr(self._c, a)

    def __setattr__(self, a, v):
        setattr(self._c, a, v)

    def violate(self, kind, msg):
        if kind in MINE:
            self._c.violate(kind, msg)
            return
        self._c.log("other", kind)
        raise Stop()


def gen(rng, i, tier):
    b = MIX[i % len(MIX)]
    p = BASES[b].gen(rng, i, tier)
    return {**p, "base": b, "keep": rng.choice([8, 14, 24]), "frac": rng.choice([1, 2, 4])}


def run(plan, ctx):
    only = Only(ctx)
    with leak.Watch(ctx, plan["keep"], keys=plan["base"] != "c09", frac=plan["frac"]) as watch:
        try:
            BASES[plan["base"]].run(plan, only)
        except Stop:
            pass
        watch.report()
    ctx.probe("base_" + plan["base"])


def reduce(plan):
    f = getattr(BASES[plan["base"]], "reduce", None)
    if f:
        yield from f(plan)
