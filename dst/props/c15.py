from .. import traffic
from . import c04

ID = "C15"
RULE = ("A run is a seeded plan: library processes and a reference peer exchange a mix of messages of all six kinds over a virtual-time "
        "network that duplicates, reorders, loses, delays and damages deliveries; receivers keep and reuse received objects, open "
        "them twice, senders encode again from the same object, processes restart; one run in five uses messages with real recipient "
        "methods, each received object opened several times with the keys of several recipients and outsiders. Every verdict is remembered by (bytes, key, "
        "context) and must repeat. Non-trivial: at least one library operation and one fault; distinct: by the hash of the event log.")
RUNS = {"quick": 1500, "thorough": 20000}
STATE_MEASURE = "distinct (message kind, algorithm, damage kinds, context fault, verdict) tuples"
ASSUMPTIONS = ["a receiver sets key and external data before each operation, as the documentation shows"]
MUST_REACH = {"quick": ("same_delivery_again", "object_reused", "opened_again", "encoded_again_from_same_object", "crash", "drop", "opened_same_object_again")}
KINDS = ("enc0", "mac0", "sign1", "enc", "mac", "sign")


def gen(rng, i, tier):
    if i % 5 == 4:
        return {**c04.gen(rng, i, tier, heavy=True), "mode": "recipients"}
    return traffic.gen_plan(rng, KINDS, tier, stress=True)


def run(plan, ctx):
    if plan.get("mode") == "recipients":
        return c04.Run(plan, ctx).go()
    traffic.Traffic(plan, ctx).go()


def reduce(plan):
    return (c04 if plan.get("mode") == "recipients" else traffic).reduce(plan)
