from .. import traffic

ID = "C03"
RULE = ("A run is a seeded plan: 1-3 library processes and a reference peer exchange 3-9 Encrypt0/Encrypt messages over a virtual-time "
        "network that drops, duplicates, delays, reorders, partitions, corrupts, truncates, splices and re-tags them while "
        "processes crash and restart. Non-trivial: at least one library operation and at least one fault fired; distinct: by the "
        "hash of the run's event log.")
RUNS = {"quick": 3000, "thorough": 20000}
STATE_MEASURE = "distinct (message kind, algorithm, damage kinds, context fault, verdict) tuples"
ASSUMPTIONS = ["AEAD algorithms are unforgeable (random damage never forges)", "the reference peer implements RFC 8152 sections 3 and 5 correctly"]
NOSHRINK = ()
MUST_REACH = {"quick": ("accepted_enc", "accepted_enc0", "rejected_enc", "rejected_enc0", "undecodable", "crash")}


def gen(rng, i, tier):
    return traffic.gen_plan(rng, ("enc0", "enc0", "enc"), tier)


def run(plan, ctx):
    traffic.Traffic(plan, ctx).go()


reduce = traffic.reduce
