from .. import traffic

ID = "C02"
RULE = ("A run is a seeded plan: 1-3 library processes and a reference peer exchange 3-9 Mac0/Mac messages (and a few of other kinds under confusable keys) over a virtual-time "
        "network that drops, duplicates, delays, reorders, partitions, corrupts, truncates, splices and re-tags them while "
        "processes crash and restart. Non-trivial: at least one library operation and at least one fault fired; distinct: by the "
        "hash of the run's event log.")
RUNS = {"quick": 3000, "thorough": 20000}
STATE_MEASURE = "distinct (message kind, algorithm, damage kinds, context fault, verdict) tuples"
ASSUMPTIONS = ["MAC algorithms are unforgeable (random damage never forges)", "the reference peer implements RFC 8152 sections 3 and 6 correctly"]
NOSHRINK = ()
MUST_REACH = {"quick": ("accepted_mac", "accepted_mac0", "rejected_mac", "rejected_mac0", "undecodable", "crash")}


def gen(rng, i, tier):
    return traffic.gen_plan(rng, ("mac0", "mac0", "mac"), tier)


def run(plan, ctx):
    traffic.Traffic(plan, ctx).go()


reduce = traffic.reduce
