#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "deterministic simulation: seeded network/crash fault schedules, forgery ledger and independent RFC 8152 peer as oracle",
    "C02": "deterministic simulation: seeded network/crash fault schedules, forgery ledger and independent RFC 8152 peer as oracle",
    "C03": "deterministic simulation: seeded network/crash fault schedules, forgery ledger and independent RFC 8152 peer as oracle",
    "C04": "deterministic simulation: seeded histories of recipients with injected crypto/entropy failures, crashes and network faults; independent RFC 8152 key-management peer as oracle",
    "C05": "deterministic simulation: entropy source under simulator control, seeded failures, forks, clock resets; sensitivity of every output byte to the entropy stream",
    "C06": "deterministic simulation: seeded fault injection at every dependency call, retry, compared with the fault-free outcome",
    "C07": "deterministic simulation: seeded thread scheduler at line granularity, compared with the sequential run",
    "C08": "deterministic simulation: seeded edit/save/crash/torn-write/reload histories against a dictionary model",
    "C09": "deterministic simulation: seeded hostile traffic mixed with legitimate traffic; structural oracle and fresh-process canary",
    "C10": "deterministic simulation: seeded relay chains with crashes and resends; byte-level oracle over independently parsed traffic",
    "C11": "deterministic simulation: seeded re-provisioning histories with restarts and failed edits against a permission model",
    "C12": "deterministic simulation: simulated clock, trust store and store I/O faults against a chain-validity model",
    "C13": "deterministic simulation: seeded histories in one long-lived simulated process, each operation replayed in a fresh one",
    "C14": "deterministic simulation: seeded counter histories with durable-counter crashes and network faults, RFC 8152 nonce reference",
    "C15": "deterministic simulation: seeded duplication/reordering/loss schedules, verdict memo per (bytes, key, context)",
    "C16": "deterministic simulation: seeded provisioning histories with torn, stale and decayed PEM files, wrong passwords, parser failures and restarts; independent PEM writer and dictionary model as oracle",
    "C17": "deterministic simulation: the seeded fault histories of the other simulations with every way out of the process watched (messages, printed objects, errors, logs) and searched for the secrets seen at the entropy, cipher and key-derivation seams",
}
NOTE = {}
NA = {
    "N02": "Static tables built at import: no schedule, fault, time or history to explore (that registries stay intact under hostile traffic and threads is part of C07, C09 and C13).",
    "N04": "A pure function of its input (certificate hashes, its one use in a stateful setting, are exercised under C12).",
}
BOUND = ("Bounded by the fixed number of seeded runs; absence of a violation is evidence over the explored schedules and faults, not a proof. "
         "Trusted: CPython, cbor2, cryptography/OpenSSL, ecdsa, and the simulator's own reference peer and CBOR codec.")


def main():
    checks, na = [], []
    for line in open(os.path.join(V, "properties.jsonl")):
        i = json.loads(line)["id"]
        if os.path.exists(os.path.join(V, "dst", "props", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": "./check.py %s" % i,
                           "thorough_cmd": "./check.py %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": TECH[i], "level": "exploration", "level_note": (NOTE.get(i, "") + " " + BOUND).strip()})
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
                   "notes": "No hooks in /repo: the simulator replaces entropy, crypto, serialiser, clock and trust-store entry points from outside, in its own process."}, f, indent=1)
        f.write("\n")


main()
