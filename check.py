#!/opt/venv/bin/python
"""check.py <property-id> [--replay FILE] [--runs N] [--workers N] [--seed N] [--tier quick|thorough]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import argparse  # noqa: E402
import importlib  # noqa: E402
import traceback  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--seed")
    ap.add_argument("--tier")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    from dst import seams
    seams.install()
    from dst import core
    mod = importlib.import_module("dst.props." + a.property.lower())
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = a.seed or os.environ.get("VERIF_SEED", "1")
    return core.main(mod, tier if tier in ("quick", "thorough") else "quick", int(seed), nw=a.workers, total=a.runs,
                     replay=a.replay, no_evidence=a.no_evidence)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
