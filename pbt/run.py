"""python3-vt -m pbt.run <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys

from . import harness, build


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        sys.exit(harness.run(a.property.upper(), tier, a.seed, a.replay))
    except build.BuildError as e:
        print("error: the code under test does not build\n%s" % e)
        sys.exit(2)


if __name__ == "__main__":
    main()
