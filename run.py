#!/usr/bin/env python3-vt
"""run.py <property> [--tier quick|thorough] [--seed N] | run.py --replay FILE"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["PYTHONHASHSEED"] = "0"
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ["PYTHONPATH"] = HERE
os.chdir(HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--procs", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    from harness import core
    if a.replay:
        return core.replay(a.replay)
    return core.run_check(a.property, a.tier, a.seed, a.procs)


if __name__ == "__main__":
    sys.exit(main())
