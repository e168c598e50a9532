"""Decide one property: check.py Pnn [--tier quick|thorough] [--space NAME] [--replay FILE]"""
import argparse
import importlib
import os
import sys

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--space")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from vlib import harness

    mod = importlib.import_module("checks." + a.prop.lower())
    if a.replay:
        sys.exit(harness.replay(a.prop, mod, a.replay))
    sys.exit(harness.main(a.prop, mod, a.tier, seed, a.space, a.workers))
