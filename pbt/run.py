"""python3-vt -m pbt.run <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import importlib
import os
import sys


def load(pid):
    return importlib.import_module("pbt.props." + pid.lower()).PROPERTY


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--shard", type=int)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    from . import engine

    prop = load(a.property)
    if a.replay:
        return engine.replay(prop, a.replay)
    if a.shard is not None:
        engine.run_shard(prop, a.tier, int(a.seed), a.shard, a.out)
        return 0
    return engine.run(prop, a.tier, int(a.seed))


if __name__ == "__main__":
    sys.exit(main())
