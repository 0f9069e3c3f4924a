#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PYTHON, [PYTHON] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)

from fsmon import core  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("property", nargs="?")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
ap.add_argument("--replay")
ap.add_argument("--worker")
ap.add_argument("--shard", type=int, default=0)
ap.add_argument("--shards", type=int, default=1)
ap.add_argument("--soft", type=float, default=0)
ap.add_argument("--out")
a = ap.parse_args()
if a.worker:
    import json
    rep = json.load(open(a.replay)) if a.replay else None
    core.worker(a.worker, a.tier, a.seed, a.shard, a.shards, a.out, replay=rep, soft_s=a.soft)
    sys.exit(0)
sys.exit(core.main(a.property, a.tier, a.seed, a.replay))
