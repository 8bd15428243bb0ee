#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--case N --job NAME]"""
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, vrun
from specs import SPECS

ap = argparse.ArgumentParser()
ap.add_argument("pid")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--case", type=int)
ap.add_argument("--job")
a = ap.parse_args()
seed = int(os.environ.get("VERIF_SEED", "1") or "1")
tier = a.tier if a.tier in ("quick", "thorough") else "quick"
try:
    sys.exit(vrun.run_check(a.pid, SPECS[a.pid], tier, seed, a.case, a.job))
except vbuild.BuildError as e:
    print("BUILD ERROR: %s" % e)
    sys.exit(2)
