#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]

Exit 0: the property held on everything explored.
Exit 1 and "VIOLATION property=<id> replay=<path>": it is broken.
Exit 2: the check itself failed (no verdict)."""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
a = ap.parse_args()
ctx = core.Ctx(a.prop, a.tier, a.seed)
core.watchdog(ctx)
try:
    importlib.import_module("vlib." + a.prop.lower()).check(ctx)
    rc = ctx.finish()
except core.CheckError as e:
    print("CHECK ERROR:", e, flush=True)
    rc = 1 if ctx.violations and ctx.finish() else 2
except Exception:
    traceback.print_exc()
    rc = 1 if ctx.violations and ctx.finish() else 2
sys.exit(rc)
