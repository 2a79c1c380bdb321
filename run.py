#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: decide one property of /repo's working tree."""
import argparse, importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
from checks import REGISTRY


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    mod, fn = REGISTRY[a.prop]
    ctx = core.Ctx(a.prop, a.tier, a.seed)
    try:
        getattr(importlib.import_module("checks." + mod), fn)(ctx)
    except core.Violation as v:
        ctx.evidence(1)
        print("rejected:", v.what)
        print("VIOLATION property=%s replay=%s" % (a.prop, v.replay), flush=True)
        return 1
    except core.CheckError as e:
        print("CHECK ERROR:", e, flush=True)
        return 2
    for k in ctx.known:
        if k.get("status") == "open":
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    ctx.evidence(0)
    ctx.log("held: %d model states, %d traces / %d events accepted" % (ctx.states, ctx.traces, ctx.events))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
