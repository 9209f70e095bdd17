#!/usr/bin/env python3
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from kda import core
from tools import spec


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    p = next((x for x in spec.CLAIMED if x["id"] == a.prop), None)
    if p is None:
        print("unknown property", a.prop)
        return 2
    import importlib
    m, f = p["run"].split(":")
    return core.execute(p, getattr(importlib.import_module("checks." + m), f), a.tier, int(os.environ.get("VERIF_SEED", "1")))


sys.exit(main())
