#!/usr/bin/env python3
"""builds the front end and parses the tree once, so that the checks start warm (each check also does this on demand)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from kda import cxx
cxx.load("/")
for s in sorted(x for x in os.listdir(os.path.join(cxx.VERIF, "spec")) if x.endswith(".cpp")):
    cxx.load(spec=[s])
cxx.purge_cache()
print("ready")
