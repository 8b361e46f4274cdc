#!/usr/bin/env python3
"""Checks that what the simulator needs is there and builds it once."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
for t in ("clang++", "objcopy"):
    if not shutil.which(t): sys.exit("missing tool: " + t)
for srcs in sorted(set(tuple(c["src"]) for c in check.PROPS.values())):
    vs = sorted(set(v for c in check.PROPS.values() if tuple(c["src"]) == srcs for v in c["runs"]))
    for e in check.build(vs, list(srcs)).values(): os.remove(e)
print("built")
