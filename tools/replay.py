#!/usr/bin/env python3
"""replay.py FILE: rebuilds the simulator from /repo's working tree and replays a violation file; exit 1 and the log when it violates again."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
d = json.load(open(sys.argv[1])); exe = check.build([d["variant"]], check.PROPS[d["property"]]["src"])[d["variant"]]
r = check.replay(exe, d["property"], d["scenario"], d["tape"]); os.remove(exe)
print(r["log"])
print("class %s hash %s (recorded: %s %s)" % (r["class"], r["hash"], d["class"], d["hash"]))
print("reproduced exactly" if r["violated"] and r["class"] == d["class"] and r["hash"] == d["hash"] else "violated, differently" if r["violated"] else "no violation")
sys.exit(1 if r["violated"] else 0)
