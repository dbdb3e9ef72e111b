#!/usr/bin/env python3-vt
"""replay.py FILE: run the recorded failing case again on the code in /repo."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
with open(sys.argv[1]) as f:
    d = json.load(f)
if not d.get("oracle"):
    print(json.dumps(d, indent=1))
    sys.exit(1)
if d.get("stdlib"):
    os.environ["FORCE_STDLIB_ONLY"] = "1"
sys.path.insert(0, HERE)
from native import search as N

m = N.judge(d["oracle"], N.dec(d["args"]))
print(m or "the case passes on this tree")
sys.exit(1 if m else 0)
