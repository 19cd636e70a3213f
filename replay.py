#!/usr/bin/env python3
"""replay.py FILE [-v]: re-executes a replay file against /repo's working tree."""
import sys, os
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import check, build
from props import PROPS
text = open(sys.argv[1]).read()
world = [l.split()[1] for l in text.splitlines() if l.startswith("world ")][0]
part = [p for s in PROPS.values() for p in s["parts"] if p["world"] == world][0]
r, log = check.replay(build.build(part["exe"]), text, part.get("cpu", 20), symbolize=True, verbose="-v" in sys.argv)
print("\n".join(log))
print(r["outcome"], r["cls"], r["hash"]); print(r["msg"])
sys.exit(1 if r["outcome"] == "violation" else 0)
