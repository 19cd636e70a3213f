#!/usr/bin/env python3
"""tools/show.py EXE WORLD INDEX [SEED]: minimise a violating run and print it with its log."""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import build as B, check as C
exe = B.build(sys.argv[1]); seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
p = C.gen_plan(exe, sys.argv[2], seed, int(sys.argv[3]))
r, _ = C.replay(exe, p)
print(r["outcome"], r["cls"], r["msg"][:300])
if r.get("sched"):
    d = C.split_plan(p); d["flag"] = ["schedfixed"]; d["sw"] = [l for l in r["sched"].splitlines() if l.startswith("sw ")]
    p = C.join_plan(d)
s, n = C.minimise(exe, p, r["cls"], int(os.environ.get("MIN_S", "30")), 20, ("tw", "kind", "struct"))
r, log = C.replay(exe, s, symbolize=True, verbose=True)
print("\n".join(log[-int(os.environ.get("LOG", "25")):])); print(r["cls"], r["msg"][:3000]); print(s)
