#!/usr/bin/env python3
"""tools/try.py EXE WORLD COUNT [SEED]: quick look at a world: outcome classes and counters."""
import sys, os, collections
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import build as B, check as C, time
exe = B.build(sys.argv[1]); t = time.time()
C_CPU = int(os.environ.get('CPU', '20'))
b = C.Batch(exe, sys.argv[2], int(sys.argv[4]) if len(sys.argv) > 4 else 1, int(sys.argv[3]), 300, int(os.environ.get("NW","8")), C_CPU)
cl = collections.Counter(); ex = {}; ct = collections.Counter(); nt = set(); cov = set()
for i, r in sorted(b.results.items()):
    cl[(r["outcome"], r["cls"])] += 1
    ex.setdefault((r["outcome"], r["cls"]), []).append((i, r["msg"]))
    if r["nontrivial"]: nt.add(r["hash"])
    cov.update(r["cover"])
    for k, v in r["counters"].items(): ct[k] += v
print(f"{len(b.results)} runs {time.time()-t:.1f}s nontrivial {len(nt)} states {len(cov)}")
import subprocess, re
def sym(m):
    a = re.findall(r"\+(0x[0-9a-f]+)\)", m)[:18]
    if not a: return m[:700]
    o = subprocess.run(["addr2line", "-Cfsp", "-e", exe] + a, capture_output=True, text=True).stdout
    for _ in range(6): o = re.sub(r"<[^<>\n]*>", "", o)
    return m[:110] + "\n" + "\n".join(x[:140] for x in o.split("\n"))
for k, v in cl.items():
    print(v, k)
    if k[0] != "ok":
        for i, m in ex[k][:4]: print("   run", i, sym(m).replace("\n", "\n        "))
print({k: v for k, v in ct.items() if not k.startswith("kind_")}); print(b.errors[:3])
