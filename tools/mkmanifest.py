#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.join(HERE, "..")
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
from props import PROPS, PURE_REASON, PENDING
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS: continue
    s = PROPS[i]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                   "evidence_file": f"evidence/{i}.json",
                   "technique": "deterministic simulation with fault injection: seeded search over " + s["search"],
                   "level": s["level"], "level_note": s["note"]})
na = [{"property": i, "reason": PURE_REASON.get(i) or PENDING} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "clang++ --version && ninja --version && python3 -m py_compile build.py check.py replay.py",
     "hooks": {"guard": "SDSL_SIM", "enable": "-DSDSL_SIM (set by build.py): the simulator chooses the default buffer size of int_vector_buffer and may limit explicit ones, vectors are stored and loaded in small blocks; every other seam is an interposed symbol of the C/C++ runtime or compiler instrumentation", "source_commits": ["3444e6a", "8af7b90", "2e268de", "3f798f7"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
