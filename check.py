#!/usr/bin/env python3
"""check.py PROPERTY: builds the simulator from /repo's working tree, runs the property's seeded batch,
gates, minimises and reports violations, and writes evidence/PROPERTY.json.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: error of the check."""
import json, os, re, subprocess, sys, time, tempfile, hashlib, random
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import build as B
from props import PROPS

WORKERS = int(os.environ.get("SIM_JOBS", "8"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
REPLAYS = os.path.join(HERE, "replays")

def env(symbolize=False):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = f"detect_leaks=0:symbolize={1 if symbolize else 0}:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_segv=1:print_summary=0:malloc_context_size={8 if symbolize else 0}:max_allocation_size_mb=2048:detect_odr_violation=0"
    e["LC_ALL"] = "C"
    for k in ("LD_PRELOAD",): e.pop(k, None)
    return e

class Batch:
    """runs [first, first+count) of a world on several workers"""
    def __init__(self, exe, world, seed, count, secs, workers, cpu):
        self.results = {}
        self.errors = []
        def work(k):
            n = (count - k + workers - 1) // workers
            if n <= 0: return
            p = subprocess.Popen([exe, "--batch", world, "--seed", str(seed), "--first", str(k), "--stride", str(workers),
                                  "--count", str(n), "--secs", str(secs), "--tier", TIER, "--cpu", str(cpu)],
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env())
            ended = False
            out, errt = p.communicate()
            for line in out.decode("utf-8", "replace").splitlines():
                if line.startswith("R "):
                    _, i, js = line.split(" ", 2)
                    try: self.results[int(i)] = json.loads(js)
                    except ValueError: self.errors.append("bad line: " + line[:300])
                elif line == "END": ended = True
            if not ended: self.errors.append(f"worker {k} of {world} ended with {p.returncode}: " + errt.decode("utf-8", "replace")[-1500:])
        with ThreadPoolExecutor(workers) as ex: list(ex.map(work, range(workers)))

def gen_plan(exe, world, seed, idx):
    out = subprocess.run([exe, "--gen", world, "--seed", str(seed), "--first", str(idx), "--tier", TIER], stdout=subprocess.PIPE, env=env()).stdout.decode()
    parts = [p for p in out.split("---\n") if p.strip()]
    return parts[-1] if parts else out

def replay(exe, plan, cpu=20, symbolize=False, verbose=False):
    with tempfile.NamedTemporaryFile("w", suffix=".plan", delete=False) as f: f.write(plan)
    try:
        r = subprocess.run([exe, "--replay", f.name, "--cpu", str(cpu), "--tier", TIER] + (["-v"] if verbose else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(symbolize))
        lines = r.stdout.decode("utf-8", "replace").splitlines()
        try: return json.loads(lines[-1]), lines[:-1]
        except Exception: return {"outcome": "error", "cls": "no-result", "msg": r.stderr.decode("utf-8", "replace")[-2000:], "hash": "0"}, lines
    finally: os.unlink(f.name)

def split_plan(text):
    d = {"head": [], "cfg": [], "op": [], "fault": [], "sw": [], "flag": []}
    for l in text.splitlines():
        k = l.split(" ", 1)[0]
        if k == "world": d["head"].append(l)
        elif k in d: d[k].append(l)
        elif k == "schedfixed": d["flag"].append(l)
    return d
def join_plan(d): return "\n".join(d["head"] + d["cfg"] + d["op"] + d["fault"] + d["flag"] + d["sw"]) + "\n"

def minimise(exe, plan, cls, limit_s, cpu, keep_cfg):
    t0 = time.time(); n = [0]; cache = {}
    def bad(d):
        t = join_plan(d)
        if t in cache: return cache[t]
        if time.time() - t0 > limit_s: return False
        n[0] += 1
        r, _ = replay(exe, t, cpu)
        cache[t] = r.get("outcome") == "violation" and r.get("cls") == cls
        return cache[t]
    d = split_plan(plan)
    for rnd in range(3):
        before = join_plan(d)
        for part in ("fault", "sw", "op"):
            chunk = max(1, len(d[part]) // 2)
            while chunk >= 1 and d[part]:
                i = 0; changed = False
                while i < len(d[part]):
                    c = dict(d); c[part] = d[part][:i] + d[part][i + chunk:]
                    if bad(c): d = c; changed = True
                    else: i += chunk
                if chunk == 1 and not changed: break
                chunk = max(1, chunk // 2) if chunk > 1 else (1 if changed else 0)
        for i, l in enumerate(list(d["cfg"])):          # quieter configuration
            _, k, v = l.split()
            if k in keep_cfg: continue
            for nv in ("0", "1", str(int(v) // 2)):
                if abs(int(nv)) >= abs(int(v)): continue
                c = dict(d); c["cfg"] = list(d["cfg"]); c["cfg"][i] = f"cfg {k} {nv}"
                if bad(c): d = c; break
        for part in ("op", "fault"):                    # smaller arguments
            for i in range(len(d[part])):
                w = d[part][i].split()
                for j in range(2, len(w)):
                    for _ in range(12):
                        v = int(w[j]); done = True
                        for nv in (0, 1, v // 2, v - 1):
                            if nv == v or abs(nv) >= abs(v): continue
                            w2 = list(w); w2[j] = str(nv)
                            c = dict(d); c[part] = list(d[part]); c[part][i] = " ".join(w2)
                            if bad(c): d = c; w = w2; done = False; break
                        if done: break
        if join_plan(d) == before or time.time() - t0 > limit_s: break
    return join_plan(d), n[0]

def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def match_known(prop, res, known):
    for k in known:
        if k.get("status") == "known" and k["property"] == prop and re.search(k["cls"], res["cls"]) and re.search(k["match"], res["msg"], re.S): return k
    return None

def main():
    prop = sys.argv[1]
    spec = PROPS[prop]
    t0 = time.time()
    thorough = TIER == "thorough"
    known = known_findings()
    exes = {}
    for part in spec["parts"]:
        if part["exe"] not in exes: exes[part["exe"]] = B.build(part["exe"])
    t_build = time.time() - t0
    agg = {"evaluations": 0, "nontrivial": set(), "counters": {}, "cover": set(), "discarded": 0, "events": 0, "worlds": {}}
    viols, errors, known_seen = [], [], {}
    det_checked = 0
    t_sim0 = time.time()
    for part in spec["parts"]:
        exe, world = exes[part["exe"]], part["world"]
        count = part["thorough"] if thorough else part["quick"]
        secs = part.get("secs_thorough", 1500) if thorough else part.get("secs", 60)
        cpu = part.get("cpu", 20)
        ts = time.time()
        b = Batch(exe, world, SEED, count, secs, WORKERS, cpu)
        errors += b.errors
        # determinism: a sample again, on a different number of workers, has to give the same event logs
        dn = min(part.get("det", 48), count)
        b2 = Batch(exe, world, SEED, dn, secs, 3, cpu)
        for i, r in b2.results.items():
            if i in b.results:
                det_checked += 1
                if (b.results[i]["hash"], b.results[i]["cls"]) != (r["hash"], r["cls"]): errors.append(f"not deterministic: {world} run {i}: {b.results[i]['hash']}/{b.results[i]['cls']} then {r['hash']}/{r['cls']}")
        for i in sorted(b.results):
            r = b.results[i]
            agg["evaluations"] += 1
            agg["events"] += r["events"]
            for k, v in r["counters"].items(): agg["counters"][k] = agg["counters"].get(k, 0) + v
            agg["cover"].update((world, c) for c in r["cover"])
            if r["nontrivial"]: agg["nontrivial"].add((world, r["hash"]))
            if r["outcome"] == "discard": agg["discarded"] += 1
            if r["outcome"] == "error": errors.append(f"{world} run {i}: {r['msg'][:600]}")
            if r["outcome"] == "violation": viols.append((part, i, r))
        agg["worlds"][world] = {"runs": len(b.results), "seconds": round(time.time() - ts, 2)}
        if len(b.results) == 0: errors.append(f"{world}: no run finished")
    t_sim = time.time() - t_sim0
    # ---- violations: gate, classify, minimise
    reported, by_cls = [], {}
    for part, i, r in viols:
        k = match_known(prop, r, known)
        if k: known_seen.setdefault(k["id"], [k, 0]); known_seen[k["id"]][1] += 1; continue
        by_cls.setdefault((part["world"], r["cls"]), []).append((part, i, r))
    os.makedirs(REPLAYS, exist_ok=True)
    t_rep = time.time()
    for (world, cls), lst in sorted(by_cls.items(), key=lambda x: (x[0][1] == "hang", -len(x[1])))[:3]:
        ok = False
        if reported and (cls == "hang" or time.time() - t_rep > 150): continue      # one is enough; these are slow to confirm
        for part, i, r in lst[:4]:
            exe, cpu = exes[part["exe"]], part.get("cpu", 20)
            if cls == "hang": cpu = min(cpu, 10)
            plan = gen_plan(exe, world, SEED, i)
            r1, _ = replay(exe, plan, cpu); r2, _ = replay(exe, plan, cpu)
            exact = r1["hash"] == r2["hash"]
            if not (r1["outcome"] == r2["outcome"] == "violation" and r1["cls"] == r2["cls"] == cls) or (not exact and i != lst[:4][-1][1]):
                errors.append(f"violation does not reproduce: {world} run {i} {cls}: {r1['outcome']}/{r1['cls']}/{r1['hash']} vs {r2['cls']}/{r2['hash']}: {r['msg'][:300]}")
                continue
            if r1.get("sched"):                   # make the schedule explicit
                d = split_plan(plan); d["flag"] = ["schedfixed"]; d["sw"] = [l for l in r1["sched"].splitlines() if l.startswith("sw ")]
                fixed = join_plan(d)
                rf, _ = replay(exe, fixed, cpu)
                if rf["outcome"] == "violation" and rf["cls"] == cls: plan = fixed
            small, execs = minimise(exe, plan, cls, spec.get("min_s", 40), cpu, spec.get("keep_cfg", ()))
            f1, _ = replay(exe, small, cpu); f2, _ = replay(exe, small, cpu)
            if not (f1["outcome"] == f2["outcome"] == "violation" and f1["cls"] == f2["cls"] == cls and (f1["hash"] == f2["hash"] or not exact)): small = plan; f1 = r1
            fs, _ = replay(exe, small, cpu, symbolize=True)
            k = match_known(prop, f1, known)
            if k: known_seen.setdefault(k["id"], [k, 0]); known_seen[k["id"]][1] += len(lst); ok = True; break
            path = os.path.join(REPLAYS, f"{prop}-{world}-{re.sub('[^A-Za-z0-9]+', '-', cls)}-{SEED}-{i}.plan")
            msg = fs.get("msg", "") if fs.get("cls") == cls else f1["msg"]
            with open(path, "w") as f:
                f.write("".join(f"# {l}\n" for l in [f"property {prop}, world {world}, seed {SEED}, run {i}; {len(lst)} of {agg['evaluations']} runs fail this way",
                        f"replay: python3 /verif/replay.py {path}", f"violation class: {cls}"] + ([] if exact else ["the code under test itself does not repeat its steps here (it reads memory it never wrote, or addresses): every replay fails, the logs differ"]) + msg.splitlines()) + small)
            print(f"[{prop}] {cls}: {msg.splitlines()[0] if msg else ''}")
            print(f"VIOLATION property={prop} replay={path}")
            reported.append({"class": cls, "run": i, "world": world, "count": len(lst), "message": msg[:600], "replay": path, "minimiser_executions": execs})
            ok = True
            break
        if not ok and not errors: errors.append(f"could not confirm {world} {cls}")
    for kid, (k, n) in sorted(known_seen.items()):
        print(f"KNOWN-FINDING: property={prop} {k['what']} ({n} runs)")
    # listed findings are also announced when this batch did not meet them
    for k in known:
        if k.get("status") == "known" and k["property"] == prop and k["id"] not in known_seen: print(f"KNOWN-FINDING: property={prop} {k['what']} (not met in this batch)")
    wall = time.time() - t0
    c = agg["counters"]
    sim_s = c.pop("sim_ns", 0) / 1e9
    faults = {k: v for k, v in sorted(c.items()) if k.startswith(("fault_", "noise_", "crash_", "preempt", "alloc_"))}
    probes = {k: v for k, v in sorted(c.items()) if k not in faults}
    samples = []
    for part in spec["parts"][:3]:
        samples.append(gen_plan(exes[part["exe"]], part["world"], SEED, 5)[:1500])
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": spec["level"],
          "coverage": {"evaluations": agg["evaluations"], "distinct_nontrivial": len(agg["nontrivial"]), "rule": spec["rule"], "samples": samples,
                       "simulated_runs_per_hour": int(agg["evaluations"] / max(t_sim, 1e-3) * 3600), "seeds_per_hour": int(agg["evaluations"] / max(t_sim, 1e-3) * 3600),
                       "simulated_time_s": round(sim_s, 3), "events": agg["events"], "faults_injected": faults, "probes": probes,
                       "distinct_states": len(agg["cover"]), "states_measure": spec.get("states", "hash of operation kind and abstract state at each step"),
                       "discarded_runs": agg["discarded"], "determinism_pairs_compared": det_checked, "worlds": agg["worlds"],
                       "real_components": spec["real"], "stubbed_components": spec["stub"], "build_s": round(t_build, 1), "simulation_s": round(t_sim, 1), "violation_details": reported, "known_findings_seen": {k: v[1] for k, v in known_seen.items()}},
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(reported)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print(f"[{prop}] {agg['evaluations']} runs, {len(agg['nontrivial'])} distinct non-trivial, {len(agg['cover'])} states, {len(reported)} violations, {agg['discarded']} discarded, build {t_build:.0f}s, simulation {t_sim:.0f}s")
    if verbose_counters: print(json.dumps({**faults, **probes}))
    if reported: return 1
    if errors:
        for e in errors[:10]: sys.stderr.write("ERROR " + e + "\n")
        return 2
    return 0

verbose_counters = os.environ.get("SIM_V")
if __name__ == "__main__":
    sys.exit(main())
