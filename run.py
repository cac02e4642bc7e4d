#!/usr/bin/env python3
"""Driver: run.py check PROP | replay FILE [-v] | setup | manifest

check: rebuilds simulator + library from /repo's current tree, searches seeds in parallel, minimises and
replays what it finds, writes evidence/<PROP>.json.  Exit 0 held, 1 violation, 2 no answer."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import build as B
from props import PROPS, COMPONENTS, NOT_YET

def ncpu():
    try: c = sorted(os.sched_getaffinity(0))
    except Exception: c = list(range(os.cpu_count() or 1))
    return c[:8]

def findings():
    out = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        l = l.strip()
        m = re.match(r"finding: property=(\w+) workload=(\w+) class=(\S+) match=/(.*?)/ (.*)$", l)
        if m: out.append(dict(prop=m[1], wl=m[2], cls=m[3], match=m[4], text=m[5]))
    return out

def replay_file(exe, path, verbose=False):
    p = subprocess.run([exe, "replay", path] + (["v"] if verbose else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout

def sample(exe, wl, seed, cpu):
    p = subprocess.run([exe, "log", wl, str(seed)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", env=dict(os.environ, SIM_CPU=str(cpu)))
    l = p.stdout.splitlines()
    return {"workload": wl, "seed": seed, "run": l[:2] + (l[2:42] if len(l) <= 62 else l[2:32] + ["... %d lines ..." % (len(l) - 42)] + l[-10:])}

def tracked_state():
    p = subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    h = hashlib.sha256()
    for d in ("src", "include"):
        for root, ds, fs in sorted(os.walk(os.path.join(REPO, d))):
            for f in sorted(fs):
                h.update(open(os.path.join(root, f), "rb").read())
    return p.stdout.strip(), h.hexdigest()[:16]

def check(prop):
    spec = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs = float(os.environ.get("VERIF_SECS") or (spec.get("quick", 20) if tier == "quick" else spec.get("thorough", 420)))
    t0 = time.time()
    base = os.path.join(HERE, ".build"); os.makedirs(base, exist_ok=True)
    out = tempfile.mkdtemp(prefix=prop + ".", dir=base)
    repdir = os.path.join(HERE, "replays"); os.makedirs(repdir, exist_ok=True)
    try:
        exe = B.build(out, REPO, only=spec.get("files"))
        tb = time.time()
        rc = search(prop, spec, tier, seed, secs, exe, out, repdir, t0, tb)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return rc

def search(prop, spec, tier, seed, secs, exe, out, repdir, t0, tb):
    cpus = ncpu(); n = len(cpus)
    wls = ",".join(spec["workloads"])
    base_seed = seed * 1000003
    known = [f for f in findings() if f["prop"] == prop]
    viols = []; harness = []; stats = []; kf_hit = []
    # demonstrations of the recorded findings: same class and message or it is something new
    for f in known:
        p = subprocess.run([exe, "batch", f["wl"], str(base_seed), "1", "60", "20", out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           env=dict(os.environ, SIM_CPU=str(cpus[0])))
        hit = False
        for l in p.stdout.splitlines():
            try: d = json.loads(l)
            except ValueError: continue
            if d.get("violation"):
                if d["class"] == f["cls"] and re.search(f["match"], d["msg"]): hit = True
                elif not any(d["class"] == g["cls"] and g["wl"] == f["wl"] and re.search(g["match"], d["msg"]) for g in known): viols.append(d)
            if d.get("harness"): harness.append(d)
        if hit: kf_hit.append(f)
    procs = []
    for i, c in enumerate(cpus):
        env = dict(os.environ, SIM_CPU=str(c), SIM_STOP="1")
        o = os.path.join(out, "w%d" % i); os.makedirs(o, exist_ok=True)
        procs.append((subprocess.Popen([exe, "batch", wls, str(base_seed + i), str(n), "1000000000", str(secs), o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env), o))
    covs = []
    for p, o in procs:
        try: so, se = p.communicate(timeout=secs + 240)
        except subprocess.TimeoutExpired:
            p.kill(); so, se = p.communicate(); harness.append({"msg": "worker did not finish"})
        for l in so.splitlines():
            try: d = json.loads(l)
            except ValueError: continue
            if d.get("violation"): viols.append(d)
            elif d.get("harness"): harness.append(d)
            elif d.get("stats"): stats.append(d); covs.append(d["covfile"])
        if p.returncode not in (0, 1): harness.append({"msg": "worker exit %s: %s" % (p.returncode, se[-300:])})
    wall = time.time() - t0
    tot = {}
    for k in ("runs", "hooks", "switches", "preempts", "syscalls", "vtime_ns", "stalls", "repeat_checked", "distinct", "nontrivial", "violations"):
        tot[k] = sum(s[k] for s in stats)
    faults = {}; perwl = {}; probes = 0
    for s in stats:
        for k, v in s["faults"].items(): faults[k] = faults.get(k, 0) + v
        for k, v in s["per_workload"].items(): perwl[k] = perwl.get(k, 0) + v
        probes |= s["probes"]
    cov = 0
    if covs:
        acc = 0
        for c in covs:
            try: acc |= int.from_bytes(open(c, "rb").read(), "little")
            except OSError: pass
        cov = bin(acc).count("1")
    # report
    reported = []; seen = set()
    viols.sort(key=lambda d: (d["workload"], d["class"], d["seed"]))
    for d in viols:
        key = (d["workload"], d["class"])
        if key in seen: continue
        seen.add(key)
        if len(reported) >= 3: break
        dst = os.path.join(repdir, "%s-%s-%s.replay" % (prop, d["workload"], d["seed"]))
        m = subprocess.run([exe, "min", d["trace"], dst, "25"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if m.returncode: shutil.copy(d["trace"], dst)
        rc, txt = replay_file(exe, dst)          # in a fresh process
        if rc != 1:
            shutil.copy(d["trace"], dst); rc, txt = replay_file(exe, dst)
        if rc != 1:
            harness.append({"msg": "replay of %s in a fresh process gave %s" % (dst, txt[:200])}); continue
        d["replay"] = dst; reported.append(d)
    hours = max(secs, 1e-9) / 3600
    nh = len(harness)
    head, treehash = tracked_state()
    ev = {
        "property_id": prop, "tier": tier,
        "verdict": "fail" if reported else "error" if nh or not tot.get("runs") else "pass",
        "kind": "exploration", "wall_s": round(wall, 1), "seed": seed,
        "coverage": {
            "technique": "deterministic simulation with fault injection",
            "simulated_runs": tot["runs"], "runs_and_seeds_per_hour": int(tot["runs"] / hours),
            "seeds": "%d + k, k < %d" % (base_seed, tot["runs"]),
            "simulated_time_s": round(tot["vtime_ns"] / 1e9, 1), "simulated_steps": tot["hooks"],
            "faults_injected": dict(sorted(faults.items())),
            "thread_switches": tot["switches"], "forced_preemptions": tot["preempts"], "injected_stalls": tot["stalls"], "simulated_system_calls": tot["syscalls"],
            "distinct_interleavings": tot["distinct"],
            "distinct_measure": "distinct sequences of (thread from, thread to, code address switched away from) per workload, summed over workers with disjoint seeds",
            "switch_pair_coverage": cov, "switch_pair_measure": "distinct (preempted address, resumed address) pairs, hashed to 2^20",
            "nontrivial_runs": tot["nontrivial"], "runs_per_workload": perwl, "rare_conditions_hit": [i for i in range(64) if probes >> i & 1],
            "runs_repeated_for_determinism": tot["repeat_checked"], "harness_errors": nh,
            "components": {"real": spec.get("real", COMPONENTS["real"]), "stub": spec.get("stub", COMPONENTS["stub"])},
            "repo_head": head, "source_hash": treehash, "build_s": round(tb - t0, 1),
            "known_findings_reproduced": [f["text"] for f in kf_hit],
        },
        "bounds": spec.get("bounds", ""),
        "assumptions": COMPONENTS["assumptions"],
        "replays": [d["replay"] for d in reported],
        "samples": [sample(exe, w, base_seed, cpus[0]) for w in spec["workloads"][:3]],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(adapt(ev), f, indent=1)
    for f in kf_hit: print("KNOWN-FINDING: property=%s %s" % (prop, f["text"]))
    for d in reported:
        print("%s: workload %s seed %s: %s: %s" % (prop, d["workload"], d["seed"], d["class"], d["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, d["replay"]))
    print("%s %s: %d runs (%d/h), %d distinct interleavings, %.0f s simulated, %d faults, %d preemptions, wall %.0f s" %
          (prop, tier, tot["runs"], tot["runs"] / hours, tot["distinct"], tot["vtime_ns"] / 1e9, sum(faults.values()), tot["preempts"], wall))
    if reported: return 1
    for h in harness[:5]: print("HARNESS " + json.dumps(h)[:500], file=sys.stderr)
    if not tot["runs"] or nh > max(3, tot["runs"] / 200): return 2
    return 0

def adapt(ev):
    c = ev["coverage"]
    return {"property": ev["property_id"], "tier": ev["tier"] if ev["tier"] in ("quick", "thorough") else "quick", "seed": ev["seed"], "level": "exploration",
            "verdict": ev["verdict"], "wall_s": ev["wall_s"], "violations": len(ev["replays"]), "replays": ev["replays"], "assumptions": ev["assumptions"], "bounds": ev["bounds"],
            "coverage": dict(c, evaluations=c.pop("simulated_runs"), distinct_nontrivial=c.pop("nontrivial_runs"),
                rule="One evaluation is one simulated execution of a workload program generated from the seed, under the schedule, timing and faults chosen by the seed. "
                     "It is distinct when its sequence of (thread from, thread to, code address) switches differs from every earlier one of its worker and workload, non-trivial when it had more than one switch or an injected fault.",
                samples=ev["samples"])}

def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        d = tempfile.mkdtemp(); 
        try: print(B.build(d, REPO))
        finally: shutil.rmtree(d)
        return 0
    if a[:1] == ["check"]: return check(a[1])
    if a[:1] == ["manifest"]:
        m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [], "notes": "See DESIGN.md. One driver: run.py check <property>; replay a failure with: python3 run.py replay FILE [-v]"}
        for k in sorted(PROPS):
            m["checks"].append({"property": k, "quick_cmd": "python3 run.py check " + k, "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + k,
                "technique": "deterministic simulation with fault injection: seeded search over schedules and faults" , "level": "exploration", "level_note": PROPS[k]["note"]})
        ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
        m["not_applicable"] = [{"property": i, "reason": NOT_YET.get(i, "")} for i in ids if i not in PROPS]
        json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1); return 0
    if a[:1] == ["replay"]:
        d = tempfile.mkdtemp()
        try:
            exe = B.build(d, REPO); rc, t = replay_file(exe, a[1], "-v" in a); print(t)
        finally: shutil.rmtree(d)
        return rc
    print(__doc__); return 2
if __name__ == "__main__": sys.exit(main())
