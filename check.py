#!/usr/bin/env python3
"""check.py <property> quick|thorough      explore; exit 0 held, 1 violation
   check.py <property> replay <file>       re-execute a replay file, verbosely"""
import array, glob, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as builder

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


def cleanup_shm():
    for d in glob.glob("/dev/shm/dst.*"):
        pid = d.rsplit(".", 1)[1]
        if pid.isdigit() and not os.path.exists("/proc/%d" % int(pid)):
            shutil.rmtree(d, ignore_errors=True)


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    exe = os.path.join(VERIF, "build", prop + ".exe")
    known = known_findings(prop)
    kargs = sum((["--known", k] for k, _ in known), [])
    t0 = time.time()
    tb = builder.build([prop])
    if tier == "replay":
        sys.exit(subprocess.call([exe, "--replay", sys.argv[3]] + kargs))
    meta = json.load(open(os.path.join(VERIF, "scen", "meta.json")))[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    seconds = float(os.environ.get("DST_SECONDS", meta.get("quick_s", 40) if tier == "quick" else 700))
    workers = int(os.environ.get("DST_WORKERS", "10"))
    work = os.path.join(VERIF, "build", "work." + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    cleanup_shm()
    t1 = time.time()
    ps = [subprocess.Popen([exe, "--work", str(k), "--dir", work, "--seed", str(seed), "--seconds", str(seconds)] + kargs) for k in range(workers)]
    for p in ps:
        try:
            p.wait(timeout=seconds + 120)
        except subprocess.TimeoutExpired:
            p.kill()
    wall = time.time() - t1
    stats, sched, states = [], set(), set()
    for k in range(workers):
        f = os.path.join(work, "stats.%d.json" % k)
        if os.path.exists(f):
            stats.append(json.load(open(f)))
        for name, s in (("sched", sched), ("states", states)):
            f = os.path.join(work, "%s.%d.bin" % (name, k))
            if os.path.exists(f):
                a = array.array("Q")
                a.frombytes(open(f, "rb").read())
                s.update(a)
    tot = lambda k: sum(s[k] for s in stats)
    faults, kn, herr = {}, {}, {}
    for s in stats:
        for k, v in s["faults"].items():
            o = faults.setdefault(k, [0, 0]); o[0] += v[0]; o[1] += v[1]
        for k, v in s["known"].items():
            o = kn.setdefault(k, [0, v[1]]); o[0] += v[0]
        for k, v in s["harness_errors"].items():
            o = herr.setdefault(k, [0, v[1]]); o[0] += v[0]

    violations, unconfirmed = [], []
    for f in sorted(glob.glob(os.path.join(work, "fail.*.json"))):
        rec = json.load(open(f))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        out = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, rec["seed"]))
        m = subprocess.run([exe, "--min", f, "--out", out, "--seconds", "60" if tier == "quick" else "200"] + kargs, stdout=subprocess.PIPE, text=True)
        src = out
        if m.returncode:
            shutil.copy(f, out)
        # the gate: the file reproduces exactly the same execution in fresh processes
        ok = True
        for _ in range(2):
            r = subprocess.run([exe, "--replay", src] + kargs, stdout=subprocess.PIPE, text=True, errors="replace")
            ok = ok and (" same=1" in r.stdout)
        if not ok:
            shutil.copy(f, out)
            r = subprocess.run([exe, "--replay", out] + kargs, stdout=subprocess.PIPE, text=True, errors="replace")
            ok = " same=1" in r.stdout or (rec["class"].startswith("unlisted:") and "KNOWN id=" in r.stdout)
        rec = json.load(open(out))
        if ok:
            violations.append({"class": rec["class"], "message": rec["message"], "seed": rec["seed"], "replay": out, "choices": len(rec["choices"]), "original_choices": rec.get("original_choices", 0)})
            break
        unconfirmed.append({"class": rec["class"], "message": rec["message"], "seed": rec["seed"]})

    runs = tot("runs")
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(sched),
        "rule": meta["rule"] + " Distinct: different hash of the complete sequence of scheduling decisions, switches and faults (with the workload shape), counted over non-trivial runs.",
        "samples": [s["sample"] for s in stats if s["sample"]][:4],
        "runs_per_hour": int(runs * 3600 / wall) if wall else 0,
        "simulated_seconds": round(tot("sim_ns") / 1e9, 3),
        "scheduling_points": tot("syncs"), "context_switches": tot("switches"), "preemptions": tot("preempts"), "instrumented_memory_events": tot("mem"),
        "simulated_processes": tot("procs"), "simulated_tasks": tot("tasks"),
        "distinct_abstract_states": len(states), "abstract_state": meta["state"],
        "faults_injected": {k: {"times": v[0], "in_runs": v[1]} for k, v in sorted(faults.items())},
        "determinism_rechecks": tot("redo"), "determinism_mismatches": tot("mismatch"),
        "real_components": meta["real"], "stubbed_components": meta["stub"],
        "known_finding_hits": {k: v[0] for k, v in kn.items()},
        "harness_errors": {k: {"times": v[0], "seed": v[1]} for k, v in herr.items()},
        "unconfirmed": unconfirmed, "workers": len(stats),
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 1), "build_s": round(tb, 1),
          "explore_s": round(wall, 1), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    shutil.rmtree(work, ignore_errors=True)
    cleanup_shm()
    print("%s: %d runs (%d distinct non-trivial schedules, %d states) in %.0f s, build %.0f s; faults %s" % (prop, runs, len(sched), len(states), wall, tb, {k: v[0] for k, v in faults.items()}))
    for k, v in herr.items():
        print("note: %s x%d (seed %d)" % (k, v[0], v[1]))
    for u in unconfirmed:
        print("note: not reproduced: %s: %s (seed %d)" % (u["class"], u["message"][:300], u["seed"]))
    for k, what in known:
        print("KNOWN-FINDING: property=%s %s [%s, reproduced in %d runs]" % (prop, what, k, kn.get(k, [0])[0]))
    for v in violations:
        print("violated: %s: %s (seed %d, %d choices after minimisation)" % (v["class"], v["message"][:600], v["seed"], v["choices"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    if violations:
        sys.exit(1)
    if runs == 0 or tot("harness") > runs / 2:
        print("no verdict: the simulation could not run")
        sys.exit(3)
    sys.exit(0)


main()
