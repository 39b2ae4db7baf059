#!/usr/bin/env python3
"""Generates scen/meta.json and MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON_STUB = "thread scheduling and pthread primitives, clocks and timers, randomness (all decided by the seeded simulator)"
FSSTUB = "; file-system calls pass through the simulator, which injects faults, keeps record locks and semaphores, and models what survives a machine crash (data on a private tmpfs directory)"
NETSTUB = "; TCP sockets, name look-up and select (simulated network)"
META = {}
def m(id, real, rule, state, fs=False, net=False, quick=40, level_note=""):
    META[id] = {"real": real, "rule": rule, "state": state, "stub": COMMON_STUB + (FSSTUB if fs else "") + (NETSTUB if net else ""), "quick_s": quick, "note": level_note}
exec(open(os.path.join(V, "tools", "meta_table.py")).read())
NA = {}
exec(open(os.path.join(V, "tools", "na_table.py")).read())
json.dump(META, open(os.path.join(V, "scen", "meta.json"), "w"), indent=1, sort_keys=True)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in META and os.path.exists(os.path.join(V, "scen", i + ".cc")):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and workloads of the real code in a simulator, with invariants and a history check against a reference model; exact replay of every failure",
                       "level": "exploration", "level_note": META[i]["note"] or "sampled schedules and faults within the scenario's bounds; no exhaustiveness claimed"})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
hooks = {"guard": "ECKIT_DST_SIM", "enable": "-DECKIT_DST_SIM (compile definition; off by default)", "source_commits": json.load(open(os.path.join(V, "tools", "hooks.json")))}
json.dump({"version": 1, "setup_cmd": "python3 build.py", "hooks": hooks, "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
