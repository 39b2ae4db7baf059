#!/usr/bin/env python3
"""Appends the per-property part to DESIGN.md from tools/design_table.py (between the markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = {}; FALSE = []; NA = {}; OPEN = []
exec(open(os.path.join(V, "tools", "design_table.py")).read())
exec(open(os.path.join(V, "tools", "na_table.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
meta = json.load(open(os.path.join(V, "scen", "meta.json")))
out = ["## Properties\n"]
for p in props:
    i = p["id"]
    if i in D and i in meta:
        out.append("### %s %s\n\n%s\n\nReal code: %s.\n" % (i, p["title"], D[i].strip(), meta[i]["real"]))
out.append("## Not applicable\n")
for p in props:
    if p["id"] not in meta:
        out.append("- %s %s: %s" % (p["id"], p["title"], NA.get(p["id"], "not claimed yet")))
out.append("\n## False alarms corrected in the machinery or the properties\n")
out += ["- " + x for x in FALSE]
out.append("\n## Observed, not repaired and not claimed\n")
out += ["- " + x for x in OPEN]
out.append("\n## Seeded bugs and what catches them\n")
sd = os.path.join(V, "seeded")
rows = []
res = os.path.join(V, "tools", "seeded_results.json")
results = json.load(open(res)) if os.path.exists(res) else {}
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    f = os.path.join(sd, d, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), results.get(d, "not run yet")))
out.append("| change | property | breaks | caught |\n|---|---|---|---|\n" + "\n".join(rows))
f = os.path.join(V, "DESIGN.md")
t = open(f).read().split("## Properties\n")[0]
open(f, "w").write(t + "\n".join(out) + "\n")
