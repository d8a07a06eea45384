#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, jobs.py, properties.jsonl, design_tail.md and seeded/results.json."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import jobs
T = os.path.join(R, "tools")
out = [open(os.path.join(T, "design_head.md")).read()]
ORACLE = json.load(open(os.path.join(T, "oracles.json")))
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    q = jobs.jobs(i, "quick")
    t = jobs.jobs(i, "thorough")
    hs = sorted({j["h"] for j in t})
    out.append("\n### %s %s\n\n" % (i, p["title"]))
    out.append("*Decided by* %s (%d quick jobs, %d thorough; builds %s). *Oracle:* %s *Bounds:* %s\n" % (
        ", ".join("`%s`" % h for h in hs), len(q), len(t), ", ".join(sorted({j["build"] for j in t})), ORACLE[i], jobs.bounds(i)))
out.append("\n" + open(os.path.join(T, "design_tail.md")).read())
rf = os.path.join(T, "seeded.json")
if os.path.exists(rf):
    d = json.load(open(rf))
    out.append("\n## Planted bugs\n\nEach is in `seeded/<id>`; \"caught by\" lists the checks that exit 1 with it applied.\n\n| bug | property | what it breaks | caught by |\n|---|---|---|---|\n")
    for k in sorted(d):
        m = json.load(open(os.path.join(R, "seeded", k, "meta.json")))
        out.append("| %s | %s | %s | %s |\n" % (k, m["property"], m["what_it_breaks"].replace("|", "/"), ", ".join(d[k]) or "**missed**"))
open(os.path.join(R, "DESIGN.md"), "w").write("".join(out))
