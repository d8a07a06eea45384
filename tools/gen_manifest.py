#!/usr/bin/env python3
"""Writes MANIFEST.json from the job tables and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import jobs
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA or not jobs.jobs(i, "quick"):
        na.append({"property": i, "reason": NA.get(i, "no check yet: the harness for this property has not been written")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the compiled crate (LLVM IR from rustc, regenerated per run) with z3/cvc5 deciding every assertion; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Holds for all values within the bounds: %s Trusted: rustc's lowering to LLVM IR, the engine's semantics (validated by replaying solver models natively on every run), z3 and cvc5, the native libm for functions of inputs with few values." % jobs.bounds(i),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses use the public API only. See DESIGN.md."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
