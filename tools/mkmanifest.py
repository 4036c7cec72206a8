#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and specs/."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = json.load(open(os.path.join(R, "tools", "na.json"))) if os.path.exists(os.path.join(R, "tools", "na.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(R, "specs", i + ".json")
    if not os.path.exists(f):
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
        continue
    runs = json.load(open(f))["runs"]
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "bounded symbolic execution of the real Go code (go/ssa) with symbolic inputs and schedules, decided by a SAT/SMT solver; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": f"Within the bounds of its {len(runs)} runs (threads, context-switch rounds, loop unrolling, sizes; listed in specs/{i}.json and in the evidence) every input and every schedule is decided by the solver over an encoding regenerated from /repo's current source. Trusted: the encoder and its models of sync, atomics, channels, context, time, reflection and tracing (cross-checked by native replay of witnesses); sequential consistency (races are queried separately where stated). Nothing is claimed beyond the bounds.",
    })
json.dump({"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks load /repo with an overlay and instrument a copy for the native replay. REPO=/path overrides the tree that is checked."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
