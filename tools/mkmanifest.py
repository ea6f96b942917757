#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/plan.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from plan import PLAN, TECH
NA = {}
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        tech, note = TECH.get(i, ("runtime monitoring: reference-model oracle over random and hostile executions of the real crate", ""))
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
            evidence_file=f"evidence/{i}.json", technique=tech, level="exploration",
            level_note=("Holds on every execution observed (counts, signatures and event totals are in the evidence file); not a proof for unobserved inputs. " + note).strip()))
    else:
        na.append(dict(property=i, reason=NA.get(i, "monitor not built yet")))
m = dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na,
    notes="No hooks in /repo: every monitor observes through the public API (traits Optimizer, Observer, LinearSolver, Variable, Residual, NoiseModel and RobustCost are user-implementable, so the monitors are plugged in as implementations). /repo commits are 'fix:' repairs only, listed in known_findings.txt.")
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "..", "MANIFEST.json"), "a").write("\n")
