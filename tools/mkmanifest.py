#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vlib.registry import REG, TECH
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in REG:
        continue
    checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                       technique=TECH[i], level="exploration",
                       level_note="Executions of code generated by the generator built from /repo, decided by monitors and offline oracles: "
                       "seeded random descriptions, workloads, schedules and faults; nothing is claimed about executions not observed."))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
         notes="The guarantees of a generator are those of what it generates: each check builds the generator from /repo's working tree, generates, compiles and "
         "runs programs under scripted or random workloads. No hooks in /repo are needed. Known findings and repairs: known-findings.txt.")
na = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(na):
    m["not_applicable"] = json.load(open(na))
missing = [i for i in ids if i not in REG and i not in [x["property"] for x in m["not_applicable"]]]
for i in missing:
    m["not_applicable"].append(dict(property=i, reason="check not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks; not claimed:", [x["property"] for x in m["not_applicable"]])
