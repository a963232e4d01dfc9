#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dst import props
T = ("deterministic simulation with fault injection: seeded search over schedules, timing, stalls and configurations of the "
     "real code inside one SystemC simulation per run; history checked against a reference model; ")
NA = {"P25": "a Python text generator run once: it has no concurrency, time, I/O schedule or multi-party behaviour for a simulator to control"}
from tools.techtext import TECH
allp = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
P = props.all_props()
checks = []
na = []
for i in allp:
    if i in P:
        checks.append(dict(property=i, quick_cmd="python3 -m dst.main check %s --tier quick" % i,
                           thorough_cmd="python3 -m dst.main check %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=T + TECH[i][0], level="exploration",
                           level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
m = dict(version=1, setup_cmd="python3 -m dst.main build", checks=checks,
         not_applicable=na,
         notes="No hooks in /repo: clocks, ports and the SystemC scheduler's order are driven from outside the sources (see DESIGN.md).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
