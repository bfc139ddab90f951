#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
f = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(f):
    NA = json.load(open(f))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh " + i,
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
        "technique": "deterministic simulation with fault injection: seeded schedule and fault search over the real program, judged by a reference model at every store change and answer",
        "level": "exploration",
        "level_note": "Holds on every simulated execution explored (about 1500 or more per quick run, each a distinct schedule). Trusts: the simulator's model of scheduler, clock, network, disk, process and (where used) MongoDB server; Go 1.27 runtime instead of 1.23; interleaving at statement granularity.",
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "none in /repo: the checks compile /repo's working tree under a -overlay that inserts the hooks (tools/instrument)",
        "enable": "check.sh runs tools/instrument and builds sim/ with -overlay and -modfile",
        "source_commits": [],
    },
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
    "notes": "check.sh replay FILE executes a stored failing run again. known-findings.txt lists repaired and known defects.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
