#!/usr/bin/env python3
"""Regenerate MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import PROPERTIES, NOT_APPLICABLE, HOOK_COMMITS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPERTIES:
        continue
    s = PROPERTIES[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py --property " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py --property " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation: seeded search over histories, memory placements and injected faults against a reference model; replayable minimised traces",
        "level": s.get("level", "exploration"),
        "level_note": s.get("note", "Sampled, not exhaustive: real code under a seeded simulator, invariants after every step, exact replay.") ,
    })
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "check under construction")} for i in ids if i not in PROPERTIES]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "hooks": {"guard": "MITO_SIM", "enable": "check.py compiles the harness with -DMITO_SIM", "source_commits": HOOK_COMMITS},
     "not_applicable": na,
     "notes": "Known findings and repaired defects: known-findings.json. Design, per-property oracles and what catches which planted change: DESIGN.md."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
