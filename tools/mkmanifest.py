#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, subprocess, sys, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = {}
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks = []
for p in props:
    if p in CLAIMED:
        checks.append({
            "property": p,
            "quick_cmd": f"bash check.sh {p}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p}",
            "evidence_file": f"evidence/{p}.json",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, segmentations and faults; " + CLAIMED[p][0],
            "level": "exploration",
            "level_note": CLAIMED[p][1],
        })
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "not claimed yet")} for p in props if p not in CLAIMED]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "cfg(plusendi_sim)", "enable": "RUSTFLAGS=\"--cfg plusendi_sim\" (tools/build.sh)", "source_commits": SEAMS},
    "checks": checks,
    "not_applicable": na,
}
open(os.path.join(here, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + "\n")
