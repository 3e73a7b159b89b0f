#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from jobs import JOBS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in JOBS:
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py {i}",
                           technique=JOBS[i].get("technique", "property-based testing: generated cases against an independent reference"),
                           level="exploration",
                           level_note=JOBS[i].get("level_note", "Bug-finding over generated cases, no proof. " + JOBS[i]["rule"][:1].upper() + JOBS[i]["rule"][1:] + ".")))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 run.py --setup",
         hooks=dict(guard="CAFES_VERIF", enable="no hook is needed: the harnesses include the headers as they are", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Every check builds its harness from /repo's headers into the git-ignored build/ directory, runs generated cases "
               "(VERIF_SEED), and replays a failure three times before it prints VIOLATION. Replay: python3 run.py --replay FILE.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
