#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE, HOOK_COMMITS
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS=--cfg verif_hooks with SYNEDRION_VERIF_HOOKS naming the generated hooks.rs (run.py does both); the checks compile generated views whose sources are symlinks into /repo/src",
               "source_commits": HOOK_COMMITS},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
                            "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
