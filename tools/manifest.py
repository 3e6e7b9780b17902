#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the check binaries that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# id: (technique, level note)
T = json.load(open(V + "/tools/techniques.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if os.path.exists(f"{V}/harness/src/bin/{p.lower()}.rs") and p in T:
        t, n = T[p]
        checks.append({"property": p, "quick_cmd": f"bash run.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p}",
                       "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "--cfg verif_hooks (rustc)", "enable": "harness/.cargo/config.toml passes --cfg verif_hooks to every crate of the harness build", "source_commits": json.load(open(V + "/tools/hooks.json"))},
     "notes": "A check is one binary of /verif/harness. `bash run.sh CNN --replay FILE` replays a case, `--only SUB` runs one sub-check, VERIF_SEED, VERIF_TIER and VERIF_SCALE steer generation."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
