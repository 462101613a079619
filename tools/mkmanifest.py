#!/usr/bin/env python3
"""Write MANIFEST.json for the claimed properties."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
exec(open(f"{here}/tools/claims.py").read())   # CLAIMS: id -> (technique, level, note)
checks = []
for p in props:
    if p["id"] in CLAIMS:
        t, l, n = CLAIMS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": f"bin/check.sh {p['id']} quick",
                       "thorough_cmd": f"bin/check.sh {p['id']} thorough",
                       "technique": t, "level": l, "level_note": n})
na = [{"property": p["id"], "reason": "not built yet"} for p in props if p["id"] not in CLAIMS]
json.dump({"version": 1, "setup_cmd": "bin/build.sh", "checks": checks, "not_applicable": na,
           "notes": "bin/replay.sh FILE replays a violation. known-findings.txt lists the genuine defects found. No hooks: only the public API is used."},
          open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
