#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props_meta import META
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks = [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
           "technique": META[p["id"]]["technique"], "level": "exploration", "level_note": META[p["id"]]["note"]} for p in props if p["id"] in META]
na = [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in META]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the monitors observe the unmodified code through its public API and a simulated network."},
          open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
