#!/usr/bin/env python3
"""Writes MANIFEST.json from the table in check.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
import check
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NOTES = check.NOTES
checks = []
for p in props:
    if p in check.TABLE:
        tech, note = NOTES[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": tech,
                       "level": check.TABLE[p][1], "level_note": note})
na = [{"property": p, "reason": check.NOT_APPLICABLE.get(p, "check not built yet")} for p in props
      if p not in check.TABLE]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC and bound to the crate by the driver in harness/ "
              "(public API only, no hooks in /repo) and to the fpcalc and compare programs by their output."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
