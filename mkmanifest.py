#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
ids = ["C%02d" % i for i in range(1, 20)]
NOT = {}
CLAIMED = ids
TECH = {i: "TLA+ specification checked with TLC; traces recorded from the library validated against it" for i in ids}
NOTE = ("Every recorded run of the library built from /repo is checked by TLC to be a behaviour of the executable TLA+ specification; "
        "exploration is seeded-random plus deterministic sweeps, so the guarantee covers the explored runs; trusted: TLC, the recording harness.")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                 "technique": TECH[i], "level": "model_checking", "level_note": NOTE} for i in CLAIMED],
     "not_applicable": [{"property": i, "reason": NOT.get(i, "check not built yet")} for i in ids if i not in CLAIMED]}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
