#!/usr/bin/env python3
"""writes MANIFEST.json from the properties that have a check"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools/notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES["checks"]:
        n = NOTES["checks"][i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NOTES["not_applicable"].get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: drivers include the library's source and observe user callbacks, public results and intercepted allocation, file and thread functions."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
