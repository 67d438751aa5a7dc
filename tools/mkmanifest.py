#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a module in mbv/props."""
import json, os
V = "/verif"
NOTES = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists("%s/mbv/props/%s.py" % (V, i.lower())):
        n = NOTES.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s quick" % i,
            "thorough_cmd": "python3 run.py %s thorough" % i,
            "technique": n.get("technique", "TLA+ specification checked by TLC; generated behaviours replayed on the real code and the recorded traces validated against the specification by TLC"),
            "level": "model_checking",
            "level_note": n.get("note", "Exhaustive on the specification within the stated constants; on the code, every executed trace is decided by TLC. Trusts TLC, the harness' recording of arguments and results, and the compiler."),
        })
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses observe through the public API and through link-time stand-ins (see DESIGN.md)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
