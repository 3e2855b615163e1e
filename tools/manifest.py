#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, tools/checks.json and tools/levels.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
checks = json.load(open(V + "/tools/checks.json"))
lev = json.load(open(V + "/tools/levels.json"))
m = {"version": 1, "setup_cmd": "python3 tools/check.py setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        t, n = lev[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py " + i,
                            "thorough_cmd": "python3 tools/check.py %s --thorough" % i,
                            "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": lev.get(i, "Not built yet.")})
m["notes"] = "No hooks in /repo: every check drives the public API of the library, built from /repo's working tree by tools/check.py. Failures are shrunk and saved in /verif/replays; 'python3 tools/check.py <ID> --replay <file>' replays one."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
