#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
import checks
HERE = os.path.dirname(os.path.abspath(__file__))
NA = {"C27": "Pure functions of their input: no schedule, clock, fault or I/O for a simulation to decide."}
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in checks.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
                            "level": "exploration", "level_note": checks.CHECKS[i].get("note", checks.LEVEL_NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Not claimed yet: its simulated world is being built.")})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
