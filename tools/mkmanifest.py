"""writes MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
LEVEL = {}
NOTE = {}
exec(open(os.path.join(HERE, "tools", "levels.py")).read())
checks = []
for p in props:
    i = p["id"]
    lvl, tech, note = LEVELS.get(i, DEFAULT)
    checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": lvl, "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3, sys; sys.path.insert(0, \".\"); import pyvc.smt'",
           "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo. See DESIGN.md."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
