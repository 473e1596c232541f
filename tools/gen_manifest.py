#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the tables below and properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}
NA = {}
exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {"version": 1,
     "setup_cmd": "python3 -c 'from jsa import facts; facts.build_driver(); facts.extract()'",
     "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        tech, note = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "./run.sh %s quick" % i,
                            "thorough_cmd": "./run.sh %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": tech, "level": "other", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
for i in CHECKS:
    assert i in ids, i
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
