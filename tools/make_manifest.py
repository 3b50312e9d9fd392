#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks which `mc list` registers."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call([root + '/run.sh', 'build'])
have = {}
for l in subprocess.check_output([root + '/.build/mc', 'list'], text=True).splitlines():
    i, t, n = l.split('\t')
    have[i] = (t, n)
checks, na = [], []
for l in open(root + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i in have:
        t, n = have[i]
        checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
import importlib.util
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print("valid", len(checks), "checks")
except ImportError:
    print("not validated", len(checks))
