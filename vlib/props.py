#!/usr/bin/env python3
"""The properties, in one place: writes properties.jsonl and MANIFEST.json.
(The checks themselves are in registry.py.)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
from registry import CHECKS
P, M = [], {}
def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    assert len(title) <= 80, (pid, len(title))
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [m[1] for m in mech], "hook_needed": None}})
    M[pid] = (technique, note)
NA = []
exec(open(os.path.join(V, "vlib", "props_list.py")).read())
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
assert set(ids) - {n["property"] for n in NA} == set(CHECKS), (set(ids) ^ set(CHECKS))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 vlib/setup.py", "checks": [], "not_applicable": NA,
       "notes": "No hooks in /repo: every monitor sits at API boundaries (callbacks, operators, element calls) or in the sanitizer runtime. check.py <id> [--tier thorough]; check.py --replay <file> re-runs one case."}
for p in P:
    i = p["id"]
    if i in M and i in CHECKS:
        man["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json", "technique": M[i][0], "level": "exploration", "level_note": M[i][1]})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import subprocess
code = "import json,jsonschema\njsonschema.validate(json.load(open('%s/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))\nfor l in open('%s/properties.jsonl'): jsonschema.validate(json.loads(l),json.load(open('/root/.vp/PROPERTIES.schema.json')))\nprint('valid')" % (V, V)
if os.path.exists("/root/.vp/MANIFEST.schema.json"):
    subprocess.run(["python3-vt", "-c", code], check=True)
