"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (a development helper; no check runs it)."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
checks, na = [], []
for p in PROPS:
    s = p["id"].lower()
    if os.path.exists(f"{root}/checks/{s}.py"):
        checks.append({"property": p["id"], "quick_cmd": f"./run.sh {s} quick", "thorough_cmd": f"./run.sh {s} thorough",
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"], "evidence_file": f"evidence/{p['id']}.json"})
    else:
        na.append({"property": p["id"], "reason": p.get("na", "no check has been built for this property yet")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import pglast, networkx, pandas'",
     "hooks": {"guard": "", "enable": "", "source_commits": []}, "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check drives the unmodified library. known_findings.json lists genuine defects that were recorded (findings) or repaired (fixed)."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
sys.path.insert(0, "/opt/veriftools/pyvenv/lib/python3.12/site-packages")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(root + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), sch)
    print("valid", len(checks), "checks", len(na), "na")
except ImportError:
    print("no jsonschema")
