#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below."""
import json, os
M = "cinereus/src/matching.rs"; C = "cinereus/src/chawathe.rs"; T = "cinereus/src/tree.rs"; L = "cinereus/src/lib.rs"
P = []
def prop(id, title, statement, over, text, why, files, mech, check, note, technique, level="exploration", observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(line=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a),
                  check=check, note=note, technique=technique, level=level))
exec(open(os.path.join(os.path.dirname(__file__), "props.py")).read())
with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        l = p["line"]
        assert len(l["title"]) <= 80, l["id"]
        f.write(json.dumps(l) + "\n")
man = dict(version=1, setup_cmd=SETUP, checks=[], not_applicable=NA)
if HOOKS: man["hooks"] = HOOKS
for p in P:
    if p["check"]:
        i = p["line"]["id"]
        man["checks"].append(dict(property=i, quick_cmd=p["check"], thorough_cmd=p["check"], evidence_file=f"evidence/{i}.json",
                                  technique=p["technique"], level=p["level"], level_note=p["note"]))
json.dump(man, open("/verif/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    for l in open("/verif/properties.jsonl"):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(P), "properties")
except ImportError:
    print("jsonschema missing")
