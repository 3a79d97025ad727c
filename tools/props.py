"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROPS, NA, CHECKS = [], [], []
PY = "libpyclingo/clingo/"


def prop(id, title, statement, over, qtext, why, files, mech, state=None, technique=None, note=None, na=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = state
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": why, "anchors": anchors})
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({"property": id, "quick_cmd": f"python3 checks/run.py {id} --tier quick", "thorough_cmd": f"python3 checks/run.py {id} --tier thorough",
                       "technique": technique, "level": "other", "level_note": note})


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_data.py")).read())

PROPS.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": sorted(CHECKS, key=lambda c: c["property"]), "not_applicable": NA},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in PROPS:
        jsonschema.validate(p, S)
    jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(PROPS), len(CHECKS), len(NA))
except ImportError:
    print("written, not validated")
