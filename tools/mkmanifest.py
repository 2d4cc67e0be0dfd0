"""Writes MANIFEST.json: every property with a checks/<id>.py that is listed in DONE is claimed, the others are not_applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES.get(i)
    if n:
        cmd = "python3 checks/%s.py" % i.lower()
        checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd + " --thorough", "technique": n["technique"],
                       "level": "exploration", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 lib/kbuild.py fast asan", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "claimed", len(na), "not")
