"""Writes MANIFEST.json from properties.jsonl and the property modules present in mc/props."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = {}
exec(open(os.path.join(H, "tools", "notes.py")).read())
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(H, "mc", "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "bin/check %s --tier quick" % i, "thorough_cmd": "bin/check %s --tier thorough" % i,
                       "technique": TECH.get(i, TECH["*"]), "level": "model_checking", "level_note": NOTE.get(i, NOTE["*"])})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
