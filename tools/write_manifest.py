"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C27": "coverage of API calls by property-based generation on an "
           "ASan/UBSan build (fuzzing)",
    "C31": "stateful property-based testing against the single-call answers",
    "C18": "stateful property-based testing (differential)",
    "C16": "property-based testing with exact support invariants and "
           "sequential goodness-of-fit tests",
}
DEFAULT = "property-based testing against a reference model"
ids = [json.loads(l)["id"] for l in open(f"{VERIF}/properties.jsonl")]
checks, na = [], []
for i in ids:
    path = f"{VERIF}/props/{i.lower()}.py"
    if not os.path.exists(path):
        na.append({"property": i, "reason": "no check built yet"})
        continue
    src = open(path).read()
    m = re.search(r'^TECHNIQUE = "(.*)"$', src, re.M)
    n = re.search(r'^LEVEL_NOTE = "(.*)"$', src, re.M)
    checks.append({
        "property": i,
        "quick_cmd": f"./check.py {i} --tier quick",
        "thorough_cmd": f"./check.py {i} --tier thorough",
        "technique": m.group(1) if m else TECH.get(i, DEFAULT),
        "level": "exploration",
        "level_note": n.group(1) if n else
        "generated-input search with shrinking; an explicit oracle decides "
        "each case; nothing beyond the generated cases is claimed"})
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
       "not_applicable": na}
with open(f"{VERIF}/MANIFEST.json", "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", "not yet:", [x["property"] for x in na])
