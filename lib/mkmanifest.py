"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOTES
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "TLA+ specification checked with TLC; real executions replayed and judged by TLC against it",
            "level": "model_checking",
            "level_note": NOTES.get(i, "") or
            "TLC judges every recorded execution of the real code against the TLA+ definition (exact rational arithmetic); "
            "bounded by the generated cases; trusts TLC, java/Reals.java and the recording driver."})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. No hooks in /repo are needed: the checks use the exported API only."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
