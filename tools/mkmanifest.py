"""Writes MANIFEST.json from lib/plan.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0, os.path.join(H, "lib"))
from plan import PLAN, NOTES
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks = [
    {
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "technique": "TLA+ specification checked with TLC; behaviours generated by TLC are executed on the "
                     "package and the recorded traces are validated by TLC",
        "level": "model_checking",
        "level_note": NOTES.get(p["id"], "")
        + " Assumes the bounds of the generated behaviours (see DESIGN.md) and trusts TLC, the arithmetic"
          " overrides (IEEE doubles in Java) and the driver that performs the calls.",
    }
    for p in props if p["id"] in PLAN
]
na = [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in PLAN]
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
