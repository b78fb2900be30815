"""Rewrites the generated tables at the end of DESIGN.md (planted changes)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
MARK = "<!-- generated by tools/design_tail.py -->"
head = open(os.path.join(H, "DESIGN.md")).read().split(MARK)[0]
rows = []
for s in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", s, "meta.json")))
    rows.append(f"| {s} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught_by', m['property'])} |")
out = head + MARK + "\n\n| change | needs | breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(os.path.join(H, "DESIGN.md"), "w").write(out)
