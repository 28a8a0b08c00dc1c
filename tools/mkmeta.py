"""Regenerate properties.jsonl and MANIFEST.json from tools/statements.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from statements import P
NOTE = ("Search over generated inputs against an explicit oracle: no proof of absence. Bounds and tolerances are those in "
        "the property's quantifier; the thorough command runs 20 times as many cases.")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="./setup.sh",
         checks=[dict(property=p["id"], technique=p.pop("technique", "property-based testing: Hypothesis generators and shrinking, deciding oracle = independent reference model / round-trip / metamorphic relation"),
                      level="exploration", level_note=NOTE,
                      quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough",
                      evidence_file=f"evidence/{p['id']}.json") for p in P],
         not_applicable=[])
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
