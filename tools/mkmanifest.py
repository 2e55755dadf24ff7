"""Writes MANIFEST.json from the properties that have a check (vp/props/cNN.py)."""
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(root, "properties.jsonl"))]
checks = []
missing = []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(root, "vp", "props", pid.lower() + ".py")):
        missing.append(pid)
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"VERIF_TIER=quick ./check {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "property-based testing: generated cases (hypothesis) against an "
                     "independent oracle, shrunk failures written as replay files",
        "level": "exploration",
        "level_note": "searches a bounded generated input space; see DESIGN.md for the oracle "
                      "and the bounds of this property",
    })
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "All checks import the code from /repo/src as it is. known_findings.txt lists "
             "the defects that were found and repaired.",
}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks; without:", missing)
