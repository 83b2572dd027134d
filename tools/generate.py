"""Regenerates properties.jsonl and MANIFEST.json from catalog.py."""
import json
import os

from catalog import PROPERTIES

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, missing = [], []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as handle:
    for prop, tech, note in PROPERTIES:
        handle.write(json.dumps(prop) + "\n")
        i = prop["id"]
        if os.path.exists(os.path.join(ROOT, f"mc/checks/{i.lower()}.py")):
            checks.append({
                "property": i,
                "quick_cmd": f"VERIF_TIER=quick ./run.sh {i}",
                "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                "technique": tech,
                "level": "model_checking",
                "level_note": note,
            })
        else:
            missing.append({"property": i, "reason": "check not built yet"})
manifest = {
    "version": 1,
    "setup_cmd": "./run.sh --self-test",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo: the harness owns the clock, the random "
             "generator and every cost/gradient answer from outside.  "
             "See DESIGN.md and known_findings.txt.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as handle:
    json.dump(manifest, handle, indent=1)
    handle.write("\n")
print(len(checks), "checks;", len(missing), "not built")
