#!/opt/veriftools/pyvenv/bin/python
"""Writes ../MANIFEST.json from the check modules and the list of properties."""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(here, "lib"), os.path.join(here, "checks")]

NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    if not os.path.exists(os.path.join(here, "checks", i + ".py")):
        NA.setdefault(i, "not built yet")
        continue
    m = importlib.import_module(i)
    checks.append({
        "property": i,
        "quick_cmd": "/verif/run %s --tier quick" % i,
        "thorough_cmd": "/verif/run %s --tier thorough" % i,
        "technique": getattr(m, "TECHNIQUE", "property-based testing: generated programs against a reference model"),
        "level": m.LEVEL,
        "level_note": m.RULE,
        "evidence_file": "/verif/evidence/%s.json" % i,
    })
man = {
    "version": 1,
    "setup_cmd": "/verif/setup.sh",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items()) if k in ids],
    "notes": "All checks drive the unmodified binaries built from /repo; no hooks are needed. See DESIGN.md.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
