"""Write MANIFEST.json from the prop modules that exist."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props_data import P  # noqa
from levels import LEVELS, NOTES  # noqa

checks, na = [], []
for p in P:
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "props", pid.lower() + ".py")):
        checks.append({
            "property": pid, "quick_cmd": "VERIF_TIER=quick ./check %s" % pid, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": LEVELS.get(pid, ("", ""))[1] or "bounded-exhaustive exploration of the real code against a reference model",
            "level": LEVELS.get(pid, ("model_checking", ""))[0] or "model_checking",
            "level_note": NOTES.get(pid) or "Exhaustive within the bounds listed in the evidence; says nothing beyond them. "
                          "Trusts the oracle in props/%s.py and CPython." % pid.lower(),
        })
    else:
        na.append({"property": pid, "reason": "no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks drive the public API of the package in /repo directly. Defects found are in known_findings.json."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
