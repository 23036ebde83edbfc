"""Writes MANIFEST.json from the lists below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deductive verification: C++ contracts discharged by z3 over LLVM IR of the real code"
NOTE = {}
import sys
sys.path.insert(0, os.path.join(V, "tools"))
from claims import CLAIMS, NOT_APPLICABLE
checks = []
for pid, note in CLAIMS.items():
    checks.append({"property": pid, "quick_cmd": "python3-vt check.py %s --tier quick" % pid,
                   "thorough_cmd": "python3-vt check.py %s --tier thorough" % pid,
                   "technique": TECH, "level": "proof", "level_note": note})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE.items()],
           "notes": "Every check compiles its harness against /repo's current sources on each run; known-findings.txt lists findings."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
