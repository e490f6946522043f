"""Writes MANIFEST.json from the claimed properties (levels in CLAIMS)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from claims import CLAIMS, NOT_APPLICABLE, HOOKS  # noqa: E402
checks = []
for pid, (level, technique, note) in sorted(CLAIMS.items()):
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} --tier quick", "thorough_cmd": f"python3 check.py {pid} --tier thorough",
                   "technique": technique, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())]}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
