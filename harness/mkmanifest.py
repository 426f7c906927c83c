"""Writes MANIFEST.json from kinds.py (run by hand after changing the list of checks)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from kinds import META, NOT_APPLICABLE
PY = "/opt/venv/bin/python"
NOTE = META.get("_note", "")
checks = []
for p in sorted(k for k in META if k.startswith("C")):
    m = META[p]
    checks.append({"property": p, "quick_cmd": "%s harness/run.py %s quick" % (PY, p), "thorough_cmd": "%s harness/run.py %s thorough" % (PY, p),
                   "technique": m["technique"], "level": "model_checking", "level_note": m["note"], "evidence_file": "evidence/%s.json" % p})
out = {"version": 1, "setup_cmd": "%s harness/setup.py" % PY, "checks": checks, "not_applicable": NOT_APPLICABLE,
       "notes": "No hooks: every check observes the public API of the unmodified library imported from /repo."}
json.dump(out, open(os.path.join(os.path.dirname(HERE), "MANIFEST.json"), "w"), indent=1)
