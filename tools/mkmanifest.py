#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and checks.py."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

checks, na = [], []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid not in CHECKS:
        na.append({"property": pid, "reason": "no check has been built for it yet"})
        continue
    c = CHECKS[pid]
    checks.append({
        "property": pid,
        "quick_cmd": "python3 /verif/run.py %s --tier quick" % pid,
        "thorough_cmd": "python3 /verif/run.py %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["note"],
    })
out = {"version": 1, "setup_cmd": "python3 /verif/run.py --setup", "checks": checks,
       "not_applicable": na,
       "notes": "All checks compile /repo's working tree with sanitizers, link it with a harness "
                "that uses the public API only, and enumerate a bounded space completely. No hooks "
                "are needed in the library: system calls are interposed at link time."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
