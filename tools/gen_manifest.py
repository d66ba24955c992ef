#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks = []
for i in ids:
    if i not in PROPS:
        NA.setdefault(i, "No check yet.")
        continue
    p = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py " + i,
        "thorough_cmd": "python3 run.py " + i + " --tier thorough",
        "technique": p.get("technique", "runtime monitoring: ASan+UBSan build under random workloads, with an independent "
                                        "reference model as online oracle"),
        "level": "exploration",
        "level_note": p.get("note", "Held on every execution observed; inputs outside the generator's bounds are not covered. "
                                    "Trusts the VAL stand-in (valshim) and the reference model in harness/ref.h."),
    })
m = {"version": 1, "setup_cmd": "python3 -m py_compile run.py harness/props.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "run.py builds /repo's working tree (plus harness/ and valshim/) into build/ and runs the check."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
