#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import checks as C
NA = getattr(C, "NOT_APPLICABLE", {})
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
out, na = [], []
for p in props:
    i = p["id"]
    if i in C.CHECKS:
        c = C.CHECKS[i]
        out.append({"property": i, "quick_cmd": "python3 run.py check %s quick" % i,
                    "thorough_cmd": "python3 run.py check %s thorough" % i,
                    "evidence_file": "evidence/%s.json" % i,
                    "technique": c.get("technique", "randomised histories on the real code under ASan+UBSan, judged after every step by an independent model (runtime monitor)"),
                    "level": "exploration",
                    "level_note": c.get("note", "Sampled executions only: the monitor judges each observed state exactly; what no execution reached is not covered. Trusts the harness model and the compiler's sanitizers.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no monitor built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": out, "not_applicable": na,
           "notes": "No hooks in /repo: the monitors observe public interfaces, element constructors/destructors, allocator and descriptor ledgers. run.py builds harness/*.cpp against /repo's working tree."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(out), "checks,", len(na), "without")
