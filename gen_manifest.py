#!/usr/bin/env python3
"""Rewrites MANIFEST.json from checks.py, properties.jsonl and the reasons below."""
import json, os, sys
sys.dont_write_bytecode = True
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ".")
from checks import CHECKS
NA = json.load(open("not_applicable.json")) if os.path.exists("not_applicable.json") else {}
props = [json.loads(l) for l in open("properties.jsonl")]
TECH = {"K09": "ThreadSanitizer and ASan/UBSan stress with randomised schedules, outputs compared across thread counts",
        "K16": "ThreadSanitizer and ASan stress of concurrent interpreter histories, outputs compared with solo runs, heap accounting",
        "K14": "ASan + UBSan and canary/slack-perturbation monitors under randomised workloads",
        "K12": "runtime monitor of Prepare against an independent acceptance rule, under ASan/UBSan, with fault injection",
        "K13": "online comparison of random operation histories with fresh runs, under ASan/UBSan"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": c.get("technique") or TECH.get(i) or "runtime monitoring: randomised workloads under ASan/UBSan, every output judged by an independent oracle",
                       "level": c.get("level", "exploration"),
                       "level_note": c.get("note") or ("Held on the executions counted in the evidence file, no more. Trusts: " + "; ".join(c.get("assumptions", [])))})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.dont_write_bytecode = True; import checks\"",
     "checks": checks, "not_applicable": na,
     "notes": "Every check builds what it needs from /repo's working tree in a temporary directory. No hooks in /repo."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
