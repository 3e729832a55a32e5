#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from config import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = json.load(open(os.path.join(V, "tools", "na.json")))
have = {x["property"] for x in na}
checks = []
for p in props:
    i = p["id"]
    if i in have:
        continue
    if i not in CHECKS:
        na.append({"property": i, "reason": "its check is not built yet"})
        continue
    c = CHECKS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "python3 check.py %s --thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection: seeded schedule and fault search, "
                     + c.get("oracle", "independent reference models as oracle"),
        "level": c["level"],
        "level_note": "Seeded sampling of schedules and faults over the real headers; every alarm is reproduced twice and "
                      "replayed in a fresh process before it is reported. " + " ".join(c["assumptions"]),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --prebuild", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the seams are the compiler's memory-access instrumentation (-fsanitize=thread, "
              "with the simulator's own runtime behind it) and link-time wrapping of allocator, locks, clocks, rand and exit. "
              "Replay a reported file with: python3 check.py ID --replay FILE"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
