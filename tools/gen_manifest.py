#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(f"{H}/properties.jsonl")]
NA = {}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p, "quick_cmd": f"python3 run.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p}",
                 "evidence_file": f"evidence/{p}.json", "technique": CHECKS[p].get("technique", "runtime monitoring: randomized histories against a reference model, under ASan+UBSan and MSan builds"),
                 "level": CHECKS[p]["level"], "level_note": CHECKS[p].get("note", "Held on the executions explored (counts in the evidence file); says nothing about inputs the generator did not produce. Trusts the reference model in harness/" + CHECKS[p]["harness"] + ", the compilers and sanitizer runtimes.")}
                for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")} for p in props if p not in CHECKS],
     "notes": "No hooks: every monitor observes the public API, the allocator (link-time --wrap) and the output streams. thorough = same command with VERIF_TIER=thorough (larger case counts). Replay a violation with replay.py."}
json.dump(m, open(f"{H}/MANIFEST.json", "w"), indent=1); print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
