#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "CMMCORE_VERIF_HOOKS", "enable": "no hooks were needed: the library is header-only with public state, so /repo carries no instrumentation and the define is unused", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                            "technique": c.get("technique", "seeded workload under ASan+UBSan with an online reference-model monitor"),
                            "level": "exploration", "level_note": c.get("level_note", "Held on the executions counted in the evidence file, judged by an oracle independent of /repo; says nothing about inputs the generators do not reach. Trusts clang-18, libc++, the sanitizer runtimes and the long-double reference.")})
    else:
        m["not_applicable"].append({"property": i, "reason": c_reason if (c_reason := None) else "check not built yet"})
m["notes"] = "Every check compiles its own single-TU harness from /repo's working tree; see DESIGN.md."
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
