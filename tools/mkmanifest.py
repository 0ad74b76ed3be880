#!/usr/bin/env python3
"""Writes MANIFEST.json from props_table.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import props_table as T
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {
    "version": 1, "setup_cmd": "true",
    "hooks": {"guard": "none", "enable": "no hooks: every seam is reached by compiling /repo's sources with memory-access instrumentation and redirecting symbols at link time", "source_commits": []},
    "checks": [{
        "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": "deterministic simulation with fault injection: " + T.PLAN[i]["how"],
        "level": "exploration",
        "level_note": T.PLAN[i].get("note", "seeded random search over workloads, schedules and faults; no exhaustiveness claimed; sequentially consistent interleavings only"),
    } for i in ids if i in T.PLAN],
    "not_applicable": [{"property": i, "reason": T.NA.get(i, "check under construction")} for i in ids if i not in T.PLAN],
}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
