#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
import props
V = os.path.dirname(os.path.abspath(__file__))
NA = []
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": [], "not_applicable": [{"property": a, "reason": b} for a, b in NA],
     "notes": "No hooks in /repo: instrumentation comes from compiler flags, link-time symbol interposition and the library's own seams (streams, paths). Replay a reported file with: python3 check.py replay FILE. Known and fixed defects: known_findings.json."}
for p in sorted(props.INFO):
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
      "evidence_file": "evidence/%s.json" % p, "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and histories of the real library against reference models",
      "level": "exploration", "level_note": props.INFO[p]["note"] + " Sampled by seed, not exhaustive. Assumes: " + "; ".join(props.ASSUMPTIONS[:2]) + "."})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
