#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}
exec(open(os.path.join(HERE, "tools", "checks.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        tech, level, note = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NOT_CLAIMED.get(i, "its monitor is not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "verifperturb", "enable": "no source hooks are committed to /repo: harness/cmd/instr generates a build overlay from the current working tree (statement-level schedule perturbation and poisoning of released buffers), compiled with -tags verifperturb -overlay", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Runtime monitoring only: the real client runs against an in-memory or loopback stand-in for memcached; see DESIGN.md. Known findings and repaired defects: KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not claimed")
