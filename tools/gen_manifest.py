#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^block: limits can be overridden"], capture_output=True, text=True).stdout.split()
CL = json.load(open(os.path.join(V, "tools", "claims.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "DRPM_VERIF", "enable": "compile the library's sources with -DDRPM_VERIF (lib/dv/build.py does)", "source_commits": HOOK},
     "checks": [{"property": p, "quick_cmd": "bin/check %s quick" % p, "thorough_cmd": "bin/check %s thorough" % p,
                 "technique": CL[p]["technique"], "level": CL[p]["level"], "level_note": CL[p]["note"]} for p in props if p in CL],
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in CL]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
