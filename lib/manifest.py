#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, "lib", "manifest-table.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T["checks"]:
        t = T["checks"][i]
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py" % i.lower(),
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % i.lower(),
                       "technique": t["technique"], "level": t.get("level", "model_checking"),
                       "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": T["not_applicable"].get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 lib/build.py",
     "hooks": {"guard": "LATTE_VERIF_TRACE",
               "enable": "lib/build.py compiles a content mirror of /repo/code with -DLATTE_VERIF_TRACE; the environment variable LATTE_VERIF_TRACE names the trace file",
               "source_commits": T["hook_commits"]},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; see DESIGN.md"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
