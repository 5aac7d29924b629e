#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import specs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    s = specs.SPECS.get(i)
    if not s:
        na.append({"property": i, "reason": specs.NOT_YET.get(i, "no check built yet")})
        continue
    checks.append({"property": i, "quick_cmd": "python3 run.py check %s" % i, "thorough_cmd": "python3 run.py check %s" % i,
                   "technique": s.get("technique", "runtime monitoring: online comparison of executions with an independent reference model"),
                   "level": "exploration", "level_note": s.get("note", specs.NOTE)})
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "cfg(chiwawa_verif)", "enable": "RUSTFLAGS='--cfg chiwawa_verif' (native harness builds only; the command-line builds are the stock ones)", "source_commits": hooks},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
