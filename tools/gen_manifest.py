#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and the notes below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))
sys.dont_write_bytecode = True
import notes  # noqa: E402
import registry  # noqa: E402

V = os.path.dirname(HERE)
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        t, n = notes.NOTES[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/run_check.py %s" % i,
            "thorough_cmd": "python3 tools/run_check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": t,
            "level": "exploration",
            "level_note": n,
        })
    else:
        na.append({"property": i, "reason": notes.NA.get(i, "check not built yet (work in progress)")})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "none", "enable": "no change to /repo is needed: the checks compile /repo's sources unmodified against the monitoring stand-ins in /verif/shim",
              "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check compiles /repo's current sources itself (object cache in /verif/build, keyed by content); see DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print("%d checks, %d not claimed" % (len(checks), len(na)))
