#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import REGISTRY
import tools_notes as N

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in REGISTRY:
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "technique": N.NOTES.get(i, ("TLA+ specification checked with TLC; recorded traces of the real code validated against it", ""))[0],
                       "level": "model_checking",
                       "level_note": N.NOTES.get(i, ("", N.DEFAULT))[1] or N.DEFAULT})
    else:
        na.append({"property": i, "reason": N.NA.get(i, "not built yet")})
m = {"version": 1,
     "setup_cmd": "java -version && g++ --version && python3 -c 'import checks' && test -f /opt/veriftools/tla/tla2tools.jar",
     "checks": checks, "not_applicable": na,
     "notes": "Every check compiles its drivers from /repo's working tree; nothing is hooked into /repo. Replays: tools/show.py out/<file>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
