#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and properties.jsonl."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "lib")]
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {}
exec(open(os.path.join(V, "tools", "level_notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        mod = importlib.import_module("checks." + i.lower())
        checks.append({"property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "env VERIF_TIER=thorough python3 run.py %s" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": NOTE.get(i, ("TLA+ specification checked with TLC; recorded executions validated against it", ""))[0],
                       "level": getattr(mod, "LEVEL", "model_checking"),
                       "level_note": NOTE.get(i, ("", "TLC explores the specification within small constants; recorded executions of the real code are validated against it."))[1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks are needed: harnesses include /repo's headers and link its sources as they are", "source_commits": []},
     "notes": "TLA+ / TLC. run.py <ID> builds harnesses from /repo's working tree, explores the models and validates traces."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
