"""Writes MANIFEST.json from properties.jsonl and the check modules that exist (python3 tools/manifest.py)."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {}   # property -> reason, for properties this technique cannot decide (filled from tools/props.py)
exec(open(os.path.join(V, "tools", "na.py")).read()) if os.path.exists(os.path.join(V, "tools", "na.py")) else None
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        m = importlib.import_module("checks." + p.lower())
        checks.append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough", "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.NOTE})
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks were needed in /repo: the seams are libc file calls (LD_PRELOAD, scratch paths only), CPython's sys.monitoring bytecode events, "
                    "threading.Lock creation, and numpy/jax random sources. Replay a violation with ./replay.sh <file>."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
