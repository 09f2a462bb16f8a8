#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the checks present (checks/cNN.py)."""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
V = lib.VERIF
NA = {
    "C22": "The property is pointwise accuracy of transcendental functions (no states, transitions or histories): a TLA+/TLC "
           "specification would have to be a second double-precision implementation of the same functions, i.e. a reference "
           "table, not a model. Gross errors in these functions are seen through C13, C17, C18, C19, C20 and C21.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    f = os.path.join(V, "checks", i.lower() + ".py")
    if os.path.exists(f):
        m = importlib.import_module(i.lower())
        checks.append({"property": i, "quick_cmd": "python3 checks/run.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + i,
                       "technique": m.TECH, "level": getattr(m, "LEVEL", "model_checking"), "level_note": m.NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "specification and conformance check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 checks/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks compile /repo's sources themselves and record through the public interface. "
                    "Specifications (TLA+, checked with TLC) are in spec/, recorders in harness/."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
