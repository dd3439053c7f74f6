#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the checks present."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "vlib"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
try:
    NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
except OSError:
    pass
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        m = importlib.import_module(i.lower())
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "exploration"),
                       "level_note": m.LEVEL_NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 vlib/build.py",
           "hooks": {"guard": "CTRLPROXY_VERIF",
                     "enable": "vlib/build.py compiles /repo's sources with -DCTRLPROXY_VERIF=1 plus sanitizers and links harness/interpose.c; no source hook is needed so far",
                     "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Every check is check.py <ID>; it rebuilds from /repo's working tree into /verif/.build."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
