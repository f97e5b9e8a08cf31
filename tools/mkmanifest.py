#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=n.get("technique", "TLA+ specification checked with TLC; behaviours replayed into and traces of the real code judged by TLC"),
                           level=n.get("level", "model_checking"), level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=notes.get(i, {}).get("reason", "no check has been built for this property yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="BGLIB_VERIF", enable="no hooks are needed: the checks observe public attributes and return values only", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="All specifications are TLA+ under spec/, checked with TLC; check.py PROPERTY TIER runs one property."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
