#!/usr/bin/env python3
"""Pin the cookie patterns documented in bglib/protocol/fibs.py (run once, by hand; the checks read only the result)."""
import ast, json, re, sys
src = open("/repo/bglib/protocol/fibs.py").read()
src = re.sub(r"except (\w+(?:\.\w+)?), e", r"except \1 as e", src)
names = {"LoginState": "login", "MOTDState": "motd", "RunState": "run"}
out = {}
for c in ast.parse(src).body:
    if isinstance(c, ast.ClassDef) and c.name in names:
        t = out.setdefault(names[c.name], {})
        for s in c.body:
            if isinstance(s, ast.Assign) and s.targets[0].id[:4] in ("CLIP", "FIBS"):
                assert s.targets[0].id not in t
                t[s.targets[0].id] = ast.literal_eval(s.value)
json.dump(out, open("/verif/data/fibs_patterns.json", "w"), indent=0, sort_keys=True)
