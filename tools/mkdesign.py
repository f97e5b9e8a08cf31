#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design/*.md, the checks, known_findings.json and seeded/ (run by hand; not used by any check)."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda p: open(os.path.join(V, p)).read()
more = dict(l.split(": ", 1) for l in R("tools/design/props.md").splitlines() if l)
doc = R("tools/design/head.md") + """## Properties
After each title: the TLA+ modules (model checked ones first, then the judge of real records), the method and oracle, inputs and bounds, the assumptions, and
the wall time of the quick tier in the sandbox. Thorough tiers take up to about ten minutes each.

"""
known = json.loads(R("known_findings.json"))
for p in map(json.loads, R("properties.jsonl").splitlines()):
    i = p["id"]
    src = R("checks/%s.py" % i)
    t = ast.parse(src)
    d = re.sub(r"^%s: " % i, "", " ".join(ast.get_docstring(t).split()))
    A = [ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and n.targets[0].id == "ASSUMPTIONS"]
    mods = []
    for k, m in re.findall(r'ctx\.(mc|judge|accept)\("(\w+)"', src):
        if m not in mods:
            mods.append(m)
    try:
        e = json.loads(R("evidence/%s.json" % i))
        wall = "%d s" % round(e["wall_s"]) if e["tier"] == "quick" else ""
    except Exception:
        wall = ""
    doc += "### %s %s\n`%s`  \n%s\n%s\n" % (i, p["title"], " -> ".join(mods), d[0].upper() + d[1:], more.get(i, ""))
    if A:
        doc += "*Assumed:* " + "; ".join(A[0]) + ".\n"
    n = sum("property=%s " % i in x for x in known["fixed"])
    if n:
        doc += "*Defects repaired:* %d.\n" % n
    doc += "\n"
rows = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["what_it_breaks"], m["needs"], m.get("caught", m["property"])))
tail = R("tools/design/tail.md").replace("@SEEDED@", "| bug | breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows))
tail = tail.replace("@FIXES@", "\n\n" + "\n".join("* " + x[7:] for x in known["fixed"]))
open(os.path.join(V, "DESIGN.md"), "w").write(doc + tail)
