#!/usr/bin/env python3
"""coverage.py [ID...]: run the quick checks lightly with line tracing and list the lines of functions in bglib that no check executes.
Not used by any check."""
import ast, glob, json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "/tmp/verif-cov"
ids = sys.argv[1:] or sorted(os.path.basename(p)[:-3] for p in glob.glob(V + "/checks/[A-Z]*.py"))
shutil.rmtree(D, ignore_errors=True)
os.makedirs(D)
for i in ids:
    r = subprocess.run(["python3", "check.py", i, "quick"], cwd=V, env=dict(os.environ, VERIF_COV=D, VERIF_LIGHT=os.environ.get("LIGHT", "15"), VERIF_SEED="1"), capture_output=True, text=True)
    print(i, r.returncode, flush=True)
seen = {}
for p in glob.glob(D + "/*.json"):
    for k, v in json.load(open(p)).items():
        k = k.replace("$py.class", ".py")
        seen.setdefault(re.sub(r".*/bglib/", "", k), set()).update(v)
for p in sorted(glob.glob("/repo/bglib/**/*.py", recursive=True)):
    f = re.sub(r".*/bglib/", "", p, count=1)
    if "_test" in f: continue
    lines = open(p).read().split("\n")
    got = seen.get(f, set())
    miss, indef, ind = [], False, 0
    for n, l in enumerate(lines, 1):
        if re.match(r"\s*(def|class) ", l): continue
        if re.match(r"\s+\S", l) and not l.strip().startswith(("#", "'", '"', "@", ")", "]", "}")) and n not in got:
            miss.append(n)
    if miss:
        print("== %s: %d of %d lines not run" % (f, len(miss), len(lines)))
        for n in miss: print("   %4d %s" % (n, lines[n - 1]))
shutil.rmtree(D, ignore_errors=True)
