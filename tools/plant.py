#!/usr/bin/env python3
"""plant.py BUGS.py [ID...]: make each described bug in a copy of /repo, confirm that it passes the tests and that its demonstration tells the two
apart, run its property's check on the copy, and keep it under /verif/seeded.  BUGS.py defines BUGS: dicts with id, property, edits (file, old, new),
needs, breaks, demo (Jython source; it exits nonzero when the property is broken).  Not used by any check."""
import json, os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
MINE = set(subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--abbrev=40"], capture_output=True, text=True).stdout.split()[:-1])
SH = '#!/bin/bash\nHERE=$(cd "$(dirname "$0")" && pwd)\nJYTHONPATH=/opt/bgsite:$PWD exec timeout 250 /opt/jy/jy -B "$HERE/demo.py" < /dev/null\n'


def run(cmd, cwd, env=None, t=900):
    e = dict(os.environ, **(env or {}))
    e.pop("PYTHONPATH", None)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=t, stdin=subprocess.DEVNULL)


def plant(b):
    w = "/tmp/plant/" + b["id"]
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    for f, old, new in b["edits"]:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1:
            return b["id"], "EDIT occurs %d times: %r" % (s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = run(["git", "diff"], w).stdout
    for line in run(["git", "diff", "-U0"], w).stdout.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
        if line.startswith("@@"):
            a = line.split()[1][1:].split(",")
            n = int(a[1]) if len(a) > 1 else 1
            for k in range(n):
                x = run(["git", "blame", "-l", "-s", "-L", "%d,%d" % ((int(a[0]) + k,) * 2), "HEAD", "--", f], w).stdout.split()[0].lstrip("^")
                if any(m.startswith(x) for m in MINE):
                    return b["id"], "EDIT changes a line of a fix: %s %s" % (f, line)
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    if "stub" in b["demo"]:
        shutil.rmtree(os.path.join(d, "stub"), ignore_errors=True)
        shutil.copytree(os.path.join(V, "harness", "stubs"), os.path.join(d, "stub"))
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    msg = []
    good = run(["bash", os.path.join(d, "demo.sh")], "/repo")
    bad = run(["bash", os.path.join(d, "demo.sh")], w)
    if good.returncode:
        msg.append("DEMO FAILS ON /repo: " + good.stderr[-300:])
    if not bad.returncode:
        msg.append("DEMO PASSES WITH THE BUG " + bad.stdout[-200:])
    elif "AssertionError" not in bad.stderr and "broken" not in bad.stderr + bad.stdout:
        msg.append("demo fails oddly: " + bad.stderr[-300:])
    x = w + ".xml"
    run(["/opt/jy/jy", "-B", "-c", "import nose; nose.main()", "--with-xunit", "--xunit-file=" + x, "bglib"], w, dict(JYTHONPATH="/opt/bgsite:" + w))
    run(["python3", "/opt/vp/results.py", w + ".json", "junit:" + x], w)
    lost = STABLE - set(json.load(open(w + ".json"))["passed"])
    if lost:
        msg.append("TESTS FAIL: %s" % sorted(lost)[:3])
    c = run(["python3", "check.py", b["property"], "quick"], V, dict(BGLIB_REPO=w, VERIF_SEED="1", VERIF_TAG=b["id"]))
    v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
    msg.append("caught" if c.returncode == 1 and v else "MISSED (exit %d) %s" % (c.returncode, c.stdout[-200:]))
    shutil.rmtree(w, ignore_errors=True)
    for p in (x, w + ".json"):
        if os.path.exists(p):
            os.remove(p)
    return b["id"], "; ".join(msg)


if __name__ == "__main__":
    bugs = [b for b in runpy.run_path(sys.argv[1])["BUGS"] if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        for i, m in ex.map(plant, bugs):
            print(i, m, flush=True)
