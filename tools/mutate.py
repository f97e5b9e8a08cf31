#!/usr/bin/env python3
"""mutate.py OUT N [FILE...]: small changes of the sources (operators, constants, conditions, dropped statements), N per file, made in scratch copies
of /repo under /tmp/mu.  With RARE=M in the environment each change takes effect only for one in M states of the local variables.  A mutant that a light run of its checks does not catch is run against the tests, and if it passes them, against the full
quick checks; what survives is written to OUT for reading.  Not used by any check."""
import io, json, os, random, re, shutil, subprocess, sys, tokenize
from concurrent.futures import ThreadPoolExecutor, as_completed
import threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
FILES = {"model/board.py": "B01 B07 B03 B02", "model/boardeditor.py": "B07 B02 B01", "model/move.py": "B04 B05 B06", "model/util.py": "B08 B02",
         "encoding/FIBS.py": "E01 P02 E06", "encoding/dbbyte.py": "E02", "encoding/gnubgid.py": "E04", "encoding/xgid.py": "E03", "encoding/bearoff/gnubgdb.py": "E05",
         "protocol/fibs.py": "P01 E06", "protocol/session.py": "P02", "doc/bgwiki.py": "D02 D03 D04", "doc/doctree.py": "D01 D02 D04", "doc/html.py": "D05", "doc/macro.py": "D06 D07", "encoding/bearoff/nori.py": "E07 E05", "image/PIL.py": "I04",
         "image/base.py": "I02 I03 I01", "image/css.py": "I01", "image/draw.py": "I03 I04", "stat/rating.py": "S02", "stat/tourney.py": "S01 S02", "record/snowietxt.py": "R01"}
SWAP = {"==": ["!="], "!=": ["=="], "<": ["<=", ">="], "<=": ["<"], ">": [">=", "<="], ">=": [">"], "+": ["-"], "-": ["+"], "*": ["+"], "/": ["*"], "%": ["+"], "and": ["or"], "or": ["and"],
        "True": ["False"], "False": ["True"], "not": [""], "continue": ["break", "pass"], "break": ["pass"], "[:]": [""], "+=": ["-="], "-=": ["+="], "in": ["not in"], "None": ["0"],
        "min": ["max"], "max": ["min"], "reversed": ["list"], "all": ["any"], "any": ["all"], "you": ["him"], "YOU": ["HIM"], "HIM": ["YOU"]}


def mutants(src):
    lines = src.splitlines(True)
    out = []
    end = next((i for i, l in enumerate(lines) if l.startswith("if __name__")), len(lines))
    try:
        toks = list(tokenize.generate_tokens(io.StringIO("".join(lines[:end])).readline))
    except Exception as e:
        toks = []
    for t in toks:
        (r, c), (r2, c2) = t.start, t.end
        if r != r2:
            continue
        new = []
        if t.type in (tokenize.OP, tokenize.NAME):
            new = SWAP.get(t.string, [])
        elif t.type == tokenize.NUMBER and re.match(r"\d+$", t.string):
            n = int(t.string)
            new = [str(n + 1)] + ([str(n - 1)] if n else [])
        for x in new:
            l = lines[r - 1]
            if re.match(r"\s*(import|from|def|class|for|assert|logging)\b", l) and t.string in ("in", "None", "True", "False") or l.strip().startswith(("import", "from", "raise", "logging")):
                continue
            out.append((r, "".join(lines[:r - 1]) + l[:c] + x + l[c2:] + "".join(lines[r:])))
    for i, l in enumerate(lines[:end]):
        m = re.match(r"(\s+)((?:self\.|[a-z_]+(\.[a-z_]+)* *(=|\(|\+=|\[)|return |yield ).*)$", l)
        if m and not l.rstrip().endswith((",", "(", "[", "{", "\\", ":")) and l.count("(") == l.count(")") and not l.strip().startswith(("logging", "def", "class")):
            out.append((i + 1, "".join(lines[:i]) + m.group(1) + "pass\n" + "".join(lines[i + 1:])))
        m = re.match(r"(\s+)(if|elif|while) (.*):\s*$", l)
        if m:
            for x in ("not (%s)" % m.group(3),) + (("True", "False") if m.group(2) != "while" else ()):
                out.append((i + 1, "".join(lines[:i]) + "%s%s %s:\n" % (m.group(1), m.group(2), x) + "".join(lines[i + 1:])))
    return out


RARE = """import zlib, types
def clean(v, d=0):
    if isinstance(v, (list, tuple)):
        return [clean(x, d) for x in v]
    if isinstance(v, (int, long, str, unicode, float, type(None))):
        return repr(v)
    if isinstance(getattr(type(v), 'defaults', None), dict):
        return [(k, repr(getattr(v, k))) for k in sorted(v.defaults)]
    if isinstance(v, dict):
        return sorted((repr(k), clean(x, d)) for k, x in v.items() if isinstance(k, (int, str, unicode)))
    if d < 2 and '__dict__' in dir(v) and not isinstance(v, (type, types.ClassType, types.ModuleType, types.FunctionType, types.MethodType)):
        return clean(dict((k, x) for k, x in v.__dict__.items()), d + 1)
    return type(v).__name__
def rare(l):
    return zlib.crc32(repr(clean(l))) % %d == 0
"""


def guard(src, new, r):
    """The mutant NEW of line R, taking effect in rare states only; None where the line cannot be wrapped."""
    a, b = src.splitlines(True), new.splitlines(True)
    if len(a) != len(b):
        return None
    x, y = a[r - 1].rstrip(), b[r - 1].rstrip()
    ind = x[:len(x) - len(x.lstrip())]
    prev = next((l.rstrip() for l in reversed(a[:r - 1]) if l.strip()), "")
    if not ind or prev.endswith((",", "\\", "(", "[", "{", "+", "or", "and")) or any(l.count("(") != l.count(")") for l in (x, y)):
        return None
    test = "__import__('bglib.zzrare').zzrare.rare(dict(locals()))"
    m = re.match(r"(\s*(?:if|elif|while)\b)(.*):$", x)
    k = re.match(r"(\s*(?:if|elif|while)\b)(.*):$", y)
    if m and k:
        a[r - 1] = "%s ((%s) if %s else (%s)):\n" % (m.group(1), k.group(2).strip(), test, m.group(2).strip())
    elif x.endswith((":", "\\", ",", "(", "[")) or x.strip().startswith(("def", "class", "@", '"', "'", "for", "else", "try", "except")):
        return None
    else:
        a[r - 1] = "%sif %s:\n%s  %s\n%selse:\n%s  %s\n" % (ind, test, ind, y.strip() or "pass", ind, ind, x.strip())
    return "".join(a)


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ, **(env or {}))
    e.pop("PYTHONPATH", None)
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=t, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 99, "timeout", "timeout")


free, lock = [], threading.Lock()


def one(job):
    f, line, text = job
    with lock:
        w = free.pop()
    path = os.path.join(w, "bglib", f)
    orig = open(path).read()
    try:
        open(path, "w").write(text)
        diff = sh(["git", "diff", "-U0", "--", "bglib/" + f], w).stdout
        diff = "\n".join(l for l in diff.splitlines()[4:])
        base = dict(BGLIB_REPO=w, VERIF_SEED="1", VERIF_TAG="mu" + os.path.basename(w))
        for p in FILES[f].split():
            c = sh(["python3", "check.py", p, "quick"], V, dict(base, VERIF_LIGHT="6"))
            if c.returncode:
                return f, diff, "caught light " + p
        x = w + ".xml"
        c = sh(["timeout", "200", "/opt/jy/jy", "-B", "-c", "import nose; nose.main()", "--with-xunit", "--xunit-file=" + x, "bglib"], w, dict(JYTHONPATH="/opt/bgsite:" + w))
        try:
            sh(["python3", "/opt/vp/results.py", w + ".json", "junit:" + x], w)
            lost = STABLE - set(json.load(open(w + ".json"))["passed"])
        except Exception:
            lost = {"all"}
        for p in (x, w + ".json"):
            if os.path.exists(p):
                os.remove(p)
        if lost:
            return f, diff, "tests"
        for p in FILES[f].split():
            c = sh(["python3", "check.py", p, "quick"], V, dict(base, VERIF_LIGHT="1"))
            if c.returncode:
                return f, diff, "caught full " + p
        return f, diff, "SURVIVED"
    finally:
        open(path, "w").write(orig)
        with lock:
            free.append(w)


if __name__ == "__main__":
    out, n = sys.argv[1], int(sys.argv[2])
    rng = random.Random(int(os.environ.get("SEED", "1")))
    jobs = []
    rare = int(os.environ.get("RARE", "0"))
    for f in sys.argv[3:] or FILES:
        src = open("/repo/bglib/" + f).read()
        ms = mutants(src)
        if rare:
            ms = [(l, t) for l, t in ((l, guard(src, t, l)) for l, t in ms) if t]
        by = {}
        for m in ms:
            by.setdefault(m[0], []).append(m)
        picks = []
        while len(picks) < n and by:        # spread over the lines
            for k in rng.sample(sorted(by), len(by)):
                picks.append(by[k].pop(rng.randrange(len(by[k]))))
                if not by[k]:
                    del by[k]
                if len(picks) >= n:
                    break
        jobs += [(f, l, t) for l, t in picks]
    rng.shuffle(jobs)
    k = int(os.environ.get("N", "4"))
    os.makedirs("/tmp/mu", exist_ok=True)
    for i in range(k):
        w = "/tmp/mu/w%s%d" % (os.path.basename(out).split(".")[0], i)
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        if rare:
            open(w + "/bglib/zzrare.py", "w").write(RARE.replace("%d", str(rare)))
        free.append(w)
    with open(out, "a") as o, ThreadPoolExecutor(k) as ex:
        for fut in as_completed([ex.submit(one, j) for j in jobs]):
            f, d, r = fut.result()
            o.write("== %s: %s\n%s\n" % (f, r, d))
            o.flush()
    for w in free:
        shutil.rmtree(w)
